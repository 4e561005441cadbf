SIM = "simulator.py"
MOD = "spec/sim.py is the reference run."

p("C01", "Microphone signals are the sum of every source's contribution",
  "At every sample of a run, each microphone signal is the sum, over every source array, of that source's signal filtered through the impulse responses between exactly that source array and that microphone array, each pair counted once and written at the same sample it was read from. "
  "Impulse responses of pairs with a moving array are refreshed before that sample is filtered, and when source contributions are kept, each pair's own contribution is stored under its own name at the same samples. This also holds for the samples produced before time zero.",
  ["inputs", "configurations", "histories"], "all array collections (any number of sources and microphones, moving or static), all source signals, run lengths and buffer sizes, with and without a processor, contributions kept or not",
  "Tests compare a few static geometries with direct convolution; they never combine several sources, several microphone arrays, kept contributions and start-up samples, and cannot enumerate array collections or buffer boundaries.",
  [SIM, "array.py"], [("propagation", SIM + ":Propagator.propagate"), ("start-up", SIM + ":Propagator.prepare"), ("path filters", SIM + ":Propagator.__init__"), ("pairs", "array.py:ArrayCollection.mic_src_combos")])

p("C02", "Free sources are streamed once per sample without gaps or repeats",
  "Each free source is asked for samples exactly once per simulated sample, in order, and what it returns is placed at the same buffer position for every source before anything is filtered. "
  "Before time zero it is asked once, for as many samples as the buffer when sources start before time zero and otherwise for a single sample, placed directly before the first simulated position.",
  ["inputs", "configurations", "histories"], "all collections of free sources, run lengths, buffer sizes and start modes",
  "A skipped, repeated or reordered draw changes only the alignment of an arbitrary stream; tests use one stationary source and a handful of lengths.",
  [SIM, "array.py"], [("streaming", SIM + ":Propagator.propagate"), ("start-up", SIM + ":Propagator.prepare"), ("source array", "array.py:FreeSourceArray.get_samples")])

p("C03", "Buffer position, global time and buffer shifts stay in lockstep",
  "The position in the signal buffers starts one buffer length in, advances by one for every simulated sample together with the global time, and is moved back by exactly one chunk whenever the buffers are shifted. "
  "A shift keeps the last buffer-length samples of every signal at the start and clears the rest, so a sample keeps its meaning across shifts. Every signal has room for one buffer plus one chunk.",
  ["histories", "configurations", "inputs"], "all run lengths, buffer and chunk sizes, block sizes and signal sets (arrays, contributions, signals created by processors)",
  "Tests run few chunks with default sizes and observe only final recordings; off-by-one errors at a shift show only for particular combinations of sizes and lengths.",
  [SIM], [("signals", SIM + ":Signals"), ("shift", SIM + ":Signals._reset_signals"), ("main loop", SIM + ":Simulator.run_simulation")])

p("C04", "The buffers are always shifted before a block could run past their end",
  "After each sample the buffers are shifted exactly when another whole processing block would reach the end of the buffers. "
  "Every processing call therefore has a complete block of free room ahead of it, whatever the block, buffer and chunk sizes are, also when there is no processor.",
  ["configurations", "histories"], "all block sizes, buffer sizes, chunk sizes and run lengths, with and without a processor",
  "Tests use two or three block sizes with one chunk size; the condition matters only when sizes do not divide each other.",
  [SIM], [("last block test", SIM + ":Simulator.last_block_on_buffer"), ("shift", SIM + ":Simulator.diag_moved_from_propagate")])

p("C05", "A run simulates the configured number of samples plus one block",
  "A run starts at global time zero, advances one sample at a time and ends after exactly the configured total plus one processing block (without processor: a quarter of the buffer, at least one sample), so every requested sample is simulated and recorded. ",
  ["configurations", "inputs"], "all totals, block sizes and buffer sizes, with and without a processor",
  "One test runs a few lengths; the guarantee must hold for every combination of total and block size.",
  [SIM], [("main loop", SIM + ":Simulator.run_simulation")])

p("C06", "Processors are called once per complete block, before new sound arrives",
  "A processor is prepared once, after all signals exist and the start-up samples have been propagated, and shares the simulator's own signals. "
  "It is then called exactly at the last sample of each of its blocks with its block size, after moving arrays have been updated and before that sample is streamed and propagated.",
  ["histories", "configurations"], "all block sizes, run lengths and signal sets",
  "Tests check the delay for a few block sizes; order of the phases inside a sample is observable only for particular processors.",
  [SIM], [("schedule", SIM + ":Simulator.run_simulation"), ("prepare", SIM + ":Simulator._prepare_simulation"), ("hand-over", SIM + ":Simulator.add_processor")])

p("C07", "Moving arrays: all positions first, then every affected path, on schedule",
  "Positions and paths are updated exactly at the global times that are multiples of the configured update interval, and only when some array moves. "
  "At such a time every moving array first takes its trajectory's position for that time, and then the impulse responses of every pair with a moving array, and of no other pair, are regenerated from the new positions.",
  ["histories", "configurations", "inputs"], "all collections of moving and static sources and microphones, all update intervals, times and trajectories",
  "Tests move one array at a time; two moving arrays, moving microphones without sources, or odd intervals are never combined.",
  ["array.py", SIM], [("update", "array.py:ArrayCollection.update"), ("position", "array.py:Array.update"), ("path", "array.py:ArrayCollection.update_path")])

p("C08", "Paths given by the user are used unchanged and path types apply as asked",
  "An impulse response set by the user is used as given for exactly the named pair and is never overwritten by a generated one, and a path type set for a pair takes precedence over the default reverberation, which applies to every pair without one. "
  "Every source-microphone pair gets a path of the type chosen for it; a wrong shape is refused.",
  ["configurations", "inputs"], "all collections of arrays, all assignments of path types and user paths",
  "Tests set one user path or one default type; precedence between user paths, pair types and defaults over all collections is not sampled.",
  ["array.py", "room/roomimpulseresponse.py"], [("set path", "array.py:ArrayCollection.set_prop_path"), ("types", "array.py:ArrayCollection.set_path_types"), ("defaults", "array.py:ArrayCollection.set_default_path_type"), ("setup", "array.py:ArrayCollection.setup_ir")])

p("C09", "Configuration fields, defaults, validation and saved form agree",
  "Every configuration option in the default file is a field of the configuration and vice versa, with nothing lost, added or renamed when a configuration is saved and loaded again. "
  "Exactly the documented values of restricted options are accepted and each accepted value is implemented where the option is used; anything else is refused when the configuration is made.",
  ["configurations"], "all configurations",
  "Tests only use the default file with a few changes; agreement of all fields and accepted values is a finite but untested relation between several files.",
  ["configutil.py", "config.yaml", "room/roomimpulseresponse.py"], [("fields", "configutil.py:SimulatorInfo"), ("validation", "configutil.py:SimulatorInfo.__post_init__"), ("save", "configutil.py:SimulatorInfo.save_to_file")])

p("C10", "A saved session is reused only when it would give the same impulse responses",
  "A saved session is reused only if every configuration value and every array property that impulse response generation depends on agrees with the current setup. "
  "Sessions whose arrays differ in number, names, positions, kind, orientation, path types or user paths, or whose acoustics differ in any relevant setting, are never reused.",
  ["configurations", "histories"], "all pairs of saved and current setups",
  "Tests never save and reload sessions with differing settings; one forgotten comparison silently reuses wrong acoustics.",
  ["configutil.py", "array.py", "saveloadsession.py"], [("configuration comparison", "configutil.py:equal_audio"), ("array comparison", "array.py:ArrayCollection.prototype_equals"), ("search", "saveloadsession.py:search_for_matching_session")])

p("C11", "Reusing a session takes over its impulse responses and nothing else",
  "When a saved session matches, only its impulse responses are taken; sources, configuration, trajectories and all other array properties stay those of the current setup. "
  "Whatever a session save writes is what loading reads back, and when nothing matches, the impulse responses are generated for the current setup and saved.",
  ["configurations", "histories"], "all current setups and saved sessions",
  "No test saves and loads sessions at all.",
  ["saveloadsession.py", SIM, "array.py"], [("load", "saveloadsession.py:load_session"), ("save", "saveloadsession.py:save_session"), ("use", SIM + ":SimulatorSetup.create_simulator")])

p("C12", "Simulators made from one setup are independent of it and of each other",
  "A created simulator works on its own copies of the configuration and the arrays, so running it or changing the setup afterwards changes neither the setup nor any other simulator. "
  "The random generator is the one given to the setup and the same for both. Settings that the acoustic library shares between simulators are set to a simulator's own before it computes impulse responses.",
  ["histories"], "all setups and all later changes",
  "One test compares two consecutive simulators; sharing of any single object between them is a fact about all later histories.",
  [SIM], [("creation", SIM + ":SimulatorSetup.create_simulator")])

p("C13", "Recorded signals hold each sample once, at its global time",
  "A recorded signal holds at index t the sample simulated at global time t (the last start-up sample counting as time zero), for all t below the configured total, whatever the block, buffer and chunk sizes; what is in the buffers is saved before they are shifted, and nothing is saved twice or skipped.",
  ["histories", "configurations", "inputs"], "all run lengths, block, buffer and chunk sizes, with and without a processor",
  "Tests compare recordings for few sizes; misalignment appears only when an interval ends exactly at a shift or a run length is no multiple of a chunk.",
  ["diagnostics/core.py", "diagnostics/diagnostics.py", SIM], [("dispatch", "diagnostics/core.py:Logger.save_data"), ("recording", "diagnostics/diagnostics.py:RecordSignal.save"), ("order", SIM + ":Simulator.diag_moved_from_propagate")])

p("C14", "Exports happen once per requested time, from data saved up to it",
  "Each requested export of a logged quantity is written exactly once, in order, not before all samples before it have been saved, and contains only samples before the requested time; the file name carries that time. "
  "Selections of intervals and of processed values keep exactly the values whose time lies before the export.",
  ["histories", "configurations"], "all export schedules, save frequencies and run lengths",
  "Tests check file names for one schedule; order and content over arbitrary schedules are not sampled.",
  ["diagnostics/core.py", "diagnostics/diagnosticscollection.py"], [("dispatch", "diagnostics/core.py:Logger.dispatch"), ("export", "diagnostics/core.py:DiagnosticExporter"), ("selection", "diagnostics/core.py:get_values_from_selection")])

p("C15", "Every logging class records its own quantity with its own settings",
  "Each logging class stores, for the samples it is given, the quantity it is named for of the signal or state it was created for, at the positions of those samples, and every option given to its constructor reaches the setting it is named for. "
  "Values are copies, so later changes of the simulation do not alter them.",
  ["inputs", "configurations", "histories"], "all logging classes, options, signals and chunk boundaries",
  "Tests exercise RecordSignal and two others with default options.",
  ["diagnostics/diagnostics.py", "diagnostics/core.py"], [("classes", "diagnostics/diagnostics.py"), ("bases", "diagnostics/core.py")])

p("C16", "Logged values do not depend on how a run is cut into chunks",
  "Quantities that smooth or filter over time keep their filter state between the pieces they are given, so the logged values are those of the uninterrupted signal. Smoothing that is applied only for display or export depends on nothing but the values given to it.",
  ["histories", "configurations"], "all ways to cut a run into pieces",
  "A test would have to compare runs with different chunk sizes for every smoothing quantity; none does.",
  ["diagnostics/diagnostics.py"], [("smoothers", "diagnostics/diagnostics.py:SignalPower")])

p("C17", "Sources give the same stream however it is cut into blocks",
  "Asking a source for blocks of any sizes gives, put together, the same samples as asking once for all of them, also when its power is changed or a table is repeated in between. "
  "A table source in raising mode hands out every sample, scaled, and stops only when fewer samples remain than asked for.",
  ["inputs", "histories"], "all block sizes and sequences of requests, all parameters, channel numbers, tables and generators",
  "Tests try a few block sizes for some sources, mostly one channel.",
  ["signal/sources.py"], [("sources", "signal/sources.py")])

p("C18", "Every source returns one row per channel and one column per sample",
  "Every source returns an array with one row per channel and one column per requested sample, and every channel setting given as a scalar or array applies to the channel it is given for; wrong channel numbers are refused. Loaded audio files become sources with one row per kept channel at the rate asked for.",
  ["inputs", "configurations"], "all source classes, channel numbers, parameters and request sizes",
  "Tests use one channel for most sources.",
  ["signal/sources.py"], [("sources", "signal/sources.py")])

p("C19", "With a given generator everything random comes from it",
  "Whatever is given a random generator (a setup, its regions, its random paths and every source) draws its random choices from that generator only, in an order fixed by the configuration. No code on the way from a setup to the end of a run draws from a hidden global generator, so a seed determines the run; point layout helpers that take no generator, and the randomised image sources of pyroomacoustics, are excepted.",
  ["inputs", "configurations"], "all setups, seeds and random features",
  "Tests seed one generator and compare a few runs; a draw from a hidden generator in a rarely used feature goes unnoticed.",
  ["signal/sources.py", "array.py", "room/roomimpulseresponse.py", "room/generatepoints.py", "room/region.py"], [("generators", "signal/sources.py"), ("random paths", "room/roomimpulseresponse.py")])

p("C20", "Regions: membership, points and volume describe the same set",
  "Membership is decided for each point on its own and exactly for the points of the shape; sampled points are spread over the shape and, for combined regions, over the parts in proportion to their volume; a point is in a combined region exactly when it is in one of its parts. ",
  ["inputs"], "all shapes, sizes, positions, spacings and point sets",
  "Tests sample a few points of default shapes.",
  ["room/region.py", "room/generatepoints.py"], [("regions", "room/region.py")])

p("C21", "Trajectories are functions of time that visit their points on schedule",
  "The position of a trajectory at a time depends on nothing but that time and its parameters; a polyline is traversed with constant speed or constant time per segment, every point is reached at its time, and repetition is periodic with the full length. What is drawn of a trajectory are points it visits.",
  ["inputs", "histories"], "all point lists, modes, times, speeds and sample rates",
  "Tests evaluate a few times on simple paths.",
  ["room/trajectory.py"], [("trajectories", "room/trajectory.py")])

p("C22", "Image-source simulation puts every source and microphone where it belongs",
  "Sources and microphones are moved into the room's frame by the same offset, each computed impulse response is stored for the source and microphone it was computed for, and responses are aligned and cut to the configured length. The room's absorption and reflection order are those of the configured reverberation time.",
  ["inputs", "configurations"], "all rooms, positions, array sizes and lengths",
  "Tests compare one or two geometries.",
  ["room/roomimpulseresponse.py"], [("image sources", "room/roomimpulseresponse.py")])

p("C23", "Unsupported or inconsistent setups are refused before they run",
  "Setups the simulator cannot represent (several processors, duplicate array or signal names, wrong shapes, unknown kinds) are refused with an error when they are made, and no accepted setup is refused.",
  ["configurations", "inputs"], "all setups",
  "Tests contain few negative cases.",
  [SIM, "array.py", "configutil.py"], [("refusals", SIM), ("arrays", "array.py")])

p("C24", "Files are only ever added, or replaced by a newer version of themselves",
  "Output goes only to a new folder of its own or to the folder given, nothing is written when no folder is given, and a file is deleted only if it is an earlier export of the same quantity and its successor has been written completely and only the last export is to be kept.",
  ["histories", "configurations"], "all runs, folders, export schedules and names",
  "Tests never keep only the last export, or run with foreign files in the folder.",
  ["fileutilities.py", "diagnostics/core.py", "diagnostics/diagnosticscollection.py", SIM], [("deletion", "diagnostics/core.py"), ("unique folders", "fileutilities.py:get_unique_folder_name")])

p("C25", "Metadata files describe the setup that was actually used",
  "When a run has a folder, the configuration, the arrays, the acoustics and the processor are described there from the objects that are used in the run.",
  ["configurations"], "all setups with an output folder",
  "Tests never read the metadata files.",
  [SIM, "array.py", "saveloadsession.py", "processor.py"], [("metadata", "saveloadsession.py")])

p("C26", "The array collection keeps names, kinds and paths consistent",
  "Every array of a collection is found under its name, exactly once, as source or microphone according to its kind, and the pairs that are iterated are all combinations of sources and microphones with their own path.",
  ["inputs", "histories"], "all sequences of additions, removals and look-ups",
  "Tests build a few fixed collections.",
  ["array.py"], [("collection", "array.py:ArrayCollection")])

p("C27", "Phase and event counters fire exactly at the configured times",
  "A phase counter is in each phase for exactly its configured number of steps, in order, and reports no phase after the last finite one; an event counter fires at exactly its configured period and offset, also for events added later.",
  ["histories", "configurations"], "all phase lists and step counts",
  "No test covers the counters.",
  ["counter.py"], [("counters", "counter.py")])

p("C28", "Splitting a range of samples into blocks leaves no gap and no overlap",
  "The block sizes a range is split into add up to the range, each block ends where the repeating table or the buffer chunk ends or at the end of the range, and blocks that have to end at an index are complete, consecutive and end exactly there.",
  ["inputs"], "all range lengths, starting positions, block, buffer and chunk sizes",
  "No test calls these helpers directly; the edge cases are ranges that start or end exactly on a boundary.",
  ["utilities.py", "processor.py"], [("tables", "utilities.py:calc_block_sizes"), ("buffers", "processor.py:calc_block_sizes_with_buffer"), ("blocks before an index", "processor.py:block_process_until_index")])

na("N01", "Generated impulse responses obey room acoustics",
  "Impulse responses generated for a room have the direct-path delay, decay time and energy that its geometry and reverberation time imply.",
  ["inputs", "configurations"], "all rooms, positions and reverberation times",
  "Tests can only compare a few rooms with tolerances.",
  ["room/roomimpulseresponse.py"], [("image sources", "room/roomimpulseresponse.py:ir_room_image_source_3d")],
  "the values are computed inside pyroomacoustics and are real numbers; from aspsim's source only what is handed to that library can be decided, and that is claimed as C22")

na("N02", "Noise sources have the power and spectrum asked for",
  "The signals of the random sources have, in the limit of long signals, the power, band limits and spectrum they were created with.",
  ["inputs"], "all source parameters and generators",
  "A test sees one finite realisation and needs tolerances.",
  ["signal/sources.py"], [("sources", "signal/sources.py")],
  "a statement about limits of random draws and about the frequency response of numerically designed filters; neither is a fact of the source text (that amplitude, filter and state are used as constructed is claimed in C17 and C18)")

na("N03", "Coordinate conversions are inverse and point layouts are regular",
  "Conversions between coordinate systems undo each other, and generated layouts of points have the spacing, number and symmetry they are asked for.",
  ["inputs"], "all coordinates and layout parameters",
  "Tests use a few points.",
  ["room/generatepoints.py"], [("conversions", "room/generatepoints.py:cart2spherical")],
  "identities between arctan2, arccos and square roots and about rounding to grid numbers; the normal forms of the analysis know no trigonometric identities, and the layouts have no specification besides their own formula (what regions promise about their points is claimed in C20)")

na("N04", "Directional microphones have the cardioid response asked for",
  "The pair of omnidirectional elements and filters built for a directional microphone has the requested directivity at all frequencies.",
  ["inputs"], "all directions, spacings and frequencies",
  "No test covers it; it can only be measured at some frequencies and angles.",
  ["room/directional.py"], [("responses", "room/directional.py:differential_cardioid_microphone")],
  "an approximation property of numerically designed filters over a continuum of frequencies and angles; there is no bound that could be derived from the source alone")

na("N05", "Sound field images show every value at its position",
  "In a drawn sound field every value appears at the pixel that belongs to the position it was measured at.",
  ["inputs"], "all regular grids of measured positions",
  "No test draws images.",
  ["diagnostics/soundfieldplot.py"], [("images", "diagnostics/soundfieldplot.py:sf_plot")],
  "pixels are found by rounding coordinates and by matplotlib's own axes; which positions form a grid is a fact about floating-point values at run time")
