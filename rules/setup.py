"""What the obligations about setting up, saving and finding a simulation look at."""
from vg.oblig import Obl, Sel, calls, attrs, refusals, callee
S = "aspsim.simulator.SimulatorSetup"
COLL = "aspsim.array.ArrayCollection"
SETUP = {"setup": (S, "spec.setup.SimulatorSetup")}
INFO = "aspsim.configutil.SimulatorInfo"
NEWFOLDER = "aspsim.fileutilities.get_unique_folder_name"
LOADS = "aspsim.saveloadsession.load_session"
SAVES = "aspsim.saveloadsession.save_session"
SEARCH = "aspsim.saveloadsession.search_for_matching_session"
SETUPIR = COLL + ".setup_ir"
DEFAULTS = COLL + ".set_default_path_type"
USE = COLL + ".use_paths_from"
PLOT = COLL + ".plot"
META = COLL + ".save_metadata"
SAVEINFO = INFO + ".save_to_file"
LOADINFO = "aspsim.configutil.load_from_file"
LOADARR = "aspsim.array.load_arrays"
SAVEARR = COLL + ".save_to_file"
LOGGER = "aspsim.diagnostics.core.Logger"
EMPTY = COLL + ".empty"
STEPS = [NEWFOLDER, SEARCH, SAVES, LOADARR, USE, SETUPIR, DEFAULTS, PLOT, META, SAVEINFO, EMPTY]
