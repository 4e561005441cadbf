from .parts import PARTS
from vg.oblig import Obl, Sel, calls, refusals
C = "aspsim.diagnostics.core."
D = "aspsim.diagnostics.diagnostics."
S = "spec.diag."
IV = {"C": (C + "IntervalCounter", S + "IntervalCounter")}
IX = {"C": (C + "IndexCounter", S + "IndexCounter")}
LG = (C + "Logger", S + "Logger")
INFO = {"info": "aspsim.configutil.SimulatorInfo"}
TYPED = {"log": (C + "Logger", S + "Logger")}
EXPORT = calls("savenpz", "function_of_time_plot", "txt", "create_audio_files", "spectrum_plot", grp="export")
BOUND = ["aspsim.diagnostics.plot." + n for n in ("function_of_time_plot", "savenpz", "txt", "create_audio_files", "spectrum_plot", "plot_ir", "matshow", "soundfield")]
OBLIGATIONS = [
    *[Obl("save times: " + d, "diag." + d, IV, see=[refusals()]) for d in ("spans", "moments", "any_spans", "given", "every", "every_from_zero")],
    *[Obl("export times: " + d, "diag." + d, IX, see=[refusals()]) for d in ("listed", "stepped")],
    Obl("what is exported, when, and to which function", "diag.log_exported", {"Log": LG, "Rec": (D + "RecordSignal", S + "RecordSignal")}, see=[EXPORT], types=INFO, boundary=BOUND),
]
for _f in ("log_exported_any", "log_due", "log_added"):
    OBLIGATIONS.append(Obl("logger: " + _f, "diag." + _f, see=[EXPORT] + ([refusals()] if _f == "log_added" else []), types=TYPED, boundary=BOUND, refused=_f == "log_added"))
OBLIGATIONS += [
    Obl("values before the export time: all times", "diag.values_until", {"f": (C + "get_values_up_to_idx", S + "up_to")}, see=[refusals()]),
    Obl("values before the export time: chosen times", "diag.values_among", {"f": (C + "get_values_from_selection", S + "chosen")}, see=[refusals()]),
]
VALUES = calls("get_processed_output", "savez_compressed", "dump", "write", grp="exported values")
for _n, _r in (("savenpz", "npz"), ("txt", "text"), ("create_audio_files", "audio")):
    OBLIGATIONS.append(Obl("file: " + _n, "files.exported", {"f": ("aspsim.diagnostics.plot." + _n, "spec.files." + _r)}, see=[VALUES], ret=False,
                           boundary=["aspsim.fileutilities.find_all_earlier_files"]))
SHOWN = calls("get_processed_output", "plot", "matshow", "output_plot", grp="shown")
for _n, _r in (("function_of_time_plot", "curves"), ("matshow", "matrices"), ("spectrum_plot", "spectra"), ("plot_ir", "responses")):
    OBLIGATIONS.append(Obl("figure: " + _n, "files.exported", {"f": ("aspsim.diagnostics.plot." + _n, "spec.files." + _r)}, see=[SHOWN], order=[("shown", "shown")],
                           boundary=["aspsim.diagnostics.plot.output_plot"], ret=False))
OBLIGATIONS += [PARTS[n] for n in ("due", "export", "dispatch", "progress index",)]
