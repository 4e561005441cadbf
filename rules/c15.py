from vg.oblig import Obl, Sel, calls, refusals
D = "aspsim.diagnostics.diagnostics."
CO = "aspsim.diagnostics.diagnosticscollection."
SU = "aspsim.diagnostics.diagnosticsummary."
S = "spec.diag."
GET = "aspsim.diagnostics.core.attritemgetter"
PLOT = "aspsim.diagnostics.plot."
EXPORTS = [PLOT + n for n in ("function_of_time_plot", "savenpz", "txt", "create_audio_files", "spectrum_plot", "plot_ir", "matshow", "soundfield")]


def ob(mod, cls, *drivers, ref=None, **kw):
    return [Obl(f"{cls}: {d}" + (" (diagnosticsummary)" if mod is SU else ""), "diag." + d, {"D": (mod + cls, S + (ref or cls))}, see=[refusals()], boundary=[GET], types={"info": "aspsim.configutil.SimulatorInfo"}, **kw) for d in drivers]


OBLIGATIONS = [
    *ob(D, "RecordSignal", "recorded", "recorded_default"),
    *ob(D, "SignalPower", "power", "power_default"),
    *ob(D, "SignalPowerRatio", "ratio", "ratio_default"),
    *ob(D, "RecordState", "states"),
    *ob(D, "StatePower", "state_power"),
    *ob(D, "StateComparison", "state_compared"),
    *ob(D, "StateSummary", "state_summed"),
    *ob(D, "RecordFilter", "snapshot", "snapshot_default"),
    *ob(D, "RecordFilterDifference", "difference"),
    *ob(D, "SoundfieldPower", "field"),
    *ob(CO, "EigenvaluesOverTime", "eigen_over_time"),
    *ob(CO, "Eigenvalues", "eigen"),
    *ob(CO, "SignalPowerSpectrum", "spectrum"),
    *ob(CO, "SignalSummary", "summary"),
    *ob(SU, "SignalPowerRatioSummary", "old_ratio", ref="OldRatio"),
    *ob(SU, "SignalPowerSummary", "old_power", ref="OldPower"),
    *ob(SU, "SignalPowerSpectrum", "old_spectrum", ref="OldSpectrum"),
    Obl("name of a property", "diag.named", {"f": (GET, S + "attribute")}),
]
