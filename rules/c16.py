from vg.oblig import Obl, calls, made
from .c15 import D, CO, SU, S
PP = "aspsim.diagnostics.preprocessing."
# pieces are handed to a smoothing filter in order, each to the filter of its own quantity
STEPS = calls("process", grp="filter steps")
MADE = made("create_filter", grp="filters made")


def ob(mod, cls, driver, ref=None, **kw):
    return Obl(cls + (" (diagnosticsummary)" if mod is SU else ""), "diag.pieces_" + driver, {"D": (mod + cls, S + (ref or cls))},
               see=[STEPS, MADE], types={"info": "aspsim.configutil.SimulatorInfo"}, **kw)


def fun(name, driver):
    return Obl(name, "diag." + driver, {"f": (PP + name, S + name)})


OBLIGATIONS = [
    ob(D, "RecordSignal", "signal"),
    ob(D, "SignalPower", "power"),
    ob(D, "SignalPowerRatio", "ratio", order=[("filter steps", "filter steps")]),
    ob(D, "SoundfieldPower", "field"),
    ob(CO, "SignalPowerSpectrum", "spectrum"),
    ob(CO, "SignalSummary", "summary"),
    ob(SU, "SignalPowerRatioSummary", "old_ratio", ref="OldRatio"),
    ob(SU, "SignalPowerSummary", "old_power", ref="OldPower"),
    ob(SU, "SignalPowerSpectrum", "old_spectrum", ref="OldSpectrum"),
    *[fun(n, "applied") for n in ("linear", "db_power", "db_amplitude", "natural_log")],
    fun("clip", "applied_limits"), fun("smooth", "applied_twice"),
]
