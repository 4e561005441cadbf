from vg.oblig import Obl, calls, refusals

P = "aspsim.signal.sources."
S = "spec.sources."


def src(name, driver, see=(), **kw):
    return Obl(f"{name}:{driver}", "sources." + driver, {"Src": (P + name, S + name)}, see=see, **kw)


DRAWS = calls("normal", "uniform", "integers", "choice", "standard_normal", "random", grp="random draws")
OBLIGATIONS = [
    src("Sequence", "played"), src("Sequence", "played_once", [refusals("StopIteration")]), src("Sequence", "played_last", [refusals("StopIteration")]), src("Sequence", "seq_modes"),
    src("WhiteNoiseSource", "three_blocks", [DRAWS]), src("WhiteNoiseSource", "new_power3", [DRAWS]),
    src("SineSource", "three_blocks5", [DRAWS]),
    src("MultiSineSource", "three_blocks5", [DRAWS]),
    src("BandlimitedNoiseSource", "three_blocks5", [DRAWS]), src("BandlimitedNoiseSource", "new_power5", [DRAWS]),
    src("Counter", "three_blocks2"), src("PulseTrain", "three_blocks4"),
    src("AutocorrSource", "three_blocks", [DRAWS, calls("process", grp="filter steps")], order=[("random draws", "filter steps"), ("filter steps", "filter steps")]),
    src("MLS", "three_blocks4"),
    src("GoldSequenceSource", "gold"), src("GoldSequenceSource", "gold_any"),
]
