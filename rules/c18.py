from vg.oblig import Obl, calls, refusals
from .c17 import src, calls, DRAWS, P, S


def fun(name, driver, see=()):
    return Obl(name, "sources." + driver, {"f": (P + name, S + name)}, see=see)


R = refusals()
NAMES = {"WhiteNoiseSource": 3, "SineSource": 5, "MultiSineSource": 5, "BandlimitedNoiseSource": 5, "Counter": 2, "PulseTrain": 4,
         "AutocorrSource": 3, "MLS": 4, "GoldSequenceSource": 3}
# the same with the options left out
DEFAULTS = {"WhiteNoiseSource": 2, "SineSource": 4, "MultiSineSource": 4, "BandlimitedNoiseSource": 4, "Counter": 1, "PulseTrain": 3,
            "AutocorrSource": 2, "MLS": 3}
OBLIGATIONS = [
    src("Sequence", "made3", [R]), src("Sequence", "made_plain2", [R]), src("Sequence", "made_plain1", [R]),
    *[src(n, f"made{k}", [R, DRAWS]) for n, k in NAMES.items()],
    *[src(n, f"made_plain{k}", [R, DRAWS]) for n, k in DEFAULTS.items()],
    src("SourceArray", "several", [calls("kind", grp="parts"), calls("get_samples", grp="blocks")]),
    src("WhiteNoiseSource", "power_set", [R]), src("GoldSequenceSource", "power_set", [R]),
    fun("load_audio_file", "loaded", [R]), fun("load_audio_file", "loaded_plain", [R]),
    fun("ar_coeffs_from_autocorr", "applied", [R]), fun("ar_coeffs_to_transfer_function", "applied"),
]
