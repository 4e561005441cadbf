from .parts import PARTS
from .run import *
OBLIGATIONS = [
    Obl("with a processor", "sim.length", BIND, see=[PROC, MIC], types=TYPES, refused=False, two_dim=True),
    Obl("without a processor", "sim.length_alone", BIND, see=[MIC], types=TYPES, refused=False, two_dim=True),
]
OBLIGATIONS += [PARTS[n] for n in ("run",)]
