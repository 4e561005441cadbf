from .parts import PARTS
from .run import *
SEE = [CREATED, IDX, SHIFTED, PROC]
ORDER = [(SHIFTED.grp, IDX.grp), (PROC.grp, SHIFTED.grp)]
OBLIGATIONS = [
    Obl("with a processor", "sim.drive", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("without a processor", "sim.drive_alone", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
]
OBLIGATIONS += [PARTS[n] for n in ("one save", "run",)]
