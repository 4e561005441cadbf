from .parts import PARTS
from .run import *
SEE = [IDX, SHIFTED, CREATED, MIC, CONTRIB, FREE]
ORDER = [(MIC.grp, IDX.grp), (SHIFTED.grp, IDX.grp), (IDX.grp, IDX.grp), (FREE.grp, IDX.grp)]
OBLIGATIONS = [
    Obl("with a processor", "sim.drive", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("without a processor", "sim.drive_alone", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
]
OBLIGATIONS += [PARTS[n] for n in ("shift", "one save", "new signal", "run",)]
