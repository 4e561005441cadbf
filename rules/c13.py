from .parts import PARTS
from .run import *
SEE = [RECORD, SHIFTED, IDX, MIC]
ORDER = [(RECORD.grp, SHIFTED.grp), (MIC.grp, RECORD.grp), (RECORD.grp, IDX.grp)]
OBLIGATIONS = [
    Obl("with a processor", "sim.drive", BIND, see=SEE, order=ORDER, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("without a processor", "sim.drive_alone", BIND, see=SEE, order=ORDER, types=TYPES, refused=False, two_dim=True, any_length=True),
]
OBLIGATIONS += [PARTS[n] for n in ("run", "save", "progress", "one save", "shift",)]
