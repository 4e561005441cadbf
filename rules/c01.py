from .parts import PARTS
from .run import *
SEE = [FILTERS, PROCESS, NEWIR, MIC, CONTRIB]
ORDER = [(PROCESS.grp, MIC.grp), (NEWIR.grp, PROCESS.grp)]
OBLIGATIONS = [
    Obl("with a processor", "sim.drive", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("without a processor", "sim.drive_alone", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
]
OBLIGATIONS += [PARTS[n] for n in ("propagate", "begin",)]
