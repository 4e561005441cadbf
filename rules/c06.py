from .parts import PARTS
from .run import *
SEE = [PROC, SHARED, MIC, FREE, NEWPOS]
ORDER = [(PROC.grp, MIC.grp), (PROC.grp, FREE.grp), (SHARED.grp, PROC.grp), (PROC.grp, PROC.grp), (NEWPOS.grp, PROC.grp)]
OBLIGATIONS = [
    Obl("with a processor", "sim.drive", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("without a processor", "sim.drive_alone", BIND, see=SEE, order=ORDER, ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("one processor, no list", "sim.handed_over", BIND, types={**TYPES, "proc": "aspsim.processor.AudioProcessor"}),
    Obl("list of processors", "sim.handed_over_list", BIND, types=TYPES),
]
OBLIGATIONS += [PARTS[n] for n in ("run",)]
