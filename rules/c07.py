from .parts import PARTS
from .coll import *
OBLIGATIONS = [
    Obl("one update", "arrays.moved", {}, see=[NEWPOS, PATHS], order=[(NEWPOS.grp, PATHS.grp)], types=COL, boundary=[CREATE], ret=False, phases=[(NEWPOS.grp, PATHS.grp)],
        alts=[(None, None, {"c": (CODE, "spec.arrays.PairwiseUpdate")})]),
    Obl("microphones", "arrays.array_moved", arr("MicArray")),
    Obl("controllable sources", "arrays.array_moved", arr("ControllableSourceArray")),
    Obl("during a run", "sim.drive", BIND, see=[NEWPOS, NEWIR], order=[(NEWPOS.grp, NEWIR.grp), (NEWIR.grp, PROCESS.grp)], ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
    Obl("during a run without processor", "sim.drive_alone", BIND, see=[NEWPOS, NEWIR], order=[(NEWPOS.grp, NEWIR.grp)], ret=False, types=TYPES, refused=False, two_dim=True, any_length=True),
]
OBLIGATIONS += [PARTS[n] for n in ("run", "propagate", "move",)]
