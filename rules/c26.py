from .coll import *
OBLIGATIONS = [
    Obl("first array", "arrays.added", NEW, see=[refusals()]),
    Obl("another array", "arrays.added_more", see=[refusals(), Sel("registration", "sub", lambda e: True)], types=COL),
    Obl("look-up", "arrays.looked_up", types=COL),
    Obl("iteration", "arrays.iterated", types=COL),
    Obl("frequency responses", "arrays.frequency", see=[refusals()], types=COL),
    *[Obl("kind of " + n, "arrays.sorts", arr(n)) for n in ("MicArray", "RegionArray", "ControllableSourceArray", "FreeSourceArray")],
    Obl("microphones", "arrays.array_made", arr("MicArray"), see=[refusals()]),
    Obl("controllable sources", "arrays.array_made", arr("ControllableSourceArray"), see=[refusals()]),
    Obl("directed microphones", "arrays.array_directed", arr("MicArray"), see=[refusals()]),
    Obl("groups", "arrays.grouped", arr("MicArray")),
    Obl("free source", "arrays.source_made", arr("FreeSourceArray"), see=[refusals()]),
    Obl("new source", "arrays.source_changed", arr("FreeSourceArray"), see=[refusals()]),
    Obl("region with points", "arrays.region_made", arr("RegionArray"), see=[refusals()]),
    Obl("region", "arrays.region_default", arr("RegionArray"), see=[refusals()]),
]
