from .coll import *
OBLIGATIONS = [
    Obl("a path given by the user", "arrays.user_path", see=[PATHS, refusals()], types=COL),
    Obl("paths given by the user", "arrays.user_paths", see=[PATHS, refusals()], types=COL),
    Obl("path types", "arrays.kinds", see=[TYPESET, refusals()], types=COL),
    Obl("default path type", "arrays.defaults", see=[TYPESET], types=COL),
    Obl("generation", "arrays.setup", see=[PATHS], types=COL, boundary=[CREATE]),
    Obl("kinds of path", "arrays.created", GEN, see=[DRAWS, refusals(), CONSTANTS], boundary=[ISM, FILT], types={"arrays": CODE}),
    Obl("kinds of path with description", "arrays.created_info", GEN, see=[DRAWS, refusals()], boundary=[ISM, FILT], types={"arrays": CODE}),
]
