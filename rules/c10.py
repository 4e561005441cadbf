from .setup import *
from vg.oblig import refusals
SESS = "aspsim.saveloadsession."
OBLIGATIONS = [
    Obl("same acoustics", "setup.compared", {"f": ("aspsim.configutil.equal_audio", "spec.setup.same_acoustics")}, types={"a": INFO, "b": INFO}),
    Obl("same arrays", "setup.equal_arrays", {"f": ("aspsim.array.prototype_equals", "spec.setup.same_arrays")}, types={"c": COLL, "other": COLL}),
    Obl("search", "setup.session_found", {"f": (SEARCH, "spec.setup.search")}, see=[refusals()], types={"info": INFO, "arrays": COLL},
        boundary=[LOADINFO, LOADARR, "aspsim.configutil.equal_audio", "aspsim.array.prototype_equals"]),
]
