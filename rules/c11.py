from .setup import *
from .coll import PATHS, TYPESET, COL
from vg.oblig import calls
A = "aspsim.saveloadsession."
TAKEN = ("aspsim.saveloadsession.load_session", "spec.setup.load_session")
FILES = calls("dump", "open", "mkdir", "joinpath", "save_to_file", "add_to_sim_metadata", "copy", grp="files")
CHANGED = Sel("changed attribute", "attr", lambda e: e.data[0].op in ("root", "attr", "sub") and "." not in str(e.data[0].a[0]))
MADE = calls("mkdir", grp="made")
COLLS = {"arrays": (COLL, "spec.arrays.ArrayCollection"), "info": INFO}
OBLIGATIONS = [
    Obl("paths of the session", "setup.session_taken", {"f": TAKEN}, see=[PATHS, TYPESET, CHANGED], types=COLLS, boundary=[SEARCH, LOADARR]),
    Obl("only paths that are not the user's", "arrays.taken_over", see=[PATHS, TYPESET, CHANGED], types=COL),
    Obl("steps to a simulator", "setup.made", see=[calls("setup_ir", "save_session", "search_for_matching_session", "use_paths_from", "set_default_path_type")], types=SETUP, boundary=STEPS),
    Obl("session written", "setup.session_saved", {"f": (SAVES, "spec.setup.save_session")}, see=[MADE, FILES], types={"info": INFO, "arrays": COLL}, boundary=[NEWFOLDER, SAVEARR, SAVEINFO, A + "add_to_sim_metadata"],
        order=[("made", "files")]),
    Obl("arrays written", "setup.arrays_saved", see=[FILES], types={"c": (COLL, "spec.arrays.ArrayCollection")}),
    Obl("arrays read", "setup.arrays_loaded", {"f": (LOADARR, "spec.setup.load_arrays")}, see=[calls("open", "load", grp="files")]),
    Obl("session restored", "setup.session_loaded", {"f": (A + "load_from_path", "spec.setup.load_path")}, see=[FILES], types={"info": INFO}, boundary=[LOADARR, LOADINFO, SAVEINFO]),
    Obl("setup restored", "setup.from_session", see=[calls("load_from_path")], types=SETUP, boundary=[LOADARR, LOADINFO, SAVEINFO, NEWFOLDER]),
    Obl("notes", "setup.noted", {"f": (A + "add_to_sim_metadata", "spec.setup.add_notes")}, see=[FILES, calls("load", grp="read")]),
]
