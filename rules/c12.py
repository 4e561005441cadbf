from .setup import *
OUTSIDE = Sel("changed attribute", "attr", lambda e: e.data[0].op in ("root", "attr", "sub") and "." not in str(e.data[0].a[0]))
USED = [calls(n) for n in ("set_default_path_type", "use_paths_from", "setup_ir", "save_session", "search_for_matching_session")]
OBLIGATIONS = [
    Obl("what a simulator is made of", "setup.made", see=USED, types=SETUP, boundary=STEPS, copies=True),
    Obl("the setup is unchanged", "setup.kept", see=[OUTSIDE], types=SETUP, boundary=STEPS, copies=True),
    Obl("two simulators", "setup.twice", see=[OUTSIDE], types=SETUP, boundary=STEPS, copies=True),
]
from .coll import GEN, CONSTANTS, ISM, FILT, CODE
OBLIGATIONS.append(Obl("settings shared by all simulators", "arrays.created", GEN, see=[CONSTANTS], boundary=[ISM, FILT], types={"arrays": CODE}))
