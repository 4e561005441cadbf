from .setup import *
from .coll import COL, GEN, NEW, CREATE, ISM, FILT, arr
from .run import BIND, TYPES, PROC, FREE, MIC, IDX
from .c14 import TYPED
from .c09 import CHECKED
SEVERAL = refusals("NotImplementedError", grp="several processors")
R = [refusals()]
SRC = ("aspsim.simulator.SimulatorSetup", "spec.setup.SimulatorSetup")
WRITE = "aspsim.saveloadsession.write_processor_metadata"
AP = "aspsim.processor.AudioProcessor"
OBLIGATIONS = [
    Obl("new setup", "setup.new_setup", {"Setup": SRC}, see=R, boundary=[LOADINFO]),
    Obl("new setup with defaults", "setup.new_setup_default", {"Setup": SRC}, see=R, boundary=["aspsim.configutil.load_default_config"]),
    Obl("what is put into a setup", "setup.filled", {"Setup": SRC}, see=R + [calls("add_array", "set_prop_path", "set_source", grp="additions")],
        boundary=["aspsim.configutil.load_default_config", COLL + ".add_array", COLL + ".set_prop_path"]),
    Obl("setup without arrays", "setup.made", see=R, types=SETUP, boundary=STEPS, ret=False),
    Obl("more than one processor", "sim.two_processors", BIND, see=[SEVERAL, PROC, FREE, MIC, IDX], phases=[(SEVERAL.grp, g.grp) for g in (PROC, FREE, MIC, IDX)], types={**TYPES, "proc": AP, "other": AP}, boundary=[WRITE]),
    Obl("first array", "arrays.added", NEW, see=R, ret=False),
    Obl("another array", "arrays.added_more", see=R, ret=False, types=COL),
    Obl("a path given by the user", "arrays.user_path", see=R, ret=False, types=COL),
    Obl("paths given by the user", "arrays.user_paths", see=R, ret=False, types=COL),
    Obl("path types", "arrays.kinds", see=R, ret=False, types=COL),
    Obl("kinds of path", "arrays.created", GEN, see=R, ret=False, boundary=[ISM, FILT], types={"arrays": COLL}),
    *[Obl(f"{n}: {d}", "arrays." + d, arr(n), see=R, ret=False) for n, d in (
        ("MicArray", "array_made"), ("MicArray", "array_directed"), ("ControllableSourceArray", "array_made"), ("FreeSourceArray", "source_made"),
        ("FreeSourceArray", "source_changed"), ("RegionArray", "region_made"), ("RegionArray", "region_default"))],
    Obl("another recorded quantity", "diag.log_added", see=R, ret=False, types=TYPED),
    Obl("configuration", "setup.accepted", see=R, types=CHECKED),
]
