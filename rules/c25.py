from .setup import *
from .coll import arr, CREATE, COL
from .run import TYPES
JSON = calls("dump", "open", grp="files")
WRITE = "aspsim.saveloadsession.write_processor_metadata"
OBLIGATIONS = [
    *[Obl("description of " + n, "arrays.described", arr(n)) for n in ("MicArray", "ControllableSourceArray")],
    Obl("description of a region", "arrays.region_made", arr("RegionArray")),
    Obl("description after grouping", "arrays.grouped", arr("MicArray")),
    Obl("description of a new source", "arrays.source_changed", arr("FreeSourceArray")),
    Obl("descriptions of the paths", "arrays.setup_info", types=COL, boundary=[CREATE], contents=True, see=[Sel("description", "sub", lambda e: "path_info" in str(e.data[0]))]),
    Obl("array files", "meta.arrays_noted", see=[JSON], types={"c": (COLL, "spec.meta.ArrayCollection")}),
    Obl("steps to a simulator", "setup.made", see=[calls("save_to_file", "save_metadata", "plot", grp="description")], types=SETUP, boundary=STEPS, ret=False),
    Obl("processor file", "meta.processors_noted", {"f": (WRITE, "spec.meta.write_processors")}, see=[JSON]),
    Obl("processor of a run", "meta.run_noted", {"Sim": ("aspsim.simulator.Simulator", "spec.meta.Simulator")}, see=[calls("write_processor_metadata", grp="description")], ret=False, refused=False, types=TYPES, boundary=[WRITE]),
    Obl("names of processors", "meta.named", {"f": ("aspsim.simulator.set_unique_processor_names", "spec.meta.name_them")}, see=[attrs("name", grp="name")]),
    Obl("notes on the acoustics", "setup.noted", {"f": ("aspsim.saveloadsession.add_to_sim_metadata", "spec.setup.add_notes")}, see=[JSON]),
]
