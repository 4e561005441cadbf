"""What the obligations about array collections look at."""
from .run import *
from vg.oblig import refusals, calls
CODE = "aspsim.array.ArrayCollection"
COL = {"c": (CODE, "spec.arrays.ArrayCollection"), "other": CODE}
GEN = {"Gen": ("aspsim.room.roomimpulseresponse.PathGenerator", "spec.arrays.PathGenerator")}
NEW = {"Col": (CODE, "spec.arrays.ArrayCollection")}
CREATE = "aspsim.room.roomimpulseresponse.PathGenerator.create_path"
ISM = "aspsim.room.roomimpulseresponse.ir_room_image_source_3d"
FILT = "aspsim.room.roomimpulseresponse.filter_rirs"
PATHS = Sel("new path", "sub", lambda e: mentions(e.data[0], "paths"))
TYPESET = Sel("path type", "sub", lambda e: mentions(e.data[0], "path_type"))
INFOSET = Sel("path description", "sub", lambda e: mentions(e.data[0], "path_info"))
CONSTANTS = Sel("acoustic constants and image sources", "call",
                lambda e: callee(e.data[0]) == "set" and "pyroomacoustics" in str(e.data[0].a[0]) or callee(e.data[0]) == "ir_room_image_source_3d")
DRAWS = calls("normal", "uniform", "integers", "choice", "standard_normal", "random", grp="random draws")


def arr(name):
    return {"A": ("aspsim.array." + name, "spec.arrays." + name)}
