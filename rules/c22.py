from vg.oblig import Obl, Sel, callee, refusals, base_name
R = "aspsim.room.roomimpulseresponse."
S = "spec.images."
SIM = {"sim": (R + "ir_room_image_source_3d", S + "image_sources")}
ROOM = Sel("room, sources, microphones and simulation", "call",
           lambda e: callee(e.data[0]) in ("ShoeBox", "Material", "add_source", "MicrophoneArray", "add_microphone_array", "compute_rir"))
STORED = Sel("stored impulse response", "sub", lambda e: base_name(e.data[0]) == "ir")
GEN = {"Gen": (R + "PathGenerator", "spec.arrays.PathGenerator")}
SETTINGS = Sel("acoustic constants and image sources", "call",
               lambda e: callee(e.data[0]) == "set" and "pyroomacoustics" in str(e.data[0].a[0]) or callee(e.data[0]) == "ir_room_image_source_3d")
OBLIGATIONS = [
    Obl("settings of the simulation", "arrays.created", GEN, see=[SETTINGS, refusals()], boundary=[R + "ir_room_image_source_3d", R + "filter_rirs"], types={"arrays": "aspsim.array.ArrayCollection"}),
    Obl("image sources", "images.simulated", SIM, see=[ROOM, refusals()]),
    Obl("image sources with description", "images.described", SIM, see=[ROOM, refusals()]),
    Obl("highpass", "images.filtered", {"filt": (R + "filter_rirs", S + "highpass")}),
    Obl("what truncation loses", "images.truncated", {"info": (R + "calc_truncation_info", S + "truncation")}),
]
