from vg.oblig import Obl, calls, refusals
P = "aspsim.room.region."
S = "spec.regions."
DRAWS = calls("normal", "uniform", "integers", "choice", "standard_normal", "random", grp="random draws")


def reg(name, driver):
    return Obl(f"{name}: {driver}", "regions." + driver, {"R": (P + name, S + name)}, see=[refusals(), DRAWS])


OBLIGATIONS = [
    *[reg(n, d) for n in ("Rectangle", "Disc") for d in ("flat", "flat_plain")],
    *[reg(n, d) for n in ("Cuboid", "Ball") for d in ("solid", "solid_plain")],
    reg("Cuboid", "padded"), reg("Rectangle", "padded"), reg("Cuboid", "spaced"),
    reg("Cylinder", "tall"), reg("Cylinder", "tall_plain"),
    reg("CombinedRegion", "combined"), reg("CombinedRegion", "combined_two"),
]
