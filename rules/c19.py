import ast
from .setup import *
from .coll import GEN, CODE, COL, ISM, FILT, DRAWS
from .c17 import src
from .c18 import NAMES, DEFAULTS
from .c20 import reg
from vg.oblig import Fact
from vg.program import dotted_of
P = "aspsim.room.generatepoints."
HIDDEN = ("numpy.random.", "random.", "secrets.", "uuid.", "os.urandom", "os.getrandom", "scipy.stats.")
# what makes a generator instead of drawing from the hidden one
MAKES = {"default_rng", "Generator", "SeedSequence", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "BitGenerator", "RandomState"}
# layouts of points that neither take a generator nor are used by a setup
LAYOUTS = {P + "concentrical_circles", P + "uniform_cylinder", P + "equidistant_rectangle_for_fewer"}


def hidden(prog):
    """every use of a generator that is shared by the whole process"""
    out, seen, n = [], set(), 0
    mods = [m for m in prog.modules.values() if m.name.startswith("aspsim")]
    called = {}
    for m in mods:
        def visit(node, where):
            nonlocal n
            for c in ast.iter_child_nodes(node):
                w = where
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    w = where + "." + c.name
                    seen.add(w)
                d = dotted_of(c) if isinstance(c, (ast.Attribute, ast.Name)) else None
                if d is not None:
                    h, _, t = d.partition(".")
                    if h in m.imports:
                        full = m.imports[h] + ("." + t if t else "")
                        n += 1
                        called.setdefault(full, set()).add(m.name)
                        if full.startswith(HIDDEN) and full.split(".")[-1] not in MAKES and not any(full.startswith(x + y) for x in ("numpy.random.",) for y in MAKES):
                            fam = w
                            if fam not in LAYOUTS:
                                out.append(("D", f"{w} uses {full}, a generator nobody has given it", f"{m.rel}:{c.lineno}"))
                            elif any(a.arg == "rng" for a in prog.func(fam).node.args.args):
                                out.append(("D", f"{w} is given a generator and uses {full}", f"{m.rel}:{c.lineno}"))
                    if isinstance(c, ast.Attribute):
                        continue
                visit(c, w)
        visit(m.tree, m.name)
    for q in LAYOUTS:
        for other in called.get(q, set()) - {P[:-1]}:
            out.append(("D", f"{other} uses {q}, which draws from the hidden generator", other))
    return out, seen, n


OBLIGATIONS = [
    Fact("no hidden generator", hidden),
    *[src(k, d, [DRAWS], order=[("random draws", "random draws")]) for k, d in (("WhiteNoiseSource", "three_blocks"), ("SineSource", "three_blocks5"),
        ("MultiSineSource", "three_blocks5"), ("BandlimitedNoiseSource", "three_blocks5"), ("AutocorrSource", "three_blocks"))],
    *[src(k, f"made_plain{DEFAULTS[k]}", [DRAWS]) for k in ("WhiteNoiseSource", "SineSource", "MultiSineSource", "BandlimitedNoiseSource", "AutocorrSource")],
    *[reg(k, d) for k, d in (("Rectangle", "flat"), ("Disc", "flat"), ("Cuboid", "solid"), ("Ball", "solid"), ("Cylinder", "tall"), ("CombinedRegion", "combined"))],
    *[Obl("points on a circle: " + d, "points." + d, {"f": (P + "equiangular_circle", "spec.points.equiangular_circle")}, see=[DRAWS]) for d in ("circle", "circle_flat", "circle_plain")],
    Obl("random impulse responses", "arrays.created", GEN, see=[DRAWS], boundary=[ISM, FILT], types={"arrays": CODE}),
    Obl("order of the impulse responses", "arrays.setup", see=[DRAWS], types=COL, boundary=[ISM, FILT], order=[("random draws", "random draws")]),
    Obl("generator of a setup", "setup.new_setup", {"Setup": (S, "spec.setup.SimulatorSetup")}),
    Obl("generator of a simulator", "setup.made", see=[calls(n) for n in ("use_paths_from", "setup_ir")], types=SETUP, boundary=STEPS),
    Obl("generator of a processor", "sim.processor_made", {"P": ("aspsim.processor.AudioProcessor", "spec.sim.AudioProcessor")}, refused=False),
]
