import ast
import os
from .setup import *
from .coll import GEN, CODE, ISM, FILT
from vg.oblig import Fact, calls, refusals
FILES = calls("dump", "open", "asdict", grp="files")
CHECKED = {"info": (INFO, "spec.setup.Info")}


def options(path):
    """names and scalar values of a flat YAML file"""
    out = {}
    with open(path, encoding="utf-8") as f:
        for n, ln in enumerate(f, 1):
            if not ln.strip() or ln.lstrip().startswith("#") or ln.strip() in ("---", "..."):
                continue
            if ln[0].isspace() or ln[0] in "-{[":
                if ln[0].isspace() or ln[0] == "-":
                    continue
                raise ValueError(f"line {n} is no option")
            k, c, v = ln.partition(":")
            if not c:
                raise ValueError(f"line {n} is no option")
            k = k.strip().strip('"' + "'")
            if k in out:
                out.setdefault("", []).append(k)
            out[k] = (v.split(" #")[0].strip(), n)
    return out


def fits(kind, text):
    """whether a YAML scalar can be a value of the annotated type (True, False or None when not known)"""
    t = text.strip('"' + "'")
    low = t.lower()
    boolean = low in ("true", "false", "yes", "no", "on", "off")
    try:
        float(t)
        number = True
    except ValueError:
        number = False
    if text == "":
        return None
    if kind == "bool":
        return boolean
    if kind == "int":
        return number and t.lstrip("+-").replace("_", "").isdigit()
    if kind == "float":
        return number or low in (".inf", ".nan")
    if kind == "str":
        return not boolean and not number and text[0] not in "[{"
    if kind.startswith("list"):
        return text[0] == "["
    return None


def fields(prog):
    c = prog.cls(INFO)
    out = {}
    for k in reversed(prog.mro(c)):
        for name, ann, val in k.fields:
            if "ClassVar" not in ast.unparse(ann):
                out[name] = (ast.unparse(ann), val, f"{c.module.rel}:{ann.lineno}")
    return c, out


def agreement(prog):
    c, fs = fields(prog)
    if not c.dataclass:
        return [("U", "the configuration is no data class", c.qual)], set(), 0
    path = os.path.join(os.path.dirname(c.module.path), "config.yaml")
    opts = options(path)
    rel = "src/aspsim/config.yaml"
    out = [("D", f"option '{k}' given twice", rel) for k in opts.pop("", [])]
    for k, (v, n) in opts.items():
        if k not in fs:
            out.append(("D", f"option '{k}' is no field of the configuration: the default file cannot be loaded", f"{rel}:{n}"))
        else:
            ok = fits(fs[k][0], v)
            if ok is False:
                out.append(("D", f"option '{k}' has the value {v}, which is no {fs[k][0]}", f"{rel}:{n}"))
            elif ok is None:
                out.append(("U", f"value of option '{k}' not understood", f"{rel}:{n}"))
    for k, (ann, val, where) in fs.items():
        if k not in opts and val is None:
            out.append(("D", f"field '{k}' has no value in the default file", where))
    return out, {c.qual}, len(fs) + len(opts)


def uses(prog):
    """every option that is read exists; every option is read"""
    c, fs = fields(prog)
    known = set(fs) | {m for k in prog.mro(c) for m in k.methods} | {a for k in prog.mro(c) for a in k.attrs} | {"__dict__", "__class__", "__dataclass_fields__"}
    out, read, n, fns = [], set(), 0, set()
    for m in prog.modules.values():
        if m.name.startswith("spec."):
            continue
        typed = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and name_of(x.value) in ("sim_info", "info1", "info2", "info"):
                n += 1
                fns.add(m.name)
                if isinstance(x.ctx, ast.Load):
                    read.add(x.attr)
                if x.attr not in known:
                    out.append(("D" if name_of(x.value) == "sim_info" else "U", f"'{x.attr}' is no option of the configuration", f"{m.rel}:{x.lineno}"))
    return out, fns, n


def name_of(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""


OBLIGATIONS = [
    Fact("default file and fields", agreement),
    Fact("options that are used", uses),
    Obl("accepted values", "setup.accepted", see=[refusals()], types=CHECKED),
    Obl("accepted values are implemented", "arrays.created", GEN, see=[refusals()], boundary=[ISM, FILT], types={"arrays": CODE}, ret=False),
    Obl("saved", "setup.config_saved", {"save": (SAVEINFO, "spec.setup.save_config")}, see=[FILES], types={"info": INFO}),
    Obl("loaded", "setup.config_loaded", {"load": (LOADINFO, "spec.setup.load_config")}, see=[FILES]),
    Obl("default loaded", "setup.default_loaded", {"load": ("aspsim.configutil.load_default_config", "spec.setup.load_default")}, see=[FILES], boundary=[LOADINFO]),
    Obl("setup with a file", "setup.new_setup", {"Setup": (S, "spec.setup.SimulatorSetup")}, boundary=[LOADINFO]),
    Obl("setup with defaults", "setup.new_setup_default", {"Setup": (S, "spec.setup.SimulatorSetup")}, boundary=["aspsim.configutil.load_default_config"]),
]
