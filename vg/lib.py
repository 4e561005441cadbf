"""What is known about the external callables the code uses: canonical names, signatures, purity."""
from . import terms as tm
from .terms import num, const, NONE, ZERO, ONE, TRUE, FALSE, FULL, mk

ALIAS = {
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs",
    "numpy.asarray": "numpy.array", "numpy.alltrue": "numpy.all", "numpy.row_stack": "numpy.vstack",
    "math.sqrt": "numpy.sqrt", "math.pi": "numpy.pi", "math.ceil": "numpy.ceil", "math.floor": "numpy.floor",
    "math.inf": "numpy.inf", "numpy.Inf": "numpy.inf", "numpy.NaN": "numpy.nan", "math.nan": "numpy.nan", "math.cos": "numpy.cos", "math.sin": "numpy.sin",
    "math.log10": "numpy.log10", "numpy.conjugate": "numpy.conj", "numpy.concat": "numpy.concatenate",
    "numpy.remainder": "numpy.mod", "math.log": "numpy.log", "numpy.true_divide": "numpy.divide",
    "builtins.any": "numpy.any", "builtins.all": "numpy.all", "numpy.linalg.linalg.norm": "numpy.linalg.norm",
    "math.isinf": "numpy.isinf", "math.isnan": "numpy.isnan", "os.path.join": "os.path.join",
    "numpy.random.Generator.normal": "normal", "itertools.chain": "itertools.chain",
}
ND = object()
SIG = {
    "numpy.sum": [("a", ND), ("axis", NONE), ("dtype", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.mean": [("a", ND), ("axis", NONE), ("dtype", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.prod": [("a", ND), ("axis", NONE), ("dtype", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.max": [("a", ND), ("axis", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.min": [("a", ND), ("axis", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.any": [("a", ND), ("axis", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.all": [("a", ND), ("axis", NONE), ("out", NONE), ("keepdims", FALSE)],
    "numpy.median": [("a", ND), ("axis", NONE), ("out", NONE)],
    "numpy.argmax": [("a", ND), ("axis", NONE)],
    "numpy.argmin": [("a", ND), ("axis", NONE)],
    "numpy.cumsum": [("a", ND), ("axis", NONE), ("dtype", NONE)],
    "numpy.concatenate": [("arrays", ND), ("axis", ZERO)],
    "numpy.stack": [("arrays", ND), ("axis", ZERO)],
    "numpy.zeros": [("shape", ND), ("dtype", NONE)],
    "numpy.ones": [("shape", ND), ("dtype", NONE)],
    "numpy.empty": [("shape", ND), ("dtype", NONE)],
    "numpy.full": [("shape", ND), ("fill_value", ND), ("dtype", NONE)],
    "numpy.eye": [("N", ND), ("M", NONE), ("k", ZERO)],
    "numpy.isclose": [("a", ND), ("b", ND), ("rtol", num(1e-5)), ("atol", num(1e-8))],
    "numpy.allclose": [("a", ND), ("b", ND), ("rtol", num(1e-5)), ("atol", num(1e-8))],
    "numpy.linalg.norm": [("x", ND), ("ord", NONE), ("axis", NONE), ("keepdims", FALSE)],
    "numpy.tile": [("A", ND), ("reps", ND)],
    "numpy.expand_dims": [("a", ND), ("axis", ND)],
    "numpy.roll": [("a", ND), ("shift", ND), ("axis", NONE)],
    "numpy.clip": [("a", ND), ("a_min", NONE), ("a_max", NONE)],
    "numpy.array": [("object", ND), ("dtype", NONE)],
    "numpy.fft.rfft": [("a", ND), ("n", NONE), ("axis", num(-1))],
    "numpy.random.default_rng": [("seed", NONE)],
    "numpy.unique": [("ar", ND), ("return_index", FALSE), ("return_inverse", FALSE), ("return_counts", FALSE)],
    "numpy.savez": [("file", ND)],
    "scipy.signal.sosfilt": [("sos", ND), ("x", ND), ("axis", num(-1)), ("zi", NONE)],
    "scipy.signal.max_len_seq": [("nbits", ND), ("state", NONE), ("length", NONE), ("taps", NONE)],
    "scipy.signal.oaconvolve": [("in1", ND), ("in2", ND), ("mode", const("full")), ("axes", NONE)],
    "scipy.signal.butter": [("N", ND), ("Wn", ND), ("btype", const("low")), ("analog", FALSE), ("output", const("ba")), ("fs", NONE)],
    "scipy.signal.sosfiltfilt": [("sos", ND), ("x", ND), ("axis", num(-1))],
    "scipy.linalg.solve_toeplitz": [("c_or_cr", ND), ("b", ND)],
    "aspcore.filter.create_filter": [("ir", NONE), ("num_in", NONE), ("num_out", NONE), ("ir_len", NONE), ("broadcast_dim", NONE), ("sum_over_input", TRUE), ("dynamic", FALSE)],
    "json.dump": [("obj", ND), ("fp", ND)],
    "yaml.dump": [("data", ND), ("stream", NONE)],
    "dill.dump": [("obj", ND), ("file", ND)],
    "builtins.open": [("file", ND), ("mode", const("r"))],
    "shutil.copy": [("src", ND), ("dst", ND)],
    "soundfile.read": [("file", ND)],
    ".normal": [("loc", ZERO), ("scale", ONE), ("size", NONE)],
    ".uniform": [("low", ZERO), ("high", ONE), ("size", NONE)],
    ".standard_normal": [("size", NONE)],
    ".get_samples": [("num_samples", ND)],
    ".process": [("data_to_filter", ND)],
    ".update_ir": [("ir_new", ND)],
    ".current_pos": [("time_idx", ND)],
    ".sample_points": [("num_points", ND)],
}
NP_METHODS = {
    "sum": "numpy.sum", "mean": "numpy.mean", "max": "numpy.max", "min": "numpy.min", "any": "numpy.any", "all": "numpy.all",
    "prod": "numpy.prod", "cumsum": "numpy.cumsum", "argmax": "numpy.argmax", "argmin": "numpy.argmin", "squeeze": "numpy.squeeze",
    "reshape": ".reshape", "flatten": ".flatten", "ravel": ".flatten", "astype": ".astype", "transpose": "numpy.transpose",
    "conj": "numpy.conj", "tolist": ".tolist", "dot": "numpy.dot", "round": "numpy.round", "clip": "numpy.clip", "copy": "numpy.copy",
    "std": "numpy.std", "var": "numpy.var", "item": ".item", "repeat": "numpy.repeat",
}
PURE_METHODS = {
    "joinpath", "startswith", "endswith", "split", "rsplit", "replace", "format", "zfill", "isdigit", "exists", "is_dir", "is_file",
    "iterdir", "strip", "lower", "upper", "join", "with_suffix", "with_name", "keys", "values", "items", "get", "index", "count",
    "reshape", "flatten", "astype", "tolist", "item", "glob", "resolve", "splitlines", "union", "difference", "intersection", "issubset",
    "rstrip", "lstrip", "partition", "rpartition", "isnumeric", "encode", "decode", "total_seconds", "strftime", "bit_length", "is_integer",
}
MUTATING = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem"}
PURE_PREFIX = ("numpy.", "scipy.", "math.", "builtins.", "copy.", "aspcore.", "dataclasses.", "itertools.", "functools.", "operator.",
               "pathlib.", "re.", "os.path.", "pyroomacoustics.Material", "pyroomacoustics.inverse_sabine", "pyroomacoustics.directivities.",
               "string.", "numbers.", "matplotlib.", "collections.", "typing.")
IMPURE = {"builtins.open", "builtins.next", "builtins.input", "builtins.exec", "builtins.eval", "builtins.setattr", "builtins.delattr",
          "numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed", "numpy.fromfile", "numpy.load", "builtins.__import__", "numpy.seterr"}
IGNORED = {"builtins.print", "warnings.warn", "logging.info", "logging.debug", "logging.warning"}
# constructing one of these makes an object with state of its own
STATEFUL = {"aspcore.filter.create_filter", "aspcore.filter.IIRFilter", "numpy.random.default_rng", "builtins.iter", "numpy.random.RandomState"}
ALLOC = {"numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty", "numpy.copy", "numpy.array", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "copy.deepcopy", "copy.copy"}


def is_impure(name):
    if name in IMPURE:
        return True
    if name.startswith("numpy.random.") and name != "numpy.random.default_rng":
        return True
    return not name.startswith(PURE_PREFIX)


def bind(name, args, kws):
    """positional/keyword normal form for a known signature, None if unknown"""
    sig = SIG.get(name)
    if sig is None or len(args) > len(sig):
        return None
    names = [p for p, _ in sig]
    d = dict(zip(names, args))
    for k, v in kws:
        if k in d:
            return None
        d[k] = v
    for p, df in sig:
        if p in d and df is not ND and d[p] is df:
            del d[p]
    a = ()
    if names[0] in d and sig[0][1] is ND:
        a = (d.pop(names[0]),)
    return a, tuple(sorted(d.items()))


def norm_shape(s):
    it = tm.seq_items(s)
    if it is not None:
        if len(it) == 1:
            return it[0]
        return tm.tup(it)
    return s


def kwget(kws, k, d=None):
    for a, b in kws:
        if a == k:
            return b
    return d


def norm_call(name, args, kws):
    """canonical term for a call of a known pure function, or None"""
    a, k = list(args), dict(kws)
    n1 = len(a) == 1 and not k
    n2 = len(a) == 2 and not k
    if name == "numpy.square" and n1:
        return tm.power(a[0], 2)
    if name == "numpy.sqrt" and n1:
        return tm.sqrt(a[0])
    if name == "numpy.hypot" and n2:
        return tm.sqrt(tm.add(tm.power(a[0], 2), tm.power(a[1], 2)))
    if name == "numpy.linalg.norm":
        # lengths of real vectors
        b = bind(name, args, kws)
        if b and b[0]:
            d = dict(b[1])
            if d.get("ord", NONE) is NONE and d.get("axis", NONE) is not NONE and tm.is_const(d["axis"]):
                ks = tuple(sorted((p, v) for p, v in d.items() if p != "ord"))
                return tm.sqrt(tm.call(mk("ext", "numpy.sum"), (tm.power(b[0][0], 2),), ks))
    if name == "numpy.power" and n2:
        return tm.power(a[0], a[1])
    if name in ("numpy.add", "operator.add") and n2:
        return tm.add(*a)
    if name in ("numpy.subtract", "operator.sub") and n2:
        return tm.minus(*a)
    if name in ("numpy.multiply", "operator.mul") and n2:
        return tm.mul(*a)
    if name in ("numpy.divide", "operator.truediv") and n2:
        return tm.div(*a)
    if name == "numpy.negative" and n1:
        return tm.neg(a[0])
    if name in ("numpy.cos", "numpy.sin") and n1:
        # whole turns do not matter
        out = tm.ZERO
        for m, c in tm._pd(a[0]).items():
            t = tm._fromd({m: c})
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and c.denominator == 1:
                turns = tm._pd(m[0][0].a[1])
                if len(turns) == 1:
                    (mono, k), = turns.items()
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "ext" and mono[0][0].a[0] == "numpy.pi" and (k / 2).denominator == 1:
                        t = tm.scale(m[0][0].a[0], c)
            out = tm.add(out, t)
        if out is not a[0]:
            return tm.call(mk("ext", name), [out])
        return None
    if name == "numpy.mod" and n2:
        return tm.mod(*a)
    if name == "builtins.divmod" and n2:
        return tm.tup([tm.fdiv(*a), tm.mod(*a)])
    if name == "numpy.floor_divide" and n2:
        return tm.fdiv(*a)
    if name in ("numpy.logical_and", "numpy.bitwise_and") and n2:
        return tm.and_(*a)
    if name in ("numpy.logical_or", "numpy.bitwise_or") and n2:
        return tm.or_(*a)
    if name in ("numpy.logical_not", "numpy.invert") and n1:
        return tm.not_(tm.truth(a[0]))
    if name in ("numpy.logical_and.reduce", "numpy.logical_or.reduce"):
        return None
    cmpf = {"numpy.less": lambda x, y: tm.lt(x, y), "numpy.less_equal": lambda x, y: tm.le(x, y), "numpy.greater": lambda x, y: tm.lt(y, x),
            "numpy.greater_equal": lambda x, y: tm.le(y, x), "numpy.equal": lambda x, y: tm.eq(x, y), "numpy.not_equal": lambda x, y: tm.not_(tm.eq(x, y))}
    if name in cmpf and n2:
        return cmpf[name](*a)
    if name in ("numpy.min", "numpy.max", "builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum"):
        op = name.rsplit(".", 1)[1][:3]
        if name in ("numpy.minimum", "numpy.maximum") and n2:
            return tm.minmax(op, a)
        if name.startswith("builtins") and len(a) > 1 and not k:
            return tm.minmax(op, a)
        if name.startswith("builtins") and len(a) == 1 and set(k) == {"default"}:
            return tm.ite(tm.le0(tm.length(a[0])), k["default"], norm_call(name, a, ()))
        if n1:
            it = tm.seq_items(a[0])
            if it:
                return tm.minmax(op, it)
            return tm.call(mk("ext", "numpy." + op), a)
    if name in ("builtins.sum", "numpy.sum") and n1:
        it = tm.seq_items(a[0])
        if it is not None and it:
            return tm.add(*it)
        return tm.call(mk("ext", "numpy.sum"), a)
    if name in ("numpy.any", "numpy.all") and n1:
        x = a[0]
        if x.op in ("listb", "tuple"):
            es = x.a[0] if x.op == "listb" else None
            if es is None:
                return (tm.or_ if name == "numpy.any" else tm.and_)(*[tm.truth(y) for y in x.a[0]])
            if all(e.op == "ent" for e in es):
                if name == "numpy.any":
                    return tm.or_(*[tm.exists_all(e.a[0], tm.and_(e.a[1], tm.truth(e.a[2]))) for e in es])
                return tm.not_(tm.or_(*[tm.exists_all(e.a[0], tm.and_(e.a[1], tm.not_(tm.truth(e.a[2])))) for e in es]))
    if name == "builtins.len" and n1:
        return tm.length(a[0])
    if name == "builtins.int" and n1:
        if tm.is_int(a[0]):
            return a[0]
    if name == "builtins.float" and n1 and a[0].op == "num":
        return a[0]
    if name == "builtins.float" and n1 and tm.is_str(a[0]) and a[0].a[1] in ("inf", "infinity"):
        return tm.INF
    if name == "builtins.bool" and n1:
        return tm.truth(a[0])
    if name == "builtins.str" and n1 and (a[0].op == "num" or tm.is_str(a[0]) or a[0].op == "strcat"):
        return tm.strcat(a[0])
    if name == "builtins.pow" and n2:
        return tm.power(*a)
    if name in ("numpy.ceil", "numpy.floor") and n1 and tm.is_int(a[0]):
        return a[0]
    if name == "numpy.copy" and n1:
        return tm.call(mk("ext", "numpy.copy"), a)
    if name in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty"):
        b = bind(name, args, kws)
        if b and b[0]:
            ks = b[1]
            if lib_float(kwget(ks, "dtype")):
                ks = tuple((p, v) for p, v in ks if p != "dtype")
            if name == "numpy.full" and kwget(ks, "fill_value") is ZERO and kwget(ks, "dtype") is None:
                return None
            return tm.call(mk("ext", name), (norm_shape(b[0][0]),), ks)
    if name == "numpy.array" and n1:
        x = a[0]
        if x.op == "poly" or (x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("numpy.")):
            return x
        it = tm.seq_items(x)
        if it is not None:
            return tm.call(mk("ext", "numpy.array"), (tm.lst([tm.lst(tm.seq_items(y)) if tm.seq_items(y) is not None else y for y in it]),))
    if name in ("numpy.concatenate", "numpy.stack") and a:
        b = bind(name, args, kws)
        it = tm.seq_items(a[0])
        if b and it is not None:
            return tm.call(mk("ext", name), (tm.lst(it),), b[1])
    if name == "numpy.vstack" and n1:
        return None
    if name == "numpy.newaxis":
        return NONE
    return None


def lib_float(t):
    return t is not None and (t is mk("ext", "builtins.float") or t is mk("ext", "numpy.float64"))
