"""Gated value graph of a program: every public entry is inlined into terms (terms.py) and an ordered list of effects.

Joins become if-then-else terms, loops become indexed families with closed forms for counters, reductions and built
containers; remaining loop-carried values are named by their recurrence.  No path is enumerated and nothing is executed.
"""
import ast
from . import terms as tm
from . import lib
from .terms import T, mk, num, const, NONE, TRUE, FALSE, ELL, ZERO, ONE, FULL, INF
from .program import Func, Class

UNDEF = mk("undef")
MAXDEPTH = 40
COLL_ATTRS = {"processors", "diagnostics", "trajectories", "regions", "sources", "arrays", "names_src", "names_mic", "names_free_src",
              "signals", "paths", "path_type"}
MAXUNROLL = 16


class AnalysisError(Exception):
    pass


class Event:
    __slots__ = ("kind", "loops", "guard", "data", "where", "fn", "inst")

    def __init__(self, kind, loops, guard, data, where, fn, inst=()):
        self.kind, self.loops, self.guard, self.data, self.where, self.fn, self.inst = kind, loops, guard, data, where, fn, inst

    def __repr__(self):
        s = f"{self.kind}: " + " | ".join(tm.show(x) if isinstance(x, T) else str(x) for x in self.data)
        if self.loops:
            s += "  for " + ", ".join(tm.show(L) for L in self.loops)
        if self.guard is not TRUE:
            s += "  if " + tm.show(self.guard)
        return s + f"   @{self.where}"


class St:
    __slots__ = ("d", "pc", "dead")

    def __init__(self, d=None, pc=TRUE, dead=None):
        self.d, self.pc, self.dead = d if d is not None else {}, pc, dead

    def copy(self):
        return St(dict(self.d), self.pc, self.dead)

    def set(self, o):
        self.d, self.pc, self.dead = o.d, o.pc, o.dead


class Frame:
    def __init__(self, fid, fn, module, cls, parent=None):
        self.fid, self.fn, self.module, self.cls, self.parent = fid, fn, module, cls, parent
        self.exits = []
        self.ctl = []
        self.gen = None
        self.closures = []
        self.selfobj = None
        self.env = None


class Ctl:
    def __init__(self):
        self.cont, self.brk = [], []


ATTR_TYPES = {
    "sim_info": "aspsim.configutil.SimulatorInfo", "sig": "aspsim.simulator.Signals", "diag": "aspsim.diagnostics.core.Logger",
    "path_generator": "aspsim.room.roomimpulseresponse.PathGenerator", "save_at": "aspsim.diagnostics.core.IntervalCounter",
    "export_at": "aspsim.diagnostics.core.IndexCounter", "trajectory": "aspsim.room.trajectory.Trajectory",
    "source": "aspsim.signal.sources.Source", "region": "aspsim.room.region.Region", "arrays": "aspsim.array.ArrayCollection",
    "propagator": "aspsim.simulator.Propagator",
}
ELEM_TYPES = {
    ("aspsim.array.ArrayCollection", "arrays"): "aspsim.array.Array",
    ("aspsim.diagnostics.core.Logger", "diagnostics"): "aspsim.diagnostics.core.Diagnostic",
    (None, "processors"): "aspsim.processor.AudioProcessor",
    (None, "trajectories"): "aspsim.room.trajectory.Trajectory",
    (None, "regions"): "aspsim.room.region.Region",
    (None, "region_segments"): "aspsim.room.region.Region",
}


class Engine:
    def __init__(self, prog, types=None, boundary=()):
        self.boundary = set(boundary)     # functions whose calls are compared, not followed
        self.prog = prog
        self.events = []
        self.loops = []
        self.inst = []
        self.ninst = 0
        self.gstack = []
        self.frames = []
        self.trystack = []
        self.kind = {}
        self.label = {}
        self.closures = {}
        self.gens = {}
        self.types = dict(types or {})
        self.valid = []
        self.arg_src, self.changed_params = {}, {}
        self.nref = self.nfid = self.nclo = self.ntmp = 0
        self.ncls = {}
        self.unknown = []
        self.rebound = set()        # dictionaries of objects that are replaced by others
        self.functions = set()
        self.where = "?"
        self.modcache = {}
        self.steps = 0
        self.st0 = St()

    # ------------------------------------------------------------ helpers
    def typ(self, t):
        """class of a term, or None"""
        if t in self.types:
            return self.prog.cls(self.types[t])
        if t.op == "new":
            return self.prog.cls(t.a[0])
        if t.op == "attr":
            base, n = t.a
            bt = self.typ(base)
            if n == "arrays" and bt is not None and bt.name == "ArrayCollection":
                return None
            q = ATTR_TYPES.get(n)
            return self.prog.cls(q) if q else None
        if t.op == "sub" and t.a[0].op in ("attr", "root", "ref"):
            b = t.a[0]
            if b.op == "ref":
                lab = self.label.get(b.a[0], "")
                n, bt = lab.rpartition(".")[2], lab.rpartition(".")[0].partition("#")[0]
            elif b.op == "root":
                n, bt = b.a[0].rpartition(".")[2], b.a[0].rpartition(".")[0].partition("#")[0]
            else:
                n = b.a[1]
                c = self.typ(b.a[0])
                bt = c.name if c else None
            for (cq, an), q in ELEM_TYPES.items():
                if an == n and (cq is None or (bt and cq.rpartition(".")[2] == bt)):
                    c = self.prog.cls(q)
                    k = t.a[1]
                    if c is not None and c.name == "Array" and k.op == "sub" and k.a[0].op == "attr" and k.a[0].a[1] == "names_free_src":
                        return self.prog.cls("aspsim.array.FreeSourceArray") or c
                    return c
        if t.op == "ite":
            a, b = self.typ(t.a[1]), self.typ(t.a[2])
            return a if a is b else None
        if t.op == "call" and t.a[0].op == "ext" and t.a[1]:
            f = t.a[0].a[0]
            if f in ("copy.deepcopy", "copy.copy"):
                return self.typ(t.a[1][0])
            if f in ("dill.load", "pickle.load"):
                return self.prog.cls("aspsim.array.ArrayCollection")
        return None

    def note(self, msg):
        self.unknown.append(f"{self.where}: {msg}")

    def emit(self, st, kind, *data):
        g = tm.and_(*self.gstack, st.pc)
        if g is FALSE:
            return
        fn = self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else "?"
        self.events.append(Event(kind, tuple(self.loops), g, tuple(data), self.where, fn, tuple(self.inst)))

    def newref(self, st, kind, content):
        self.nref += 1
        i = self.nref
        self.kind[i] = kind
        self.label.pop(i, None)
        r = mk("ref", i)
        st.d[("h", i)] = content
        return r

    def content(self, r, st):
        return st.d.get(("h", r.a[0]), mk("undef"))

    ZIPPED = set()
    _hasref = {}

    def hasref(self, t):
        r = self._hasref.get(t)
        if r is None:
            r = t.op in ("ref", "gen") or any(self.hasref(c) for c in tm.children(t))
            self._hasref[t] = r
        return r

    def root(self, r):
        return mk("root", self.label.get(r.a[0], "local"))

    def deref(self, t, st, seen=()):
        if not self.hasref(t):
            return t
        if t.op == "gen":
            return self.deref(self.collect(t, st.copy()), st, seen)
        if t.op == "ref":
            if t in seen:
                return self.root(t)
            c = self.content(t, st)
            if self.kind[t.a[0]] == "dict" and self.is_open(t, st):
                return self.root(t)
            return self.deref(c, st, seen + (t,))
        if t.op == "sub" and t.a[0].op == "ref" and self.kind[t.a[0].a[0]] == "dict":
            return mk("sub", self.root(t.a[0]), self.deref(t.a[1], st, seen))

        def go(x):
            if isinstance(x, T):
                return self.deref(x, st, seen)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        n = tuple(go(x) for x in t.a)
        return tm.remake(t.op, n)

    def is_open(self, r, st):
        """a dict whose entries are not all known one by one"""
        c = self.content(r, st)
        if c.op != "dictb":
            return True
        return self.label.get(r.a[0]) is not None and any(e.op != "ent" or e.a[0] or e.a[1] is not TRUE for e in c.a[0])

    def truth(self, t, st):
        if t.op == "ref":
            c = self.content(t, st)
            k = self.kind[t.a[0]]
            if k == "dict":
                if c.op == "dictb" and not c.a[0]:
                    return FALSE
                if c.op == "dictb" and any(e.op == "ent" and not e.a[0] and e.a[1] is TRUE for e in c.a[0]):
                    return TRUE
                return tm.not_(tm.le0(tm.length(self.root(t))))
            if k == "list" and c.op not in ("listb", "tuple", "ite"):
                return tm.not_(tm.le0(tm.length(self.deref(t, st))))
            return tm.truth(self.deref(t, st))
        t = self.deref(t, st)
        if t.op in ("attr", "root") and (t.a[-1].rpartition(".")[2] in COLL_ATTRS):
            return tm.not_(tm.le0(mk("len", t)))
        if t.op == "len":
            return tm.not_(tm.le0(t))
        return tm.truth(t)

    # ------------------------------------------------------------ state joins
    def join(self, st, c, s1, s2):
        pc0 = st.pc
        if s1.dead and s2.dead:
            st.d = s1.d
            st.dead = "raise" if s1.dead == s2.dead == "raise" else "ret"
            return
        if s1.dead or s2.dead:
            a, dd = (s2, s1) if s1.dead else (s1, s2)
            st.d = a.d
            if dd.dead == "raise":
                st.pc = pc0 if a.pc is tm.and_(pc0, c if a is s1 else tm.not_(c)) else self.weaken(a.pc, pc0, c if a is s1 else tm.not_(c))
            else:
                st.pc = a.pc
            return
        st.d = self.merge(c, s1.d, s2.d)
        if s1.pc is tm.and_(pc0, c) and s2.pc is tm.and_(pc0, tm.not_(c)):
            st.pc = pc0
        else:
            st.pc = tm.or_(s1.pc, s2.pc)

    def weaken(self, pc, pc0, lit):
        have = set(pc.a[0]) if pc.op == "and" else {pc}
        drop = (set(lit.a[0]) if lit.op == "and" else {lit}) - (set(pc0.a[0]) if pc0.op == "and" else {pc0})
        return tm.and_(*(have - drop))

    def merge(self, c, d1, d2):
        if c is TRUE:
            return d1
        if c is FALSE:
            return d2
        if d1 is d2:
            return d1
        out = {}
        for k in list(d1) + [k for k in d2 if k not in d1]:
            a, b = d1.get(k), d2.get(k)
            if a is b:
                out[k] = a
            elif k[0] == "w":
                continue
            elif a is None or b is None:
                v = a if a is not None else b
                if k[0] == "a":
                    o = mk("attr", k[1], k[2]) if k[1].op != "new" else UNDEF
                    v = tm.ite(c, a if a is not None else o, b if b is not None else o) if o is not UNDEF else v
                out[k] = v
            elif a is UNDEF or b is UNDEF:
                out[k] = b if a is UNDEF else a
            else:
                out[k] = self.merge_val(c, a, b)
        return out

    def merge_val(self, c, a, b):
        if a.op == b.op and a.op in ("listb", "dictb", "writes"):
            if a.op == "writes" and a.a[0] is not b.a[0]:
                return tm.ite(c, a, b)
            x, y = a.a[-1], b.a[-1]
            n = 0
            while n < min(len(x), len(y)) and x[n] is y[n]:
                n += 1
            if all(e.op in ("ent", "wr") for e in x[n:] + y[n:]):
                r = x[:n] + tuple(self.guarded(c, e) for e in x[n:]) + tuple(self.guarded(tm.not_(c), e) for e in y[n:])
                return mk(a.op, *(a.a[:-1] + (r,)))
        if a.op == "writes" and a.a[0] is b:
            return mk("writes", b, tuple(self.guarded(c, e) for e in a.a[1]))
        if b.op == "writes" and b.a[0] is a:
            return mk("writes", a, tuple(self.guarded(tm.not_(c), e) for e in b.a[1]))
        return tm.ite(c, a, b)

    def guarded(self, c, e):
        return mk(e.op, e.a[0], tm.and_(c, e.a[1]), *e.a[2:])

    # ------------------------------------------------------------ functions
    def module_const(self, mod, name):
        k = (mod.name, name)
        if k not in self.modcache:
            self.modcache[k] = UNDEF
            fr = Frame(0, None, mod, None)
            self.frames.append(fr)
            st = St()
            try:
                v = self.eval(mod.consts[name], st, fr)
                self.modcache[k] = self.deref(v, st)
            finally:
                self.frames.pop()
        return self.modcache[k]

    def class_attr(self, cls, name):
        for c in self.prog.mro(cls):
            if name in c.attrs:
                k = (c.qual, name)
                if k not in self.modcache:
                    fr = Frame(0, None, c.module, c)
                    self.frames.append(fr)
                    st = St()
                    try:
                        v = self.eval(c.attrs[name], st, fr)
                        self.modcache[k] = self.deref(v, st)
                    finally:
                        self.frames.pop()
                return self.modcache[k]
        return None

    def term_of(self, kind, o):
        if kind == "mod":
            return mk("modref", o.name)
        if kind == "fn":
            return mk("fnref", o.qual)
        if kind == "cls":
            return mk("clsref", o.qual)
        if kind == "const":
            return self.module_const(*o)
        o = lib.ALIAS.get(o, o)
        if o == "numpy.newaxis":
            return NONE
        return mk("ext", o)

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            k = ("v", f.fid, name)
            if k in st.d:
                return st.d[k]
            if f.env and name in f.env:
                return f.env[name]
            f = f.parent
        m = fr.module
        if name in m.funcs:
            return mk("fnref", m.funcs[name].qual)
        if name in m.classes:
            return mk("clsref", m.classes[name].qual)
        if name in m.consts:
            return self.module_const(m, name)
        if name in m.imports:
            return self.term_of(*self.prog.resolve(m.imports[name]))
        if name in ("__file__", "__name__"):
            return self.term_of("ext", f"{m.name}.{name}")
        return self.term_of("ext", "builtins." + name)

    def bind_args(self, fn, args, kws, st, selfv=None):
        """-> {param: value}; args may contain ('*', term)"""
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        pos = ([selfv] if selfv is not None else []) + list(args)
        out = {}
        for n, v in zip(names, pos):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tm.tup(pos[len(names):])
        elif len(pos) > len(names):
            self.note(f"too many arguments for {fn.qual}")
        extra = []
        for k, v in kws:
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                out[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            out[a.kwarg.arg] = self.newref(st, "dict", mk("dictb", tuple(mk("ent", (), TRUE, tm.tup([const(k), v])) for k, v in extra)))
        elif extra:
            self.note(f"unexpected keyword {extra[0][0]} for {fn.qual}")
            self.emit(st, "raise", mk("ext", "builtins.TypeError"), const(f"{fn.qual} got an unexpected keyword argument {extra[0][0]}"))
        missing = []
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n not in out:
                if n in dfl:
                    f2 = Frame(0, None, fn.module, fn.cls)
                    f2.parent = None
                    out[n] = self.eval(dfl[n], st, f2)
                else:
                    missing.append(n)
        for n in missing:
            out[n] = mk("missing", fn.name, n)
            self.note(f"missing argument {n} of {fn.qual}")
        return out

    def invoke(self, fn, args, kws, st, selfv=None, closure=None, gen=None):
        if fn.is_gen and gen is None:
            b = self.bind_args(fn, args, kws, st, selfv)
            self.nclo += 1
            g = mk("gen", self.nclo)
            self.gens[g] = (fn, b, closure)
            return g
        b = args if gen is not None else self.bind_args(fn, args, kws, st, selfv)
        if fn.qual in self.boundary:
            f, vs = mk("fnref", fn.qual), tuple(self.deref(v, st) for v in b.values())
            self.emit(st, "call", f, vs, ())
            self.may_raise(fn, mk("call", f, vs, ()), st)
            return mk("call", f, vs, ())
        if len(self.frames) > MAXDEPTH or sum(1 for f in self.frames if f.fn is fn) > 3:
            self.note(f"call of {fn.qual} not followed")
            return mk("call", mk("fnref", fn.qual), tuple(self.deref(v, st) for v in b.values()), ())
        self.functions.add(fn.qual)
        self.nfid += 1
        fr = Frame(self.nfid, fn, fn.module, fn.cls)
        fr.gen = gen
        if closure is not None:
            fr.parent, fr.env = closure[0], None
            fr.parent_env = closure[1]
        for n in self.changes(fn) if fn.node and not isinstance(fn.node, ast.Lambda) else ():
            # an array without an identity that is changed in place: its variable has to see the changes
            v = b.get(n)
            keys = [x for x in self.arg_src.get(v, ()) if st.d.get(x) is v] if v is not None else []
            if keys and v.op not in ("ref", "sub", "attr", "sym", "root", "new", "ite", "num", "tuple"):
                r = self.newref(st, "dict" if v.op == "dictb" else "list" if v.op == "listb" else "arr", v)
                b[n] = r
                for x in keys:
                    st.d[x] = r
        for n, v in b.items():
            st.d[("v", fr.fid, n)] = v
        names = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args]
        if fn.cls is not None and names and "staticmethod" not in fn.decs:
            fr.selfobj = b.get(names[0])
        elif closure is not None:
            fr.selfobj = closure[0].selfobj
        outer, where = st.pc, self.where
        ncaught = [len(t["caught"]) for t in self.trystack]
        self.gstack.append(outer)
        st.pc = TRUE
        self.frames.append(fr)
        dead0 = st.dead
        st.dead = None
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, st, fr)
                fr.exits.append((st.pc, v, st.d))
                st.dead = "ret"
            else:
                self.block(fn.node.body, st, fr)
        finally:
            self.frames.pop()
            self.gstack.pop()
        alts = list(fr.exits)
        if not st.dead:
            alts.append((st.pc, NONE, st.d))
        env = None
        if fr.closures:
            env = {k[2]: v for k, v in (alts[-1][2] if alts else st.d).items() if k[0] == "v" and k[1] == fr.fid}
        if not alts:
            st.pc, st.dead = outer, "raise" if st.dead == "raise" else "ret"
            res = UNDEF
        else:
            _, res, d = alts[-1]
            for pc, v, dd in reversed(alts[:-1]):
                res = self.merge_val(pc, v, res) if v is not res else v
                d = self.merge(pc, dd, d)
            st.d, st.pc, st.dead = dict(d), outer, dead0
        for k in [k for k in st.d if k[0] == "v" and k[1] == fr.fid]:
            del st.d[k]
        for c in fr.closures:
            self.closures[c]["env"] = env or {}
        for t, n in zip(self.trystack, ncaught):
            new = t["caught"][n:]
            if new and alts:
                g = [x for x in self.gstack[t["depth"]:]]
                cond = tm.or_(*[self.strip(x[0], tm.and_(*g, outer)) for x in new])
                st.pc = tm.and_(st.pc, tm.not_(cond))
        self.where = where
        return res

    def strip(self, g, assumed):
        have = set(assumed.a[0]) if assumed.op == "and" else {assumed}
        return tm.and_(*[x for x in (g.a[0] if g.op == "and" else (g,)) if x not in have])

    def construct(self, cls, args, kws, st):
        if any(b in ("Exception", "ValueError", "RuntimeError", "KeyError", "TypeError") for c in self.prog.mro(cls) for b in
               [getattr(x, "id", None) for x in c.node.bases]):
            return mk("call", mk("clsref", cls.qual), tuple(self.deref(a, st) for a in args), ())
        n = self.ncls.get(cls.qual, 0)
        self.ncls[cls.qual] = n + 1
        obj = mk("new", cls.qual, n, tuple(mk("iter", L) for L in self.loops))
        if cls.dataclass:
            fields = [f for c in reversed(self.prog.mro(cls)) for f in c.fields]
            vals = dict(zip([f[0] for f in fields], args))
            vals.update(dict(kws))
            for f, _, d in fields:
                v = vals.get(f)
                if v is None and "**" in vals:
                    v = tm.sub(vals["**"], const(f))
                if v is None and d is not None:
                    v = self.eval(d, st, Frame(0, None, cls.module, cls))
                st.d[("a", obj, f)] = v if v is not None else UNDEF
            pi = self.prog.method(cls, "__post_init__")
            if pi:
                self.invoke(pi, [], [], st, selfv=obj)
            return obj
        init = self.prog.method(cls, "__init__")
        if init:
            self.invoke(init, args, kws, st, selfv=obj)
        return obj

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.steps += 1
            if self.steps > 400000:
                raise AnalysisError("step budget exceeded")
            if fr.fn is not None or hasattr(s, "lineno"):
                self.where = f"{fr.module.rel}:{s.lineno}"
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.note(f"statement {type(s).__name__} not modelled")
                continue
            m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st, fr):
        pass

    s_ImportFrom = s_Import

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, fr)
        self.eval(s.value, st, fr)

    def do_yield(self, e, st, fr):
        if isinstance(e, ast.YieldFrom):
            it = self.eval(e.value, st, fr)
            self.iterate(it, st, fr, lambda v, s: fr.gen(v, s))
            return
        v = self.eval(e.value, st, fr) if e.value else NONE
        if fr.gen is None:
            self.note("yield outside a followed generator")
            return
        fr.gen(v, st)

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        if not st.dead:
            fr.exits.append((st.pc, v, st.d))
            st.d = dict(st.d)
            st.dead = "ret"

    def s_Raise(self, s, st, fr):
        v = self.eval(s.exc, st, fr) if s.exc is not None else mk("ext", "reraise")
        v = self.deref(v, st)
        f = v.a[0] if v.op == "call" else v
        self.do_raise(f, v, st)

    def do_raise(self, cls, v, st):
        name = cls.a[0] if cls.op in ("ext", "clsref") else "?"
        for t in reversed(self.trystack):
            if self.catches(t["names"], name):
                g = tm.and_(*self.gstack[t["depth"]:], st.pc)
                ls = self.loops[t["nloops"]:]
                for L in reversed(ls):
                    g = self.exists(L, g)
                t["caught"].append((g, st.d))
                st.dead = "ret"
                return
        self.emit(st, "raise", cls, v)
        self.valid.append((tuple(self.loops), tm.and_(*self.gstack, st.pc)))
        st.dead = "raise"

    def may_raise(self, fn, call, st):
        """a call that is not followed raises what its function raises, in cases that are not known"""
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                name = ast.unparse(x).rpartition(".")[2]
                for t in reversed(self.trystack):
                    if self.catches(t["names"], name):
                        c = mk("exc", name, call)
                        g = tm.and_(*self.gstack[t["depth"]:], st.pc, c)
                        for L in reversed(self.loops[t["nloops"]:]):
                            g = self.exists(L, g)
                        t["caught"].append((g, dict(st.d)))
                        st.pc = tm.and_(st.pc, tm.not_(c))
                        break

    def catches(self, names, name):
        short = name.rpartition(".")[2]
        if not names or "Exception" in names or "BaseException" in names or short in names:
            return True
        c = self.prog.cls(name)
        if c is not None:
            for k in self.prog.mro(c):
                if k.name in names or any(getattr(b, "id", None) in names for b in k.node.bases):
                    return True
        return False

    def s_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        if c is TRUE:
            return
        s2 = st.copy()
        s2.pc = tm.and_(st.pc, tm.not_(c))
        self.emit(s2, "raise", mk("ext", "builtins.AssertionError"), NONE)
        if c is not FALSE:
            self.valid.append((tuple(self.loops), tm.and_(*self.gstack, st.pc, tm.not_(c))))

    def s_If(self, s, st, fr):
        if self.if_missing(s, st, fr):
            return
        self.branch_on(self.truth(self.eval(s.test, st, fr), st), s, st, fr)

    def branch_on(self, c, s, st, fr):
        full = tm.and_(*self.gstack, st.pc)
        if c is not TRUE and c is not FALSE:
            if tm.and_(full, c) is FALSE:
                c = FALSE
            elif tm.and_(full, tm.not_(c)) is FALSE:
                c = TRUE
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = tm.and_(st.pc, c), tm.and_(st.pc, tm.not_(c))
        self.block(s.body, s1, fr)
        self.block(s.orelse, s2, fr)
        self.join(st, c, s1, s2)

    def if_missing(self, s, st, fr):
        """if k not in d: d[k] = {} on a dictionary of the function's own is d.setdefault(k, {})"""
        t = s.test
        if s.orelse or len(s.body) != 1:
            return False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and isinstance(t.operand.ops[0], ast.In):
            t = t.operand
        elif not (isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn)):
            return False
        b = s.body[0]
        if len(t.ops) != 1 or not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript)):
            return False
        x, d = b.targets[0], t.comparators[0]
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "keys" and not d.args:
            d = d.func.value
        if not isinstance(d, ast.Name) or ast.unparse(x.value) != d.id or ast.unparse(x.slice) != ast.unparse(t.left):
            return False
        if not (isinstance(b.value, (ast.Constant, ast.Dict, ast.List)) or isinstance(b.value, ast.Call) and not b.value.args and ast.unparse(b.value.func) in ("dict", "list")):
            return False
        r = st.d.get(("v", fr.fid, d.id))
        if r is None or r.op != "ref" or self.kind[r.a[0]] != "dict" or r.a[0] in self.label:
            return False
        k = self.eval(t.left, st, fr)
        c = self.contains(k, r, st)
        if c is TRUE or c is FALSE:
            return False
        self.container_method(r, "setdefault", [k, self.eval(b.value, st, fr)], [], st)
        return True

    def s_Match(self, s, st, fr):
        # chain of equality tests
        subj = self.eval(s.subject, st, fr)
        self.match_cases(s.cases, subj, st, fr)

    def match_cases(self, cases, subj, st, fr):
        if not cases:
            return
        c = cases[0]
        p = c.pattern

        def cond(p):
            if isinstance(p, ast.MatchValue):
                return tm.eq(self.deref(subj, st), self.eval(p.value, st, fr))
            if isinstance(p, ast.MatchSingleton):
                return tm.is_(self.deref(subj, st), const(p.value))
            if isinstance(p, ast.MatchOr):
                return tm.or_(*[cond(x) for x in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    st.d[("v", fr.fid, p.name)] = subj
                return TRUE
            self.note("match pattern not modelled")
            return mk("opaque", "match", self.where)
        g = cond(p)
        if c.guard is not None:
            g = tm.and_(g, self.truth(self.eval(c.guard, st, fr), st))
        if g is TRUE:
            return self.block(c.body, st, fr)
        if g is FALSE:
            return self.match_cases(cases[1:], subj, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = tm.and_(st.pc, g), tm.and_(st.pc, tm.not_(g))
        self.block(c.body, s1, fr)
        self.match_cases(cases[1:], subj, s2, fr)
        self.join(st, g, s1, s2)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("Exception")
            else:
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    d = ast.unparse(t)
                    names.append(d.rpartition(".")[2])
        if not s.handlers:
            self.block(s.body, st, fr)
            self.block(s.finalbody, st, fr)
            return
        own = all(any(n in m.classes for m in self.prog.modules.values()) for n in names)
        tag = ",".join(sorted(names))
        why = self.exc_cond(s, names, st, fr)
        if why is FALSE:
            own = True
        elif why is TRUE and len(s.handlers) == 1 and not s.finalbody:
            self.block(s.handlers[0].body, st, fr)
            return
        elif why is not None and len(s.handlers) == 1 and not s.finalbody:
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = tm.and_(st.pc, why), tm.and_(st.pc, tm.not_(why))
            self.block(s.handlers[0].body, s1, fr)
            self.block(s.body + s.orelse, s2, fr)
            self.join(st, why, s1, s2)
            return
        exc = FALSE if own else mk("exc", tag, sum(1 for e in self.events if e.kind == "try"))
        if not own:
            self.emit(st, "try", const(tag))
        rec = {"names": names, "depth": len(self.gstack), "caught": [], "nloops": len(self.loops)}
        pc0 = st.pc
        s1 = st.copy()
        s1.pc = tm.and_(st.pc, tm.not_(exc))
        self.gstack.append(TRUE)
        rec["depth"] = len(self.gstack)
        self.trystack.append(rec)
        pcb = s1.pc
        s1.pc = TRUE
        self.gstack.append(pcb)
        rec["depth"] = len(self.gstack)
        self.block(s.body, s1, fr)
        self.trystack.pop()
        self.gstack.pop()
        self.gstack.pop()
        if not s1.dead:
            s1.pc = tm.and_(pcb, s1.pc)
            if s.orelse:
                self.block(s.orelse, s1, fr)
        # exits recorded inside were relative to pcb
        caught = tm.or_(*[g for g, _ in rec["caught"]])
        cond = tm.or_(exc, caught)
        if cond is FALSE:
            st.set(s1)
            if not st.dead:
                st.pc = pc0
        else:
            s2 = st.copy()
            if rec["caught"] and exc is FALSE:
                s2.d = dict(rec["caught"][-1][1])
                for g, d in reversed(rec["caught"][:-1]):
                    s2.d = self.merge(g, d, s2.d)
            s2.pc = tm.and_(pc0, cond)
            s2.dead = None
            if len(s.handlers) == 1:
                h = s.handlers[0]
                if h.name:
                    s2.d[("v", fr.fid, h.name)] = mk("excval", tag)
                self.block(h.body, s2, fr)
            else:
                for i, h in enumerate(s.handlers):
                    s3 = s2.copy()
                    hc = mk("exc", tag, "h", i)
                    s3.pc = tm.and_(s2.pc, hc)
                    if h.name:
                        s3.d[("v", fr.fid, h.name)] = mk("excval", tag)
                    self.block(h.body, s3, fr)
                    s4 = s2.copy()
                    s4.pc = tm.and_(s2.pc, tm.not_(hc))
                    self.join(s2, hc, s3, s4)
            d1 = s1.dead
            if s1.dead and s2.dead:
                st.d = s1.d
                st.dead = "ret" if "ret" in (s1.dead, s2.dead) else "raise"
            elif s1.dead:
                st.d = s2.d
                st.pc = pc0 if d1 == "raise" else s2.pc
            elif s2.dead:
                st.d = s1.d
                st.pc = pc0 if s2.dead == "raise" else s1.pc
            else:
                st.d = self.merge(cond, s2.d, s1.d)
                st.pc = pc0
        if s.finalbody and not st.dead:
            self.block(s.finalbody, st, fr)

    def exc_cond(self, s, names, st, fr):
        """when does the body of a try raise the one exception it guards against (None: not known)

        Statements that cannot raise are passed over; a call of a function of the program is looked into."""
        if len(names) != 1:
            return None
        return self.body_exc(s.body, names, st, fr)

    def body_exc(self, body, names, st, fr, depth=0):
        body = [b for b in body if not (isinstance(b, (ast.Pass, ast.FunctionDef, ast.Global, ast.Nonlocal)) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        st = st.copy()
        while len(body) > 1:
            # a simple assignment before or after the one statement that matters
            for i in (0, -1):
                b = body[i]
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, (ast.Constant, ast.Name)):
                    if i == 0:
                        st.d[("v", fr.fid, b.targets[0].id)] = self.eval(b.value, st, fr)
                    body = body[1:] if i == 0 else body[:-1]
                    break
                if i == -1 and isinstance(b, ast.Return) and (b.value is None or isinstance(b.value, (ast.Constant, ast.Name))):
                    body = body[:-1]
                    break
            else:
                return None
        if len(body) != 1:
            return None
        b = body[0]
        v = b.value if isinstance(b, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(v, ast.Call) and depth < 3 and not any(isinstance(x, ast.Starred) for x in v.args) and all(k.arg for k in v.keywords) \
                and all(isinstance(x, (ast.Name, ast.Constant)) for x in v.args + [k.value for k in v.keywords]):
            fn, selfv = None, None
            if isinstance(v.func, ast.Name):
                f = self.eval(v.func, st, fr)
                if f.op == "fnref":
                    fn = self.prog.func(f.a[0])
            elif isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
                selfv = self.eval(v.func.value, st, fr)
                c = self.typ(selfv)
                if c is not None:
                    fn = self.prog.method(c, v.func.attr)
            if fn is not None and not fn.is_gen and not fn.decs and fn.qual not in self.boundary:
                args, kws = [self.eval(x, st, fr) for x in v.args], [(k.arg, self.eval(k.value, st, fr)) for k in v.keywords]
                try:
                    bound = self.bind_args(fn, args, kws, st, selfv)
                except Exception:
                    return None
                self.nfid += 1
                f2 = Frame(self.nfid, fn, fn.module, fn.cls)
                for n, x in bound.items():
                    st.d[("v", f2.fid, n)] = x
                return self.body_exc(fn.node.body, names, st, f2, depth + 1)
        if names == ["TypeError"] and isinstance(b, ast.Expr) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and v.func.attr == "extend" and len(v.args) == 1 and isinstance(v.args[0], (ast.Name, ast.List, ast.Tuple)):
            x = self.eval(v.args[0], st, fr)
            if x.op in ("tuple", "listb", "keys", "values", "items", "gen") or x.op == "ref" and self.kind[x.a[0]] in ("list", "dict", "set"):
                return FALSE
            c = self.typ(x)
            if c is not None and not self.prog.method(c, "__iter__") and not self.prog.method(c, "__getitem__"):
                return TRUE
        if names == ["ValueError"] and isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and isinstance(v.func, (ast.Name, ast.Attribute)):
            f = self.eval(v.func, st, fr) if isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name) else NONE
            if f.op == "ext" and f.a[0] in ("numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "builtins.min", "builtins.max"):
                n = len(self.events)
                x = self.deref_seq(self.eval(v.args[0], st, fr), st)
                if len(self.events) == n:
                    return tm.le0(tm.length(x))
        return None

    def s_FunctionDef(self, s, st, fr):
        f = Func(s, fr.module, None, s.name)
        st.d[("v", fr.fid, s.name)] = self.mkclosure(f, fr)

    def mkclosure(self, f, fr):
        self.nclo += 1
        c = mk("closure", f.name if not isinstance(f.node, ast.Lambda) else "lambda", self.nclo)
        self.closures[c] = {"fn": f, "frame": fr, "env": None}
        fr.closures.append(c)
        return c

    def s_ClassDef(self, s, st, fr):
        self.note("local class not modelled")

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                k = self.deref(self.eval(t.slice, st, fr), st)
                self.emit(st, "del", self.deref(b, st), k)
                if b.op == "ref":
                    st.d[("h", b.a[0])] = mk("call", mk("ext", "del"), (self.content(b, st), k), ())
            elif isinstance(t, ast.Name):
                st.d.pop(("v", fr.fid, t.id), None)

    def s_Assign(self, s, st, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value, st, fr)
            return
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr)
            v = self.eval(s.value, st, fr)
            r = self.aug(cur, op, v, st)
            if r is not None:
                st.d[("v", fr.fid, t.id)] = r
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            cur = self.getattr(b, t.attr, st, fr)
            v = self.eval(s.value, st, fr)
            r = self.aug(cur, op, v, st)
            if r is not None:
                self.setattr(b, t.attr, r, st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            k = tm.norm_index(self.deref(self.eval_index(t.slice, st, fr), st))
            v = self.eval(s.value, st, fr)
            self.substore(t.value, b, k, v, st, fr, op)

    def aug(self, cur, op, v, st):
        """in-place operator; None when an object was changed in place"""
        if cur.op == "ref":
            k = self.kind[cur.a[0]]
            c = self.content(cur, st)
            if k == "list" and op == "Add":
                self.list_extend(cur, v, st)
                return None
            if k == "arr":
                st.d[("h", cur.a[0])] = self.binop(op, self.deref(c, st), self.deref(v, st), st)
                return None
            if k == "dict" and op == "BitOr":
                self.dict_update(cur, v, st)
                return None
        return self.binop(op, cur, v, st)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.d[("v", fr.fid, t.id)] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            self.setattr(b, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            k = tm.norm_index(self.deref(self.eval_index(t.slice, st, fr), st))
            self.substore(t.value, b, k, v, st, fr, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.op == "ref" and self.kind[v.a[0]] == "list":
                v = self.content(v, st)
            it = tm.seq_items(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star and it is not None:
                i = star[0]
                n = len(t.elts) - 1
                parts = it[:i] + [tm.lst(it[i:len(it) - (n - i)])] + it[len(it) - (n - i):]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, st, fr)
                return
            if it is None and not star and v.op in ("root", "attr", "sub") and not self.trystack:
                # refused by Python itself: not a refusal of the code's own, but as good as one
                s2 = st.copy()
                s2.pc = tm.and_(st.pc, tm.not_(tm.eq(tm.length(v) if hasattr(tm, "length") else mk("len", v), num(len(t.elts)))))
                if tm.and_(*self.gstack, s2.pc) is not FALSE:
                    self.emit(s2, "implied", mk("ext", "builtins.ValueError"), v)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.note("starred assignment not modelled")
                    continue
                self.assign(x, it[i] if it is not None and i < len(it) else self.getsub(v, num(i), st), st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def describe(self, r, st):
        """what a named dictionary holds to begin with, and changes of it as a whole, are effects of their own"""
        if self.kind[r.a[0]] == "dict":
            self.entries(self.root(r), self.content(r, st), (r,), st)

    def entries(self, root, c, seen, st):
        if c.op != "dictb":
            self.emit(st, "dict", root, self.deref(c, st, seen))
            return
        for e in c.a[0]:
            if e.op != "ent" or e.a[2].a[0][0].op == "path":
                self.emit(st, "dict", root, self.deref(mk("dictb", (e,)), st, seen))
                continue
            self.loops.extend(e.a[0])
            self.inst.extend(range(self.ninst + 1, self.ninst + 1 + len(e.a[0])))
            self.ninst += len(e.a[0])
            self.gstack.append(e.a[1])
            k, v = e.a[2].a[0]
            self.emit(st, "sub", root, self.deref(k, st, seen), self.deref(v, st, seen), "")
            self.gstack.pop()
            if e.a[0]:
                del self.loops[-len(e.a[0]):], self.inst[-len(e.a[0]):]

    def setattr(self, b, name, v, st, fr):
        if b.op == "ite" and b.a[1].op != "ref":
            self.note(f"store to {name} of a conditional object")
        c = self.typ(b)
        if v.op == "ref" and v.a[0] not in self.label:
            if b.op == "new":
                self.label[v.a[0]] = f"{b.a[0].rpartition('.')[2]}{'#' + str(b.a[1]) if b.a[1] else ''}.{name}"
            elif b.op == "sym":
                self.label[v.a[0]] = f"{c.name if c else b.a[0]}.{name}"
            else:
                self.label[v.a[0]] = f"{c.name if c else '?'}.{name}"
            self.describe(v, st)
        if c is not None and any("setter" in f.decs and f.name == name for k in self.prog.mro(c) for f in k.methods.values()):
            self.note(f"property setter {name}")
        b2 = self.deref(b, st)
        old = st.d.get(("a", b2, name))
        if v.op == "ref" and self.kind[v.a[0]] == "dict" and (old is not v and old is not None and old.op == "ref" and self.kind[old.a[0]] == "dict" or old is None and b.op == "sym"):
            self.rebound.add((b2 if b.op != "sym" else self.label.get(v.a[0], ""), name))
        self.emit(st, "attr", b2, name, self.deref(v, st))
        st.d[("a", b2, name)] = v

    def substore(self, base_expr, b, k, v, st, fr, op):
        where = self.where
        if b.op == "ite":
            self.substore_either(base_expr, b, k, v, st, fr, op)
            return
        if b.op not in ("ref", "sub", "attr", "sym", "root", "new", "ite"):
            # a plain value held by a variable or attribute: give it an identity first
            kind = "dict" if b.op == "dictb" else "list" if b.op in ("listb",) else "arr"
            r = self.newref(st, kind, b)
            if base_expr is not None:
                if isinstance(base_expr, ast.Name):
                    self.replace_value(st, b, r, ("v", fr.fid, base_expr.id))
                elif isinstance(base_expr, ast.Attribute):
                    ob = self.eval(base_expr.value, st, fr)
                    self.replace_value(st, b, r, ("a", self.deref(ob, st), base_expr.attr))
                    if ob.op == "new":
                        self.label[r.a[0]] = f"{ob.a[0].rpartition('.')[2]}{'#' + str(ob.a[1]) if ob.a[1] else ''}.{base_expr.attr}"
                        self.describe(r, st)
            b = r
        c = self.typ(b)
        if c is not None and op is None:
            m = self.prog.method(c, "__setitem__")
            if m:
                self.invoke(m, [k, v], [], st, selfv=b)
                return
        if c is not None:
            m = self.prog.method(c, "__getitem__")
            if m and op is not None:
                cur = self.invoke(m, [k], [], st, selfv=b)
                r = self.aug(cur, op, v, st)
                if r is not None:
                    m2 = self.prog.method(c, "__setitem__")
                    if m2:
                        self.invoke(m2, [k, r], [], st, selfv=b)
                return
        if v.op != "ref" and not (b.op == "ref" and self.kind[b.a[0]] == "dict"):
            op, v = self.as_update(b, k, v, op, st)
        dv = self.deref(v, st)
        inside = None
        if v.op == "ref" and self.kind[v.a[0]] == "dict" and v.a[0] not in self.label and op is None and (b.op != "ref" or b.a[0] in self.label):
            # a dictionary inside another one is named after it
            x = b
            while x.op == "sub":
                x = x.a[0]
            self.label[v.a[0]] = (self.label.get(x.a[0], "") if x.op == "ref" else "." + str(x.a[-1])) + "[]"
            inside = self.content(v, st)
            if inside.op == "dictb":
                dv = mk("dictb", ())
        if b.op == "ref":
            i = b.a[0]
            kind = self.kind[i]
            c0 = self.content(b, st)
            if kind == "dict":
                if op is not None:
                    cur = self.getsub(b, k, st)
                    r = self.aug(cur, op, v, st)
                    if r is None:
                        return
                    v, dv = r, self.deref(r, st)
                self.emit(st, "sub", self.root(b), k, dv, "")
                if inside is not None and inside.op == "dictb":
                    self.entries(self.root(v), inside, (v,), st)
                st.d[("h", i)] = self.dict_put(c0, k, v)
                return
            self.emit(st, "sub", self.root(b), k, dv, op or "")
            if kind == "list" and op is None and k.op == "num" and tm.seq_items(c0) is not None:
                it = tm.seq_items(c0)
                j = int(k.a[0])
                if -len(it) <= j < len(it):
                    it[j] = v
                    st.d[("h", i)] = tm.lst(it)
                    return
            if k in (FULL, ELL) and kind == "arr":
                st.d[("h", i)] = dv if op is None else self.binop(op, self.deref(c0, st), dv, st)
                return
            w = mk("wr", (), TRUE, k, dv, op or "")
            c0 = self.deref(c0, st)
            if c0.op == "writes":
                st.d[("h", i)] = mk("writes", c0.a[0], c0.a[1] + (w,))
            else:
                st.d[("h", i)] = mk("writes", c0, (w,))
            return
        # location outside the analysed allocations
        root = b
        path = [k]
        while root.op == "sub":
            path.append(root.a[1])
            root = root.a[0]
        b2 = self.deref(b, st)
        if op is not None:
            w = st.d.get(("w", b2))
            if w is not None and w.a[0][0] is k and not (k.op == "slice"):
                r = self.aug(w.a[0][1], op, v, st)
                if r is None:
                    return
        self.emit(st, "sub", b2, k, dv, op or "")
        if inside is not None and inside.op == "dictb":
            self.entries(self.root(v), inside, (v,), st)
        if root.op == "ref" and self.kind[root.a[0]] == "dict" and op is None and not any(p.op in ("slice",) for p in path):
            c0 = self.content(root, st)
            st.d[("h", root.a[0])] = self.dict_put(c0, mk("path", tuple(reversed(path))), v)
        r2 = self.rootof(b2)
        for kk in [x for x in st.d if x[0] == "w" and self.rootof(x[1]) is r2]:
            del st.d[kk]
        if op is None:
            st.d[("w", b2)] = tm.tup([k, v])

    def as_update(self, b, k, v, op, st):
        """x[k] = x[k] + v and x[k] = x[k] * v are x[k] += v and x[k] *= v; x[k] -= v is x[k] += -v"""
        if op == "Sub":
            return "Add", tm.neg(self.deref(v, st))
        if op == "Div":
            return "Mult", tm.inv(self.deref(v, st))
        x = self.deref(v, st)
        if op is not None or x.op != "poly":
            return op, v
        n0 = len(self.unknown)
        cur = self.deref(self.getsub(b, k, st), st)
        del self.unknown[n0:]
        if cur.op in ("poly", "num", "const", "ite") or not tm.contains(x, cur):
            return op, v
        d = tm._pd(x)
        one = ((cur, 1),)
        if d.get(one) == 1 and len(d) > 1:
            r = tm.minus(x, cur)
            if not tm.contains(r, cur):
                return "Add", r
        if all(any(at is cur and e == 1 for at, e in m) for m in d):
            r = tm.mul(x, tm.inv(cur))
            if not tm.contains(r, cur):
                return "Mult", r
        return op, v

    def substore_either(self, base_expr, b, k, v, st, fr, op):
        """the container is one of two: the one that is meant is written"""
        def plain(t):
            return t.op not in ("ref", "sub", "attr", "sym", "root", "new", "ite")

        def leaves(t):
            return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "ite" else [t]

        def own(t):
            if t.op == "ite":
                return tm.ite(t.a[0], own(t.a[1]), own(t.a[2]))
            if plain(t):
                return self.newref(st, "dict" if t.op == "dictb" else "list" if t.op == "listb" else "arr", t)
            return t
        ls = leaves(b)
        if any(plain(x) for x in ls):
            if isinstance(base_expr, ast.Name):
                b2 = self.newref(st, "arr", b) if all(plain(x) for x in ls) else own(b)
                self.replace_value(st, b, b2, ("v", fr.fid, base_expr.id))
                b = b2
            elif base_expr is not None and isinstance(base_expr, ast.Attribute):
                ob = self.deref(self.eval(base_expr.value, st, fr), st)
                b2 = self.newref(st, "arr", b) if all(plain(x) for x in ls) else own(b)
                self.replace_value(st, b, b2, ("a", ob, base_expr.attr))
                b = b2
            else:
                self.note("store to a conditional container")
                return
        if b.op != "ite":
            self.substore(None, b, k, v, st, fr, op)
            return
        c = b.a[0]
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = tm.and_(st.pc, c), tm.and_(st.pc, tm.not_(c))
        self.substore(None, b.a[1], k, v, s1, fr, op)
        self.substore(None, b.a[2], k, v, s2, fr, op)
        self.join(st, c, s1, s2)

    def rootof(self, t):
        while t.op == "sub":
            t = t.a[0]
        return t

    def replace_value(self, st, old, new, key):
        st.d[key] = new

    def dict_put(self, c, k, v):
        e = mk("ent", (), TRUE, tm.tup([k, v]))
        if c.op != "dictb":
            c = mk("dictb", (mk("base", c),))
        out = []
        hit = False
        for x in c.a[0]:
            if x.op == "ent" and x.a[2].a[0][0] is k and not x.a[0]:
                out.append(e)
                hit = True
            else:
                out.append(x)
        if not hit:
            out.append(e)
        return mk("dictb", tuple(out))

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        ctl = Ctl()

        def body(v, s1):
            self.where = f"{fr.module.rel}:{s.lineno}"
            self.assign(s.target, v, s1, fr)
            fr.ctl.append(ctl)
            # the body runs in fr even when a generator drives the loop
            self.frames.append(fr)
            try:
                self.block(s.body, s1, fr)
            finally:
                self.frames.pop()
                fr.ctl.pop()
        self.iterate(it, st, fr, body, ctl)
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)

    def s_Continue(self, s, st, fr):
        fr.ctl[-1].cont.append((tm.and_(*self.gstack[self.ctl_depth(fr):], st.pc), st.d))
        st.d = dict(st.d)
        st.dead = "ret"

    def s_Break(self, s, st, fr):
        fr.ctl[-1].brk.append((tm.and_(*self.gstack[self.ctl_depth(fr):], st.pc), st.d))
        st.d = dict(st.d)
        st.dead = "ret"

    def ctl_depth(self, fr):
        return getattr(fr.ctl[-1], "depth", len(self.gstack))

    def collect(self, it, st):
        """the list of elements of an iterable term"""
        r = self.newref(st, "list", tm.listb(()))

        def body(v, s1):
            self.list_append(r, v, s1)
        self.iterate(it, st, self.frames[-1] if self.frames else Frame(0, None, None, None), body)
        return self.content(r, st)

    def elems(self, it, st):
        """(trip, elem(i)) of an iterable of unknown length, or None"""
        o = it.op
        if o == "range":
            lo, hi, stp = it.a
            if stp is ONE:
                tr = tm.minus(hi, lo)
            elif stp.op == "num" and stp.a[0] == -1:
                tr = tm.minus(lo, hi)
            elif stp.op == "num" and stp.a[0] < 0:
                tr = tm.fdiv(tm.add(lo, tm.neg(hi), tm.neg(stp), num(-1)), tm.neg(stp))
            else:
                tr = tm.fdiv(tm.add(hi, tm.neg(lo), stp, num(-1)), stp)
            return tr, lambda i: tm.add(lo, tm.mul(i, stp))
        if o == "enum":
            tr, f = self.elems(it.a[0], st)
            return tr, lambda i: tm.tup([tm.add(it.a[1], i), f(i)])
        if o == "zip":
            fs = [self.elems(x, st) for x in it.a[0]]
            trs = [f[0] for f in fs]
            # sequences walked together have one length
            tr = trs[0]
            self.ZIPPED.update(frozenset((tr, x)) for x in trs if x is not tr)
            return tr, lambda i: tm.tup([f[1](i) for f in fs])
        if o == "items":
            d = it.a[0]
            ks = mk("keys", d)
            return mk("len", d), lambda i: tm.tup([tm.sub(ks, i), tm.sub(d, tm.sub(ks, i))])
        if o == "values":
            d = it.a[0]
            ks = mk("keys", d)
            return mk("len", d), lambda i: tm.sub(d, tm.sub(ks, i))
        if o == "keys":
            return mk("len", it.a[0]), lambda i: tm.sub(it, i)
        if o == "reversed":
            tr, f = self.elems(it.a[0], st)
            return tr, lambda i: f(tm.minus(tm.minus(tr, ONE), i))
        if o == "root" or (o == "attr" and it.a[1] in ("arrays", "diagnostics", "signals", "paths", "path_type")):
            ks = mk("keys", it)
            return mk("len", it), lambda i: tm.sub(ks, i)
        if o == "ref":
            return self.elems(self.deref(it, st), st)
        n = tm.length(it)
        return n, lambda i: tm.sub(it, i)

    def iterate(self, it, st, fr, body, ctl=None):
        """runs body(elem, state) for each element of it"""
        ctl = ctl or Ctl()
        if it.op == "ref":
            k = self.kind[it.a[0]]
            c = self.content(it, st)
            if k in ("list", "set") or (k == "dict" and not self.is_open(it, st)):
                if k == "dict":
                    ents = c.a[0] if c.op == "dictb" else None
                    it = tm.listb([mk("ent", e.a[0], e.a[1], e.a[2].a[0][0]) for e in ents]) if ents is not None and all(e.op == "ent" for e in ents) else self.root(it)
                else:
                    it = c
            elif k == "dict":
                it = self.root(it)
            else:
                it = self.deref(it, st)
        if it.op in ("items", "values", "keys") and it.a[0].op == "ref":
            r = it.a[0]
            c = self.content(r, st)
            if not self.is_open(r, st) and c.op == "dictb" and all(e.op == "ent" for e in c.a[0]):
                sel = {"items": lambda kv: kv, "values": lambda kv: kv.a[0][1], "keys": lambda kv: kv.a[0][0]}[it.op]
                it = tm.listb([mk("ent", e.a[0], e.a[1], sel(e.a[2])) for e in c.a[0]])
            else:
                it = mk(it.op, self.root(r))
        if it.op in ("items", "values", "keys") and it.a[0].op == "dictb" and all(e.op == "ent" for e in it.a[0].a[0]):
            sel = {"items": lambda kv: kv, "values": lambda kv: kv.a[0][1], "keys": lambda kv: kv.a[0][0]}[it.op]
            it = tm.listb([mk("ent", e.a[0], e.a[1], sel(e.a[2])) for e in it.a[0].a[0]])
        if it.op == "dictb" and all(e.op == "ent" for e in it.a[0]):
            it = tm.listb([mk("ent", e.a[0], e.a[1], e.a[2].a[0][0]) for e in it.a[0]])
        cobj = self.typ(it)
        if cobj is not None:
            m = self.prog.method(cobj, "__iter__")
            if m:
                self.frames_guard(st)
                it = self.invoke(m, [], [], st, selfv=it)
        if it.op == "call" and it.a[0].op == "ext" and it.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(it.a[1]) == 1:
            it = it.a[1][0]
        if it.op == "alloc":
            it = it.a[0].a[1][0] if it.a[0].a[1] else it
        if it.op == "gen":
            fn, b, clo = self.gens[it]

            if fn == "genexp":
                node, gfr = b, clo
                self.genexp(node, st, gfr, body)
                return

            def cb(v, s1):
                body(v, s1)
                # continue inside the body ends this element only
                if ctl.cont:
                    self.merge_cont(ctl, s1)
            self.drive_gen(fn, b, clo, st, cb, ctl, fr)
            return
        if it.op == "enum" and it.a[0].op == "zip":
            it = mk("enum", self.norm_zip(it.a[0], st), it.a[1])
        if it.op == "enum" and self.nested(it.a[0], st):
            # the elements come from nested loops or under conditions: only their order is numbered
            tag, start = mk("opaque", "ordinal", self.where), it.a[1]
            self.iterate(it.a[0], st, fr, lambda v, s1: body(tm.tup([tm.add(start, tag), v]), s1), ctl)
            return
        if it.op == "enum" and tm.seq_items(self.deref_seq(it.a[0], st)) is not None:
            xs = tm.seq_items(self.deref_seq(it.a[0], st))
            it = tm.lst([tm.tup([tm.add(it.a[1], num(i)), x]) for i, x in enumerate(xs)])
        elif it.op == "enum" and it.a[0].op == "ref":
            it = mk("enum", self.deref_seq(it.a[0], st), it.a[1])
        if it.op == "zip":
            it = self.norm_zip(it, st)
        if it.op == "range" and all(x.op == "num" for x in it.a) and it.a[2].a[0]:
            vals = list(range(*[int(x.a[0]) for x in it.a]))
            if len(vals) <= MAXUNROLL:
                it = tm.lst([num(v) for v in vals])
        items = tm.seq_items(it)
        if items is not None and len(items) <= 4 * MAXUNROLL:
            left = st
            for v in items:
                if left.dead:
                    return
                ctl.depth = len(self.gstack)
                n = len(ctl.brk)
                body(v, left)
                self.merge_cont(ctl, left)
            if ctl.brk:
                self.merge_breaks(ctl, left)
            return
        if it.op == "listb":
            for e in it.a[0]:
                if st.dead:
                    return
                if e.op != "ent":
                    base = e.a[0]
                    tr, f = tm.length(base), (lambda i, base=base: tm.sub(base, i))
                    L = self.mkloop(tr)
                    self.run_loop([L], TRUE, st, lambda s1, L=L, f=f: body(f(mk("iter", L)), s1), ctl)
                elif not e.a[0]:
                    self.guarded_body(e.a[1], e.a[2], st, body, ctl)
                else:
                    ls, m = [], {}
                    for L in e.a[0]:
                        L2 = self.mkloop(tm.subst(L.a[0], m), ls) if L.a[0].op != "while" else L
                        m[mk("iter", L)] = mk("iter", L2)
                        ls.append(L2)
                    g, v = tm.subst(e.a[1], m), tm.subst(e.a[2], m)
                    self.run_loop(ls, g, st, lambda s1, v=v: body(v, s1), ctl)
            return
        if it.op == "seqcat":
            for x in it.a[0]:
                self.iterate(x, st, fr, body, ctl)
            return
        it = self.deref(it, st)
        if it.op in ("enum", "zip") or True:
            tr, f = self.elems(it, st)
        L = self.mkloop(tr)
        self.run_loop([L], TRUE, st, lambda s1: body(f(mk("iter", L)), s1), ctl)

    def norm_zip(self, it, st):
        xs = [self.deref_seq(x, st) for x in it.a[0]]
        seqs = [tm.seq_items(x) for x in xs]
        ns = [len(x) for x in seqs if x is not None]
        if ns and min(ns) <= MAXUNROLL:
            n = min(ns)
            fs = [(lambda i, s=s: s[i]) if s is not None else (lambda i, x=x: self.elems(x, st)[1](num(i))) for s, x in zip(seqs, xs)]
            return tm.lst([tm.tup([f(i) for f in fs]) for i in range(n)])
        return mk("zip", tuple(self.zipable(x) for x in xs))

    def nested(self, x, st):
        if x.op == "gen":
            n, v, u = len(self.events), len(self.valid), len(self.unknown)
            x = self.collect(x, st.copy())
            del self.events[n:], self.valid[v:], self.unknown[u:]
        elif x.op == "ref":
            x = self.deref_seq(x, st)
        if x.op == "seqcat":
            return True
        if x.op != "listb" or tm.seq_items(x) is not None:
            return False
        es = x.a[0]
        return len(es) != 1 or es[0].op == "ent" and (len(es[0].a[0]) > 1 or es[0].a[1] is not TRUE)

    def zipable(self, x):
        if x.op == "listb" and len(x.a[0]) == 1 and x.a[0][0].op == "ent" and len(x.a[0][0].a[0]) == 1 and x.a[0][0].a[1] is TRUE:
            return x
        return x

    def frames_guard(self, st):
        pass

    def deref_seq(self, x, st):
        if x.op == "gen":
            return self.collect(x, st)
        if x.op == "range" and all(y.op == "num" for y in x.a) and x.a[2].a[0]:
            vals = list(range(*[int(y.a[0]) for y in x.a]))
            if len(vals) <= MAXUNROLL:
                return tm.lst([num(v) for v in vals])
        if x.op == "ref" and self.kind[x.a[0]] == "list":
            return self.content(x, st)
        if x.op in ("items", "values", "keys") or (x.op == "ref" and self.kind[x.a[0]] == "dict"):
            d = x.a[0] if x.op != "ref" else x
            which = x.op if x.op != "ref" else "keys"
            if d.op == "ref":
                c = self.content(d, st)
                if not self.is_open(d, st) and c.op == "dictb" and all(e.op == "ent" for e in c.a[0]):
                    sel = {"items": lambda kv: kv, "values": lambda kv: kv.a[0][1], "keys": lambda kv: kv.a[0][0]}[which]
                    return tm.listb([mk("ent", e.a[0], e.a[1], sel(e.a[2])) for e in c.a[0]])
                return mk(which, self.root(d))
            return x
        return self.deref(x, st)

    def guarded_body(self, g, v, st, body, ctl):
        if g is TRUE:
            ctl.depth = len(self.gstack)
            body(v, st)
            self.merge_cont(ctl, st)
            return
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = tm.and_(st.pc, g), tm.and_(st.pc, tm.not_(g))
        ctl.depth = len(self.gstack)
        body(v, s1)
        self.merge_cont(ctl, s1)
        self.join(st, g, s1, s2)

    def drive_gen(self, fn, b, clo, st, cb, ctl, fr):
        # the consumer's control flow is relative to the element's own loops
        self.invoke(fn, b, [], st, closure=clo, gen=cb)
        if ctl.brk:
            self.merge_breaks(ctl, st)

    def merge_cont(self, ctl, st):
        if not ctl.cont:
            return
        conts, ctl.cont = ctl.cont, []
        # states that left the body early are joined back
        alts = conts + ([] if st.dead else [(st.pc, st.d)])
        pc = tm.or_(*[p for p, _ in alts])
        d = alts[-1][1]
        for p, dd in reversed(alts[:-1]):
            d = self.merge(p, dd, d)
        st.d, st.dead = dict(d), None
        st.pc = pc

    def merge_breaks(self, ctl, st):
        brks, ctl.brk = ctl.brk, []
        for p, dd in brks:
            st.d = self.merge(p, dd, st.d) if not st.dead else dict(dd)
            st.dead = None
        st.pc = tm.or_(st.pc, *[p for p, _ in brks])

    def mkloop(self, trip, extra=()):
        lvl = sum(1 for L in list(self.loops) + list(extra) if L.a[0] is trip)
        return mk("loop", trip, lvl)

    def exists(self, L, g):
        lits = g.a[0] if g.op == "and" else (g,)
        it = mk("iter", L)
        inv = [x for x in lits if not tm.contains(x, it) and not self.has_phi(x, L)]
        var = [x for x in lits if x not in inv]
        if not var:
            if L.a[0].op == "while":
                return tm.and_(*inv, mk("ran", L))
            return tm.and_(*inv, tm.not_(tm.le0(L.a[0])))
        return tm.and_(*inv, tm.exists(L, tm.and_(*var)))

    def has_phi(self, t, L):
        return tm.has(t, lambda x: x.op in ("phi", "psum", "prior") and x.a[0] is L)

    def s_While(self, s, st, fr):
        ctl = Ctl()
        self.ntmp += 1
        Ltmp = mk("loop", mk("while", mk("tmp", self.ntmp)), 0)
        box = {}

        def body(s1):
            c = self.truth(self.eval(s.test, s1, fr), s1)
            todo = list(s.body)
            if c is not FALSE:
                # "while c: x = ...; if d: break; ..." goes on as long as (c and not d)
                ev, k = len(self.events), 0
                fr.ctl.append(ctl)
                try:
                    while k < len(todo) and not s1.dead and len(self.events) == ev:
                        y = todo[k]
                        if isinstance(y, ast.If) and len(y.body) == 1 and isinstance(y.body[0], ast.Break):
                            if not self.only_within(s, todo[:k], fr):
                                break
                            c2 = self.truth(self.eval(y.test, s1, fr), s1)
                            if len(self.events) != ev:
                                todo[k] = y
                                self.branch_on(c2, y, s1, fr)
                                k += 1
                                break
                            c = tm.and_(c, tm.not_(c2))
                            todo[k:k + 1] = y.orelse
                        elif isinstance(y, ast.Assign) and all(isinstance(t, ast.Name) for t in y.targets):
                            self.block([y], s1, fr)
                            k += 1
                        else:
                            break
                finally:
                    fr.ctl.pop()
            box["cond"] = c
            if c is FALSE:
                s1.dead = "raise"
                return
            if s1.dead:
                return
            todo = todo[k:]
            fr.ctl.append(ctl)
            try:
                self.block(todo, s1, fr)
            finally:
                fr.ctl.pop()
        self.run_loop([Ltmp], TRUE, st, body, ctl, box)
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)

    def only_within(self, loop, stmts, fr):
        """the names these statements set are read inside the loop only"""
        names = {t.id for y in stmts if isinstance(y, ast.Assign) for t in y.targets}
        node = getattr(fr.fn, "node", fr.fn)
        if not isinstance(node, ast.AST):
            return not names
        inside = {id(x) for x in ast.walk(loop)}
        return not any(isinstance(x, (ast.Name, ast.Global, ast.Nonlocal)) and id(x) not in inside and (not isinstance(x, ast.Name) or x.id in names and isinstance(x.ctx, ast.Load)) for x in ast.walk(node))

    def run_loop(self, Ls, guard, st, body, ctl, box=None):
        L = Ls[-1]
        tr = L.a[0]
        if tr.op == "num" and tr.a[0] <= 0:
            return
        it = mk("iter", L)
        d0 = dict(st.d)
        phis = {}       # key -> phi term
        ev0, val0, unk0 = len(self.events), len(self.valid), len(self.unknown)
        ref0, cls0, tmp0, clo0 = self.nref, dict(self.ncls), self.ntmp, self.nclo
        fr_list = list({id(f): f for f in self.frames}.values())
        ex0 = [len(f.exits) for f in fr_list]
        ca0 = [len(t["caught"]) for t in self.trystack]
        nonint = set()
        for attempt in range(12):
            del self.events[ev0:], self.valid[val0:], self.unknown[unk0:]
            for f, n in zip(fr_list, ex0):
                del f.exits[n:]
            for t, n in zip(self.trystack, ca0):
                del t["caught"][n:]
            ctl.cont, ctl.brk = [], []
            self.nref, self.ncls, self.ntmp, self.nclo = ref0, dict(cls0), tmp0, clo0
            s1 = St(dict(d0), st.pc)
            for k, p in phis.items():
                s1.d[k] = p
            self.loops.extend(Ls)
            self.inst.extend(range(self.ninst + 1, self.ninst + 1 + len(Ls)))
            self.ninst += len(Ls)
            pin = s1.pc
            if guard is not TRUE:
                s1.pc = tm.and_(s1.pc, guard)
            self.gstack.append(s1.pc)
            s1.pc = TRUE
            ctl.depth = len(self.gstack)
            try:
                body(s1)
                self.merge_cont(ctl, s1)
            finally:
                self.gstack.pop()
                del self.loops[len(self.loops) - len(Ls):]
                del self.inst[len(self.inst) - len(Ls):]
            end = None if s1.dead else s1.d
            if guard is not TRUE and end is not None:
                s0 = dict(d0)
                for k, p in phis.items():
                    s0[k] = p
                end = self.merge(guard, end, s0)
            lost = [k for k in d0 if k[0] == "w" and any(d.get(k) is not d0[k] for d in ([end] if end is not None else [{}]) + [d for _, d in ctl.brk])]
            if lost:
                # what is known of places the body may write to does not hold in later passes
                for k in lost:
                    del d0[k]
                continue
            if end is None:
                break
            changed = []
            promoted = False
            for k, v in end.items():
                if k not in d0 or k[0] not in ("v", "a") or v is d0[k] or v.op != "ref" or d0[k].op == "ref" or k in phis:
                    continue
                c = end.get(("h", v.a[0]))
                if self.kind.get(v.a[0]) == "arr" and c is not None and c.op == "writes" and c.a[0] is d0[k] and ("h", v.a[0]) not in d0:
                    # an array held by value gets its identity before the loop instead of in its first iteration
                    lab = self.label.get(v.a[0])
                    self.nref = ref0
                    r = self.newref(st, "arr", d0[k])
                    if lab:
                        self.label[r.a[0]] = lab
                    ref0 = self.nref
                    d0[("h", r.a[0])] = d0[k]
                    d0[k] = st.d[k] = r
                    promoted = True
                    break
            if promoted:
                phis.clear()
                nonint.clear()
                continue
            for k, v in end.items():
                if k[0] == "w":
                    continue
                if k not in d0:
                    continue
                if k in phis:
                    p = phis[k]
                    if p.op == "phi" and p.a[2] and not tm.is_int(v) and k not in nonint:
                        nonint.add(k)
                        changed.append(k)
                    continue
                if v is not d0[k] and d0[k] is not UNDEF:
                    changed.append(k)
            if not changed:
                break
            for k in changed:
                phis[k] = self.mkphi(L, k, d0[k], k not in nonint)
        brks, ctl.brk = ctl.brk, []
        m, fin = self.solve(L, phis, end or {}, d0)
        newL = L
        if box is not None:
            newL, m, fin = self.finish_while(L, box, m, fin, ctl_has_exit=bool(brks))
        # rewrite what was recorded while the body was analysed
        if m:
            self.recs_subst(m)
            for e in self.events[ev0:]:
                e.loops = tuple(tm.subst(x, m) for x in e.loops)
                e.guard = tm.subst(e.guard, m)
                e.data = subst_any(e.data, m)
            self.valid[val0:] = [(tuple(tm.subst(x, m) for x in ls), tm.subst(g, m)) for ls, g in self.valid[val0:]]
        L2s = [tm.subst(x, m) for x in Ls] if m else Ls
        pc0 = st.pc
        # exits through return
        retconds = []
        for f, n in zip(fr_list, ex0):
            for i in range(n, len(f.exits)):
                pc, v, d = f.exits[i]
                # pc is relative to the loop body
                here = tm.and_(tm.subst(guard, m), tm.subst(pc, m))
                cond = self.leave(L2s, here)
                v2 = self.first(L2s, here, tm.subst(v, m)) if isinstance(v, T) else v
                dd = {}
                for k, x in d.items():
                    if k[0] == "w" or self.key_has(k, L, it) or self.key_has(k, newL, mk("iter", newL)):
                        continue
                    x2 = tm.subst(x, m)
                    dd[k] = self.first(L2s, here, x2)
                cond = tm.and_(pc0, cond)
                f.exits[i] = (cond, v2, dd)
                retconds.append(cond)
        brkalts = []
        for pc, d in brks:
            p2 = tm.subst(tm.and_(guard, pc), m)
            cond = self.leave(L2s, p2)
            dd = {k: self.first(L2s, p2, tm.subst(x, m)) for k, x in d.items() if k[0] != "w" and not self.key_has(k, newL, mk("iter", newL))}
            brkalts.append((cond, dd))
        out = dict(d0)
        if end is not None:
            for k, v in end.items():
                if k[0] == "w":
                    continue
                if k in phis:
                    continue
                if self.key_has(k, L, it):
                    continue
                if k not in d0:
                    if k[0] == "v":
                        x = tm.subst(v, m)
                        out[k] = self.last(L2s, x) if self.depends(x, L2s) else x
                    elif k[0] == "h":
                        out[k] = tm.subst(v, m)
                    else:
                        k2 = (k[0], tm.subst(k[1], m)) + k[2:]
                        x = tm.subst(v, m)
                        ran = tm.not_(tm.le0(newL.a[0])) if newL.a[0].op != "while" else TRUE
                        out[k2] = self.last(L2s, x) if self.depends(x, L2s) else x
            for k, v in fin.items():
                out[k] = self.wrap(v, L2s, TRUE, ref0) if not isinstance(v, tuple) else v
                if isinstance(v, tuple):
                    out[k] = v[1]
        st.d = out
        for cond, dd in brkalts:
            st.d = self.merge(cond, dd, st.d)
        if retconds:
            st.pc = tm.and_(pc0, *[tm.not_(self.strip(c, pc0)) for c in retconds])
        return

    def leave(self, Ls, g):
        for L in reversed(Ls):
            g = self.exists(L, g)
        return g

    def key_has(self, k, L, it):
        return k[0] == "a" and (tm.contains(k[1], it) or self.has_phi(k[1], L))

    def depends(self, x, Ls):
        its = [mk("iter", L) for L in Ls]
        return tm.has(x, lambda y: y in its or (y.op in ("phi", "psum", "prior") and y.a[0] in Ls))

    def first(self, Ls, g, v):
        if not isinstance(v, T) or not self.depends(v, Ls):
            return v
        return mk("first", tuple(Ls), g, v)

    def last(self, Ls, v):
        if len(Ls) == 1 and Ls[0].a[0].op != "while":
            L = Ls[0]
            if not self.has_phi(v, L):
                return tm.subst(v, {mk("iter", L): tm.minus(L.a[0], ONE)})
        return mk("last", tuple(Ls), v)

    def mkphi(self, L, key, init, isint):
        name = ".".join(str(x.key if isinstance(x, T) else x) for x in key)
        if key[0] == "h":
            k = self.kind.get(key[1])
            p = mk("phi", L, name, False)
            if init.op == "listb":
                return tm.listb((mk("base", p),))
            if init.op == "dictb":
                return mk("dictb", (mk("base", p),))
            if init.op == "writes" or (k == "arr"):
                return p
            return p
        return mk("phi", L, name, bool(isint and tm.is_int(init)))

    def phibase(self, p):
        if p.op == "phi":
            return p
        return p.a[-1][0].a[0]

    def solve(self, L, phis, end, d0):
        """closed forms: (substitution for use inside the loop, final values)"""
        it = mk("iter", L)
        inside, fin = {}, {}
        if not end:
            for k in phis:
                fin[k] = d0[k]
            return inside, fin
        todo = {}
        for k, p in phis.items():
            todo[k] = (self.phibase(p), p, d0[k], end.get(k, p))
        allphi = {v[0] for v in todo.values()}

        def clean(t):
            return not any(tm.contains(t, q) for q in allphi)
        single = L.a[0].op != "undef"
        progress = True
        while progress and todo:
            progress = False
            for k in list(todo):
                q, p, init, nxt = todo[k]
                nxt = tm.subst(nxt, inside)
                r = self.closed(L, k, q, p, init, nxt, clean)
                if r is not None:
                    ins, f = r
                    if ins is not None:
                        inside[q] = ins
                        allphi.discard(q)
                    fin[k] = f
                    del todo[k]
                    progress = True
        # what is left keeps a name derived from its recurrence
        if todo:
            sig = {k: "x" for k in todo}
            qs = {k: todo[k][0] for k in todo}
            for rnd in range(3):
                new = {}
                for k, (q, p, init, nxt) in todo.items():
                    n = tm.subst(tm.subst(nxt, inside), {qs[j]: mk("phivar", sig[j]) for j in todo})
                    n = tm.subst(n, {it: mk("phivar", "i")})
                    import hashlib
                    new[k] = hashlib.md5((init.key + "|" + n.key + "|" + sig[k]).encode()).hexdigest()[:10]
                sig = new
            for k, (q, p, init, nxt) in todo.items():
                named = mk("phi", L, mk("rec", sig[k]), q.a[2])
                inside[q] = named
                self.recs = getattr(self, "recs", {})
                self.recs[named] = (init, k, nxt)
            for k, (q, p, init, nxt) in todo.items():
                named = inside[q]
                self.recs[named] = (init, str(k[-1]), tm.subst(tm.subst(nxt, inside), inside))
                fv = mk("final", named)
                if nxt.op in ("listb", "dictb", "writes") and p.op in ("listb", "dictb"):
                    fv = mk(p.op, (mk("base", fv),))
                fin[k] = ("v", fv)
        inside2 = {}
        for q, v in inside.items():
            v2 = v
            for _ in range(4):
                v3 = tm.subst(v2, {a: b for a, b in inside.items() if a is not q})
                if v3 is v2:
                    break
                v2 = v3
            inside2[q] = v2
        for k in fin:
            if isinstance(fin[k], T):
                fin[k] = tm.subst(fin[k], inside2)
        return inside2, fin

    def closed(self, L, k, q, p, init, nxt, clean):
        it = mk("iter", L)
        trip = L.a[0]
        if nxt is p or nxt is q:
            return init, init
        if nxt.op in ("listb", "dictb") and p.op == nxt.op:
            es = nxt.a[0]
            if es and es[0].op == "base" and es[0].a[0] is q and not any(tm.contains(e, q) for e in es[1:]) and clean_all(es[1:], clean):
                i0 = init.a[0]
                new = [self.wrap_ent(e, [L]) for e in es[1:]]
                if nxt.op == "dictb":
                    keep = []
                    for e in i0:
                        j = [n for n in new if n.op == "ent" and e.op == "ent" and n.a[0] == e.a[0] and n.a[2].a[0][0] is e.a[2].a[0][0] and n.a[1] is TRUE]
                        if not j:
                            keep.append(e)
                    i0 = tuple(keep)
                res = mk(nxt.op, tuple(i0) + tuple(new))
                return None, ("v", res) if False else mk("wrapped", res)
            return None
        if nxt.op == "writes" and nxt.a[0] is q:
            if not any(tm.contains(e, q) for e in nxt.a[1]) and clean_all(nxt.a[1], clean):
                new = tuple(self.wrap_ent(e, [L]) for e in nxt.a[1])
                b, old = (init.a[0], init.a[1]) if init.op == "writes" else (init, ())
                return None, mk("wrapped", mk("writes", b, old + new))
            return None
        if tm.is_bool(nxt) or nxt.op == "or" or nxt.op == "and":
            tq = tm.truth(q)
            if nxt.op == "or" and tq in nxt.a[0]:
                g = tm.or_(*[x for x in nxt.a[0] if x is not tq])
                if clean(g):
                    return mk("prior", L, g, tm.truth(init)), tm.or_(tm.truth(init), self.exists(L, g))
            if nxt.op == "and" and tq in nxt.a[0]:
                g = tm.not_(tm.and_(*[x for x in nxt.a[0] if x is not tq]))
                if clean(g):
                    return tm.not_(mk("prior", L, g, tm.not_(tm.truth(init)))), tm.and_(tm.truth(init), tm.not_(self.exists(L, g)))
            return None
        if nxt.op == "ite" and (nxt.a[1] is q or nxt.a[2] is q):
            g = nxt.a[0] if nxt.a[2] is q else tm.not_(nxt.a[0])
            v = nxt.a[1] if nxt.a[2] is q else nxt.a[2]
            if clean(g) and clean(v):
                ex = self.exists(L, g)
                if tm.is_const(v) or not self.depends(v, [L]):
                    if tm.is_bool(v) and tm.is_bool(init):
                        return None
                    return mk("phi", L, mk("flag", g, v, init), tm.is_int(v) and tm.is_int(init)), tm.ite(ex, v, init)
                return mk("phi", L, mk("flag", g, v, init), tm.is_int(v) and tm.is_int(init)), tm.ite(ex, mk("last", (L,), tm.tup([g, v])), init)
            # guarded sum is handled below
        if nxt.op in ("min", "max") and q in nxt.a[0]:
            rest = [x for x in nxt.a[0] if x is not q]
            if all(clean(x) for x in rest):
                v = tm.minmax(nxt.op, rest)
                lst = tm.listb([tm.ent([L], TRUE, v)])
                r = mk("call", mk("ext", "numpy." + nxt.op), (lst,), ())
                if init.op == "ext" or (init.op == "poly" and tm.contains(init, INF)):
                    return mk("pred", L, nxt.op, v, init), mk("redinf", nxt.op, r, init)
                return mk("pred", L, nxt.op, v, init), tm.minmax(nxt.op, [init, r])
        if nxt.op not in ("tuple", "listb", "dictb", "strcat", "writes", "seqcat"):
            d = tm.minus(nxt, q)
            if not tm.contains(d, q) and clean(d):
                if not self.depends(d, [L]):
                    if trip.op == "while":
                        return tm.add(init, tm.mul(d, it)), tm.add(init, tm.mul(d, mk("trips", L)))
                    return tm.add(init, tm.mul(d, it)), tm.add(init, tm.mul(d, trip))
                return tm.add(init, mk("psum", L, d)), tm.add(init, mk("call", mk("ext", "numpy.sum"), (tm.listb([self.sum_ent(L, d)]),), ()))
        if clean(nxt) and not tm.contains(nxt, q):
            # plain reassignment in every iteration: previous iteration's value, or the initial one
            if not self.depends(nxt, [L]):
                return mk("phi", L, mk("prev", nxt, init), tm.is_int(nxt) and tm.is_int(init)), nxt
            return mk("phi", L, mk("prev", nxt, init), tm.is_int(nxt) and tm.is_int(init)), self.last([L], nxt)
        return None

    def sum_ent(self, L, d):
        if d.op == "ite" and (d.a[1] is ZERO or d.a[2] is ZERO):
            g, v = (d.a[0], d.a[1]) if d.a[2] is ZERO else (tm.not_(d.a[0]), d.a[2])
            return tm.ent([L], g, v)
        return tm.ent([L], TRUE, d)

    def wrap_ent(self, e, Ls):
        if e.op not in ("ent", "wr"):
            return e
        return mk(e.op, tuple(Ls) + tuple(e.a[0]), *e.a[1:])

    def wrap(self, v, Ls, g, ref0):
        if v.op == "wrapped":
            v = v.a[0]
            if len(Ls) > 1:
                # entries were wrapped with the innermost loop only
                def fix(e):
                    if e.op in ("ent", "wr") and e.a[0] and e.a[0][0] is Ls[-1]:
                        return mk(e.op, tuple(Ls[:-1]) + tuple(e.a[0]), *e.a[1:])
                    return e
                v = mk(v.op, *(v.a[:-1] + (tuple(fix(e) for e in v.a[-1]),)))
        return v

    def finish_while(self, L, box, m, fin, ctl_has_exit):
        cond = tm.subst(box.get("cond", TRUE), m)
        it = mk("iter", L)
        newtrip = None
        if cond.op in ("le0", "lt0"):
            p = cond.a[0]
            d = tm._pd(p)
            co = d.get(((it, 1),))
            rest = tm._fromd({k: c for k, c in d.items() if k != ((it, 1),)})
            if co and co > 0 and not tm.contains(rest, it) and not self.has_phi(rest, L):
                b = tm.scale(tm.neg(rest), 1 / co)
                if cond.op == "le0":
                    newtrip = tm.add(b, ONE) if co == 1 else tm.add(tm.fdiv(tm.neg(rest), num(co)), ONE)
                elif co == 1:
                    newtrip = b     # counts are whole numbers
        if newtrip is None:
            w = tm.subst(cond, {L: mk("sym", "@L")})
            self.recs_subst({L: mk("sym", "@L")})
            newtrip = mk("while", w)
        lvl = sum(1 for x in self.loops if x.a[0] is newtrip)
        L2 = mk("loop", newtrip, lvl)
        if newtrip.op != "while":
            m2 = {L: L2, mk("trips", L): newtrip}
        else:
            m2 = {L: L2}
        m = {k: tm.subst(v, m2) for k, v in m.items()}
        # terms recorded in the body mention both the phis and the loop itself
        m.update(m2)
        m = {**{k: v for k, v in m.items()}}
        fin = {k: (tm.subst(v, m2) if isinstance(v, T) else (v[0], tm.subst(v[1], m2))) for k, v in fin.items()}
        self.recs_subst(m2)
        return L2, m, fin

    def recs_subst(self, m):
        """what is known of the recurrences follows a rewriting of their terms"""
        rs = getattr(self, "recs", None)
        if not rs or not m:
            return
        for n in list(rs):
            n2 = tm.subst(n, m)
            if n2 is not n and n2 not in rs:
                i, k, x = rs[n]
                rs[n2] = (tm.subst(i, m), k, tm.subst(x, m))

    # ------------------------------------------------------------ containers
    def list_append(self, r, v, st):
        c = self.content(r, st)
        e = mk("ent", (), TRUE, v)
        if c.op == "listb":
            st.d[("h", r.a[0])] = tm.listb(c.a[0] + (e,))
        else:
            st.d[("h", r.a[0])] = tm.listb((mk("base", c), e))

    def list_extend(self, r, v, st):
        if v.op == "gen":
            v = self.collect(v, st)
        v = self.deref_seq(v, st)
        it = tm.seq_items(v)
        c = self.content(r, st)
        if c.op != "listb":
            c = tm.listb((mk("base", c),))
        if it is not None:
            st.d[("h", r.a[0])] = tm.listb(c.a[0] + tuple(mk("ent", (), TRUE, x) for x in it))
        elif v.op == "listb":
            st.d[("h", r.a[0])] = tm.listb(c.a[0] + v.a[0])
        else:
            st.d[("h", r.a[0])] = tm.listb(c.a[0] + (mk("base", v),))

    def dict_update(self, r, v, st):
        v = self.content(v, st) if v.op == "ref" else v
        if v.op == "dictb":
            for e in v.a[0]:
                if e.op == "ent" and not e.a[0] and e.a[1] is TRUE:
                    st.d[("h", r.a[0])] = self.dict_put(self.content(r, st), *e.a[2].a[0])
                else:
                    c = self.content(r, st)
                    c = c if c.op == "dictb" else mk("dictb", (mk("base", c),))
                    st.d[("h", r.a[0])] = mk("dictb", c.a[0] + (e,))
        else:
            c = self.content(r, st)
            c = c if c.op == "dictb" else mk("dictb", (mk("base", c),))
            st.d[("h", r.a[0])] = mk("dictb", c.a[0] + (mk("base", v),))

    def match(self, p, t, loops, bnd):
        if p is t:
            return True
        if p.op == "iter" and p.a[0] in loops:
            if p in bnd:
                return bnd[p] is t
            bnd[p] = t
            return True
        if p.op != t.op or len(p.a) != len(t.a):
            return False
        if p.op == "poly":
            return False

        def go(x, y):
            if isinstance(x, T) and isinstance(y, T):
                return self.match(x, y, loops, bnd)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(go(a, b) for a, b in zip(x, y))
            return x == y
        return all(go(x, y) for x, y in zip(p.a, t.a))

    def dict_get(self, c, k, st):
        """value stored under k in a dictb, or None when it cannot be told"""
        if c.op != "dictb":
            return None
        for e in reversed(c.a[0]):
            if e.op != "ent":
                return None
            kk, v = e.a[2].a[0]
            if kk is k and not e.a[0]:
                if e.a[1] is TRUE:
                    return v
                if tm.and_(*self.gstack, st.pc, tm.not_(e.a[1])) is FALSE:
                    return v
                return None
            if e.a[0]:
                b = {}
                its = {mk("iter", L) for L in e.a[0]}
                ok = self.match(kk, k, e.a[0], b) and set(b) == its
                if not ok and kk.op == "sub" and kk.a[0].op == "keys" and len(c.a[0]) == 1 and kk.a[1] in its and len(its) == 1 and not tm.is_const(k):
                    b = {kk.a[1]: mk("keyidx", kk.a[0].a[0], k)}
                    ok = True
                if ok:
                    if tm.subst(e.a[1], b) is TRUE:
                        return tm.subst(v, b)
                    return None
                if self.distinct(kk, k, e.a[0]):
                    continue
                return None
            if self.distinct(kk, k, ()):
                continue
            return None
        return None

    def dict_choice(self, c, k, st, default=None):
        """value under a key that is not known of a dictionary whose keys are known: one of its values (or a KeyError)"""
        if c.op != "dictb" or not 0 < len(c.a[0]) <= 12 or tm.is_const(k) or k.op in ("path", "tuple", "slice", "iter"):
            return None
        if not all(e.op == "ent" and not e.a[0] and e.a[1] is TRUE and tm.is_const(e.a[2].a[0][0]) for e in c.a[0]):
            return None
        es = [e.a[2].a[0] for e in c.a[0]]
        if len({x for x, _ in es}) != len(es):
            return None
        if default is None:
            if any(self.catches(t["names"], "KeyError") for t in self.trystack):
                return None
            bad = tm.not_(tm.or_(*[tm.eq(x, k) for x, _ in es]))
            here = tm.and_(*self.gstack, st.pc, bad)
            if here is not FALSE:
                s2 = st.copy()
                s2.pc = tm.and_(st.pc, bad)
                self.emit(s2, "raise", mk("ext", "builtins.KeyError"), k)
                self.valid.append((tuple(self.loops), here))
            es, default = es[:-1], es[-1][1]
        r = default
        for x, v in reversed(es):
            r = self.merge_val(tm.eq(x, k), v, r)
        return r

    def distinct(self, a, b, loops):
        if tm.is_const(a) and tm.is_const(b):
            return True
        if a.op == "path" and b.op == "path":
            return len(a.a[0]) != len(b.a[0]) or any(self.distinct(x, y, loops) for x, y in zip(a.a[0], b.a[0]))
        if "path" in (a.op, b.op):
            return True
        return False

    def getsub(self, b, k, st, fr=None):
        if b.op == "ref":
            i = b.a[0]
            c = self.content(b, st)
            if self.kind[i] == "dict":
                v = self.dict_get(c, k, st)
                if v is None:
                    v = self.dict_choice(c, k, st)
                if v is not None:
                    return v
                return mk("sub", b, k)
            if self.kind[i] == "list" and c.op == "listb" and k.op in ("num", "slice"):
                it = tm.seq_items(c)
                if it is not None:
                    r = tm.sub(c, k)
                    return r
                if k.op == "num" and k.a[0] == -1 and c.a[0] and c.a[0][-1].op == "ent" and not c.a[0][-1].a[0] and c.a[0][-1].a[1] is TRUE:
                    return c.a[0][-1].a[2]
            return tm.sub(self.deref(b, st), k)
        if b.op == "gen":
            return tm.sub(self.deref(b, st), k)
        if b.op == "dictb":
            v = self.dict_get(b, k, st)
            if v is None:
                v = self.dict_choice(b, k, st)
            return v if v is not None else mk("sub", b, k)
        if b.op == "ite" and self.hasref(b):
            return self.merge_val(b.a[0], self.getsub(b.a[1], k, st), self.getsub(b.a[2], k, st))
        if b.op == "ite" and "dictb" in (b.a[1].op, b.a[2].op):
            return self.merge_val(b.a[0], self.getsub(b.a[1], k, st), self.getsub(b.a[2], k, st))
        if b.op == "sub":
            # nested dictionary held by an allocation of ours
            path = [k]
            r = b
            while r.op == "sub":
                path.append(r.a[1])
                r = r.a[0]
            if r.op == "ref" and self.kind[r.a[0]] == "dict":
                v = self.dict_get(self.content(r, st), mk("path", tuple(reversed(path))), st)
                if v is not None:
                    return v
        b2 = self.deref(b, st)
        w = st.d.get(("w", b2))
        if w is not None and w.a[0][0] is k:
            return w.a[0][1]
        cls = self.typ(b)
        if cls is not None:
            m = self.prog.method(cls, "__getitem__")
            if m:
                return self.invoke(m, [k], [], st, selfv=b)
        if tm.seq_items(b) is not None or b.op in ("listb", "range", "tuple"):
            return tm.sub(b, k)
        if k.op == "tuple" and b.op not in ("attr",) and tm.is_int(k.a[0][0]) and k.a[0][0].op != "const" and len(k.a[0]) > 1 and k.a[0][0] is not NONE:
            return tm.sub(tm.sub(b2, k.a[0][0]), self.trim(tm.norm_index(tm.tup(k.a[0][1:]))))
        return tm.sub(b2, k) if b2.op != "sub" or b.op != "sub" or not self.hasref(b) else mk("sub", b, k)

    def trim(self, k):
        return k

    # ------------------------------------------------------------ attributes
    def getattr(self, b, name, st, fr=None):
        if b.op == "modref":
            m = self.prog.modules[b.a[0]]
            k, o = self.prog.resolve(b.a[0] + "." + name)
            return self.term_of(k, o)
        if b.op == "ext":
            full = b.a[0] + "." + name
            return self.term_of("ext", full)
        if b.op == "clsref":
            c = self.prog.cls(b.a[0])
            if name == "__name__":
                return const(c.name)
            m = self.prog.method(c, name)
            if m:
                if "classmethod" in m.decs:
                    return mk("bound", b, m.qual)
                return mk("fnref", m.qual)
            v = self.class_attr(c, name)
            return v if v is not None else mk("attr", b, name)
        if b.op in ("fnref", "closure") and name == "__name__":
            return const(b.a[0].rpartition(".")[2])
        if b.op == "ite" and (b.a[1].op in ("new", "ref") or b.a[2].op in ("new", "ref")):
            return self.merge_val(b.a[0], self.getattr(b.a[1], name, st, fr), self.getattr(b.a[2], name, st, fr))
        b2 = self.deref(b, st)
        k = ("a", b2, name)
        if k in st.d:
            return st.d[k]
        c = self.typ(b)
        if c is not None:
            if name == "__class__":
                return mk("clsref", c.qual) if b.op == "new" else mk("attr", b2, name)
            m = self.prog.method(c, name)
            if m:
                if "property" in m.decs or "cached_property" in m.decs:
                    return self.invoke(m, [], [], st, selfv=b)
                if "staticmethod" in m.decs:
                    return mk("fnref", m.qual)
                return mk("bound", b, m.qual)
            if b.op == "new":
                v = self.class_attr(c, name)
                if v is not None:
                    return v
            if name == "name" and c.name in ("Array", "FreeSourceArray") and b2.op == "sub":
                return b2.a[1]
        if b2.op == "attr" and b2.a[1] == "__class__" and name == "__name__":
            return mk("attr", b2, name)
        if name == "T":
            return mk("call", mk("ext", "numpy.transpose"), (b2,), ())
        return mk("attr", b2, name)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note(f"expression {type(e).__name__} not modelled")
            return mk("opaque", ast.unparse(e))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Attribute(self, e, st, fr):
        return self.getattr(self.eval(e.value, st, fr), e.attr, st, fr)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def eval_index(self, e, st, fr):
        return self.eval(e, st, fr)

    def e_Slice(self, e, st, fr):
        g = lambda x: NONE if x is None else self.deref(self.eval(x, st, fr), st)
        return tm.slice_(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        k = tm.norm_index(self.deref(self.eval_index(e.slice, st, fr), st))
        return self.getsub(b, k, st, fr)

    def e_Tuple(self, e, st, fr):
        return tm.tup(self.elts(e.elts, st, fr))

    def elts(self, es, st, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.deref_seq(self.eval(x.value, st, fr), st)
                it = tm.seq_items(v)
                if it is not None:
                    out.extend(it)
                else:
                    out.append(mk("star", self.deref(v, st)))
            else:
                out.append(self.eval(x, st, fr))
        return out

    def e_List(self, e, st, fr):
        es = self.elts(e.elts, st, fr)
        return self.newref(st, "list", tm.listb([mk("base", x.a[0]) if x.op == "star" else mk("ent", (), TRUE, x) for x in es]))

    def e_Set(self, e, st, fr):
        return tm.tup(self.elts(e.elts, st, fr))

    def e_Dict(self, e, st, fr):
        r = self.newref(st, "dict", mk("dictb", ()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.eval(v, st, fr), st)
            else:
                kk = self.deref(self.eval(k, st, fr), st)
                st.d[("h", r.a[0])] = self.dict_put(self.content(r, st), kk, self.eval(v, st, fr))
        return r

    def e_JoinedStr(self, e, st, fr):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(const(v.value))
            else:
                x = self.deref(self.eval(v.value, st, fr), st)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = mk("fmt", x, ast.unparse(v))
                ps.append(self.tostr(x))
        return tm.strcat(*ps)

    def tostr(self, x):
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.str" and len(x.a[1]) == 1:
            return x.a[1][0]
        return x

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return tm.not_(self.truth(v, st))
        v = self.deref(v, st)
        if isinstance(e.op, ast.USub):
            return tm.neg(v)
        if isinstance(e.op, ast.Invert):
            return tm.not_(tm.truth(v))
        return v

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        pc0 = st.pc
        acc = None
        for x in e.values:
            v = self.eval(x, st, fr)
            vals.append(v)
            t = self.truth(v, st)
            st.pc = tm.and_(st.pc, t if isand else tm.not_(t))
            if st.pc is FALSE:
                break
        st.pc = pc0
        ts = [self.truth(v, st) for v in vals]
        dv = [self.deref(v, st) for v in vals]
        if all(tm.is_bool(v) or v.op in ("truth",) for v in dv[:-1]) and (tm.is_bool(dv[-1])):
            return tm.and_(*ts) if isand else tm.or_(*ts)
        if fr is not None and all(v.op not in ("ref", "new") for v in vals) and all(tm.is_bool(v) or v.op in ("attr", "sub", "sym", "call", "truth", "phi") for v in dv):
            return tm.and_(*ts) if isand else tm.or_(*ts)
        r = vals[-1]
        for v, t in zip(reversed(vals[:-1]), reversed(ts[:-1])):
            r = self.merge_val(t, r, v) if isand else self.merge_val(t, v, r)
        return r

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.eval(e.test, st, fr), st)
        if c is TRUE:
            return self.eval(e.body, st, fr)
        if c is FALSE:
            return self.eval(e.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = tm.and_(st.pc, c), tm.and_(st.pc, tm.not_(c))
        a = self.eval(e.body, s1, fr)
        b = self.eval(e.orelse, s2, fr)
        self.join(st, c, s1, s2)
        return self.merge_val(c, a, b)

    def e_Lambda(self, e, st, fr):
        return self.mkclosure(Func(e, fr.module, None, "<lambda>"), fr)

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return tm.and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if op in ("Is", "IsNot"):
            if a.op == "ref" and b.op == "ref":
                r = TRUE if a is b else FALSE
            elif b is NONE and a.op == "ref" or a is NONE and b.op == "ref":
                r = FALSE
            else:
                r = tm.is_(self.deref(a, st), self.deref(b, st))
            return r if op == "Is" else tm.not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return r if op == "In" else tm.not_(r)
        a, b = self.deref(a, st), self.deref(b, st)
        if op == "Eq" or op == "NotEq":
            r = self.eqlen(a, b)
            return r if op == "Eq" else tm.not_(r)
        return {"Lt": lambda: tm.lt(a, b), "LtE": lambda: tm.le(a, b), "Gt": lambda: tm.lt(b, a), "GtE": lambda: tm.le(b, a)}[op]()

    def eqlen(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "len" and y is ZERO:
                return tm.le0(x)
            if x.op == "listb" and not x.a[0] and y.op != "listb":
                return tm.le0(tm.length(y))
        sa, sb = tm.seq_items(a), tm.seq_items(b)
        if sa is not None and sb is not None and a.op == b.op:
            if len(sa) != len(sb):
                return FALSE
            return tm.and_(*[self.eqlen(x, y) for x, y in zip(sa, sb)])
        return tm.eq(a, b)

    def contains(self, a, b, st):
        k = self.deref(a, st)
        if b.op in ("keys",):
            b = b.a[0]
        if b.op == "values":
            v = self.deref_seq(b, st)
            if v.op == "values":
                v = mk("values", self.deref(v.a[0], st))
                tr, f = self.elems(v, st)
                L = self.mkloop(tr)
                return self.exists(L, tm.eq(k, f(mk("iter", L))))
            b = v
        cls = self.typ(b)
        if cls is not None:
            m = self.prog.method(cls, "__contains__")
            if m:
                return self.truth(self.invoke(m, [a], [], st, selfv=b), st)
        if b.op == "ref" and self.kind[b.a[0]] == "dict":
            c = self.content(b, st)
            if c.op == "dictb":
                if not c.a[0]:
                    return FALSE
                if all(e.op == "ent" and not e.a[0] for e in c.a[0]) and len(c.a[0]) <= 40:
                    return tm.or_(*[tm.and_(e.a[1], tm.eq(e.a[2].a[0][0], k)) for e in c.a[0] if e.a[2].a[0][0].op != "path"])
            return mk("in", k, self.root(b))
        b = self.deref(b, st)
        if b.op == "dictb":
            if all(e.op == "ent" and not e.a[0] for e in b.a[0]):
                return tm.or_(*[tm.and_(e.a[1], tm.eq(e.a[2].a[0][0], k)) for e in b.a[0]])
        if b.op == "listb" and all(e.op == "ent" for e in b.a[0]) and b.a[0]:
            if any(e.a[0] for e in b.a[0]):
                return tm.or_(*[self.leave(list(e.a[0]), tm.and_(e.a[1], tm.eq(e.a[2], k))) for e in b.a[0]])
            return tm.or_(*[tm.and_(e.a[1], tm.eq(e.a[2], k)) for e in b.a[0]])
        if b.op == "listb" and not b.a[0]:
            return FALSE
        if b.op == "range":
            lo, hi, s = b.a
            if s is ONE:
                return tm.and_(tm.le(lo, k), tm.lt(k, hi))
        return tm.in_(k, b)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        r = self.binop(type(e.op).__name__, a, b, st)
        if r.op == "listb" and isinstance(e.op, ast.Add) and any(x.op == "ref" and self.kind[x.a[0]] == "list" for x in (a, b)):
            r = self.newref(st, "list", r)
        return r

    def binop(self, op, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if op == "Add":
            if any(x.op == "strcat" or tm.is_str(x) or (x.op == "call" and x.a[0] is mk("ext", "builtins.str")) for x in (a, b)):
                return tm.strcat(self.tostr(a), self.tostr(b))
            if any(x.op in ("tuple", "listb", "seqcat") for x in (a, b)):
                return tm.seqcat(a, b)
            return tm.add(a, b)
        if op == "Sub":
            return tm.minus(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op in ("listb", "tuple"):
                    it = tm.seq_items(x)
                    if it is not None and y.op == "num" and 0 <= y.a[0] <= 8:
                        return tm.lst(it * int(y.a[0])) if x.op == "listb" else tm.tup(it * int(y.a[0]))
                    if it is not None and len(it) == 1:
                        return tm.listb([tm.ent([self.mkloop(y)], TRUE, it[0])])
                    return mk("call", mk("ext", "seqmul"), (x, y), ())
            return tm.mul(a, b)
        if op == "Div":
            if a.op in ("root", "attr", "sym", "call", "sub", "ite", "new") and (tm.is_str(b) or b.op == "strcat"):
                return mk("call", mk("attr", a, "joinpath"), (b,), ())
            return tm.div(a, b)
        if op == "FloorDiv":
            return tm.fdiv(a, b)
        if op == "Mod":
            if tm.is_str(a):
                return mk("call", mk("ext", "strformat"), (a, b), ())
            return tm.mod(a, b)
        if op == "Pow":
            return tm.power(a, b)
        if op == "BitAnd":
            return tm.and_(a, b)
        if op == "BitOr":
            if "dictb" in (a.op, b.op):
                es = []
                for x in (a, b):
                    es.extend(x.a[0] if x.op == "dictb" else (mk("base", x),))
                return mk("dictb", tuple(es))
            return tm.or_(a, b)
        if op == "MatMult":
            return mk("call", mk("ext", "numpy.matmul"), (a, b), ())
        return mk("call", mk("ext", "op" + op), (a, b), ())

    # comprehension = loop that appends
    def comp(self, e, st, fr, leaf):
        def level(i, s):
            if i == len(e.generators):
                leaf(s)
                return
            g = e.generators[i]
            it = self.eval(g.iter, s, fr)

            def body(v, s1):
                self.assign(g.target, v, s1, fr)
                conds = [self.truth(self.eval(c, s1, fr), s1) for c in g.ifs]
                c = tm.and_(*conds) if conds else TRUE
                if c is FALSE:
                    return
                if c is TRUE:
                    level(i + 1, s1)
                    return
                a, b = s1.copy(), s1.copy()
                a.pc, b.pc = tm.and_(s1.pc, c), tm.and_(s1.pc, tm.not_(c))
                level(i + 1, a)
                self.join(s1, c, a, b)
            self.iterate(it, s, fr, body)
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.d.get(("v", fr.fid, n)) for n in names}
        for n in names:
            st.d.pop(("v", fr.fid, n), None)
        level(0, st)
        for n, v in saved.items():
            if v is None:
                st.d.pop(("v", fr.fid, n), None)
            else:
                st.d[("v", fr.fid, n)] = v

    def e_ListComp(self, e, st, fr):
        r = self.newref(st, "list", tm.listb(()))

        def leaf(s):
            self.list_append(r, self.freeze(self.eval(e.elt, s, fr), s), s)
        self.comp(e, st, fr, leaf)
        return r

    def freeze(self, v, st):
        return self.deref(v, st) if v.op == "ref" else v

    def e_SetComp(self, e, st, fr):
        r = self.e_ListComp(e, st, fr)
        return mk("call", mk("ext", "builtins.set"), (self.deref(r, st),), ())

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def genexp(self, node, st, fr, body):
        pass

    def e_DictComp(self, e, st, fr):
        r = self.newref(st, "dict", mk("dictb", ()))

        def leaf(s):
            k = self.deref(self.eval(e.key, s, fr), s)
            v = self.freeze(self.eval(e.value, s, fr), s)
            s.d[("h", r.a[0])] = self.dict_put(self.content(r, s), k, v)
        self.comp(e, st, fr, leaf)
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.super_call(e, st, fr)
        if isinstance(e.func, ast.Attribute) and not self.is_module_expr(e.func, st, fr):
            b = self.eval(e.func.value, st, fr)
            args, kws = self.args(e, st, fr)
            return self.method_call(b, e.func.attr, args, kws, st, fr, e.func.value)
        f = self.eval(e.func, st, fr)
        args, kws = self.args(e, st, fr)
        return self.call(f, args, kws, st, fr)

    def is_module_expr(self, e, st, fr):
        x = e.value
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return False
        v = self.lookup(x.id, st, fr)
        if v.op in ("modref", "clsref"):
            return isinstance(e.value, ast.Name) or self.eval(e.value, st, fr).op in ("modref", "clsref", "ext", "fnref")
        return v.op == "ext" and not v.a[0].startswith("builtins.")

    def several(self, v):
        """the results of a call known to give a fixed number of them"""
        if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "numpy.unique":
            flags = [x for k, x in v.a[2] if k.startswith("return_")]
            if len(v.a[1]) == 1 and flags and all(x is TRUE for x in flags):
                return [tm.sub(v, tm.num(i)) for i in range(1 + len(flags))]
        return None

    def args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref_seq(self.eval(a.value, st, fr), st)
                it = tm.seq_items(v)
                it = self.several(self.deref(v, st)) if it is None else it
                if it is not None:
                    args.extend(it)
                else:
                    args.append(mk("star", self.deref(v, st)))
            else:
                args.append(self.eval(a, st, fr))
        kws = []
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                c = self.content(v, st) if v.op == "ref" else v
                if c.op == "dictb" and all(x.op == "ent" and not x.a[0] and tm.is_str(x.a[2].a[0][0]) for x in c.a[0]):
                    for x in c.a[0]:
                        kws.append((x.a[2].a[0][0].a[1], x.a[2].a[0][1]))
                else:
                    kws.append(("**", self.deref(v, st)))
            else:
                kws.append((k.arg, v))
        self.arg_src = {}
        for a in [*e.args, *(k.value for k in e.keywords)]:
            if isinstance(a, ast.Name):
                key = self.var_key(a.id, fr, st)
            elif isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
                key = ("a", self.deref(self.lookup(a.value.id, st, fr), st), a.attr) if self.var_key(a.value.id, fr, st) in st.d else None
            else:
                continue
            if key in st.d:
                self.arg_src.setdefault(st.d[key], []).append(key)
        return args, kws

    def var_key(self, name, fr, st):
        return ("v", fr.fid, name)

    def changes(self, fn, depth=0):
        """the parameters whose elements a function stores to"""
        k = fn.qual
        if k in self.changed_params:
            return self.changed_params[k]
        self.changed_params[k] = out = set()
        names = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs]
        for n in ast.walk(fn.node):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []):
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in names:
                        out.add(x.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                last = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                skip = 0
                g = fn.module.funcs.get(last) if isinstance(n.func, ast.Name) else None
                if g is None and isinstance(n.func, ast.Attribute) and fn.cls is not None and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls"):
                    g = self.prog.method(fn.cls, last)
                    skip = 0 if g is None or "staticmethod" in g.decs else 1
                if g is not None and g is not fn:
                    ps = [p.arg for p in g.node.args.posonlyargs + g.node.args.args][skip:]
                    more = self.changes(g)
                    out |= {a.id for p, a in zip(ps, n.args) if p in more and isinstance(a, ast.Name) and a.id in names}
        return out

    def super_call(self, e, st, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent
        args, kws = self.args(e, st, fr)
        if f is None or f.selfobj is None:
            self.note("super() outside a method")
            return UNDEF
        obj = f.selfobj
        dyn = self.typ(obj) or f.cls
        mro = self.prog.mro(dyn)
        if f.cls in mro:
            mro = mro[mro.index(f.cls) + 1:]
        else:
            mro = self.prog.mro(f.cls)[1:]
        for c in mro:
            if e.func.attr in c.methods:
                return self.invoke(c.methods[e.func.attr], args, kws, st, selfv=obj)
        if e.func.attr == "__init__":
            return NONE
        self.note(f"super().{e.func.attr} not found")
        return mk("call", mk("attr", mk("ext", "super"), e.func.attr), tuple(self.deref(a, st) for a in args), ())

    def overridden(self, c, name):
        for s in self.prog.subclasses(c):
            if name in s.methods and s.methods[name] is not self.prog.method(c, name):
                return True
        return False

    def method_call(self, b, name, args, kws, st, fr, bexpr=None):
        if b.op == "ite" and (self.typ(b.a[1]) is not None or self.typ(b.a[2]) is not None) and self.typ(b) is None:
            c = b.a[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = tm.and_(st.pc, c), tm.and_(st.pc, tm.not_(c))
            v1 = self.method_call(b.a[1], name, args, kws, s1, fr) if b.a[1] is not NONE else NONE
            v2 = self.method_call(b.a[2], name, args, kws, s2, fr) if b.a[2] is not NONE else NONE
            self.join(st, c, s1, s2)
            return self.merge_val(c, v1, v2)
        if b.op == "ref":
            if self.kind[b.a[0]] == "dict" and name in ("setdefault", "update") and b.a[0] in self.label:
                return self.dict_change(b, name, args, kws, st, fr)
            r = self.container_method(b, name, args, kws, st)
            if r is not None:
                return r
        c = self.typ(b)
        if name == "setdefault" and c is None and len(args) in (1, 2) and not kws and b.op in ("sub", "attr", "root", "sym"):
            return self.dict_change(b, name, args, kws, st, fr)
        if name == "update" and b.op == "call" and b.a[0].op == "ext" and len(args) == 1 and isinstance(bexpr, ast.Name):
            # a fresh result of a library call held by a variable
            r = self.newref(st, "dict", mk("dictb", (mk("base", b),)))
            self.replace_value(st, b, r, ("v", fr.fid, bexpr.id))
            return self.container_method(r, name, args, kws, st)
        if name == "update" and c is None and b.op in ("sub", "attr", "root") and (kws and not args or len(args) == 1 and
                (args[0].op == "dictb" or args[0].op == "ref" and self.kind[args[0].a[0]] == "dict")):
            return self.dict_change(b, name, args, kws, st, fr)
        if c is not None and ("a", self.deref(b, st), name) not in st.d:
            m = self.prog.method(c, name)
            if m is not None:
                virtual = b.op != "new" and ("abstractmethod" in m.decs or self.overridden(c, name))
                if "staticmethod" in m.decs:
                    return self.invoke(m, args, kws, st)
                if "classmethod" in m.decs:
                    return self.invoke(m, args, kws, st, selfv=mk("clsref", c.qual))
                if not virtual:
                    return self.invoke(m, args, kws, st, selfv=b)
            elif b.op == "new":
                self.note(f"{c.name} has no method {name}")
        if b.op in ("items", "values", "keys") and name in ("keys", "values", "items"):
            return b
        if b.op in ("dictb",) and name in ("keys", "values", "items"):
            return mk(name, b)
        if b.op == "dictb" and name == "get":
            v = self.dict_get(b, self.deref(args[0], st), st)
            if v is not None:
                return v
        if name in ("keys", "values", "items") and not args and not kws:
            return mk(name, self.deref(b, st))
        if name == "update_ir" or name == "process":
            pass
        if name in MUTATORS and b.op not in ("ref",):
            return self.opaque_mutation(b, name, args, kws, st, fr, bexpr)
        if b.op == "ext":
            return self.call(self.term_of("ext", b.a[0] + "." + name), args, kws, st, fr)
        f = self.getattr(b, name, st, fr)
        if f.op in ("fnref", "bound", "closure", "clsref", "new"):
            if f.op == "bound":
                m = self.prog.func(f.a[1])
                c2 = self.typ(f.a[0])
                if c2 is not None and f.a[0].op != "new" and ("abstractmethod" in m.decs or self.overridden(c2, name)):
                    return self.opaque_method(b, name, args, kws, st)
            return self.call(f, args, kws, st, fr)
        if f.op == "attr" or f.op in ("sub", "ite", "sym", "call", "root", "ext", "iter", "phi", "final") or ("a", self.deref(b, st), name) in st.d:
            if f.op == "attr" and f.a[1] == name:
                return self.opaque_method(b, name, args, kws, st)
            return self.call(f, args, kws, st, fr)
        return self.opaque_method(b, name, args, kws, st)

    def dict_change(self, b, name, args, kws, st, fr):
        """d.setdefault and d.update are stores of single entries"""
        if name == "setdefault":
            k = self.deref(args[0], st)
            v = args[1] if len(args) > 1 else NONE
            if b.op == "ref":
                got = self.dict_get(self.content(b, st), k, st)
                if got is not None:
                    return got
            c = self.contains(args[0], b, st)
            if c is FALSE:
                self.substore(None, b, k, v, st, fr, None)
            elif c is not TRUE:
                s1, s2 = st.copy(), st.copy()
                s1.pc, s2.pc = tm.and_(st.pc, c), tm.and_(st.pc, tm.not_(c))
                self.substore(None, b, k, v, s2, fr, None)
                self.join(st, c, s1, s2)
            return self.getsub(b, k, st)
        for a in args:
            if self.typ(a) is None and a.op in ("listb", "tuple", "gen", "zip") or a.op == "ref" and self.kind[a.a[0]] == "list":
                it = a
            else:
                it = self.method_call(a, "items", [], [], st, fr)
            self.iterate(it, st, fr, lambda kv, s1: self.substore(None, b, self.deref(self.getsub(kv, ZERO, s1), s1), self.getsub(kv, ONE, s1), s1, fr, None))
        for n, v in kws:
            self.substore(None, b, const(n), v, st, fr, None)
        return NONE

    def opaque_mutation(self, b, name, args, kws, st, fr, bexpr):
        b2 = self.deref(b, st)
        da = tuple(self.deref(a, st) for a in args)
        if name == "setdefault" and len(args) == 2:
            self.emit(st, "call", mk("attr", b2, name), da, ())
            return mk("sub", b2, da[0])
        if name in ("append", "extend") and len(args) == 1 and b.op in ("attr", "sub", "listb", "tuple", "call", "ite", "sym", "final"):
            if b.op in ("listb", "call", "ite") and bexpr is not None and isinstance(bexpr, (ast.Name, ast.Attribute)) and b.op == "listb":
                r = self.newref(st, "list", b)
                if isinstance(bexpr, ast.Name):
                    st.d[("v", fr.fid, bexpr.id)] = r
                else:
                    st.d[("a", self.deref(self.eval(bexpr.value, st, fr), st), bexpr.attr)] = r
                return self.container_method(r, name, args, kws, st)
            self.emit(st, "call", mk("attr", b2, name), da, ())
            return NONE
        t = mk("call", mk("attr", b2, name), da, tuple((k, self.deref(v, st)) for k, v in kws))
        self.emit(st, "call", mk("attr", b2, name), da, t.a[2])
        return self.numbered(t)

    def numbered(self, t):
        """results of two calls of the same effectful function differ"""
        n = sum(1 for e in self.events[:-1] if e.kind == "call" and e.data[0] is t.a[0] and e.data[1] == t.a[1] and e.data[2] == t.a[2])
        return t if n == 0 else mk("call", t.a[0], t.a[1], t.a[2] + (("#", num(n)),))

    def opaque_method(self, b, name, args, kws, st):
        da = tuple(self.deref(a, st) for a in args)
        dk = tuple(sorted((k, self.deref(v, st)) for k, v in kws))
        b2 = self.deref(b, st)
        if name in lib.NP_METHODS:
            full = lib.NP_METHODS[name]
            if full.startswith("numpy."):
                return self.ext_call(full, (b2,) + da, dk, st)
            if full == ".reshape" and len(da) > 1:
                da = (tm.tup(da),)
            if full == ".flatten":
                return mk("call", mk("attr", b2, "reshape"), (num(-1),), ())
            return mk("call", mk("attr", b2, full[1:]), da, dk)
        if "." + name in lib.SIG:
            bb = lib.bind("." + name, da, dk)
            if bb is not None:
                da, dk = bb
        if name in ("joinpath", "__truediv__"):
            return mk("call", mk("attr", b2, "joinpath"), da, dk)
        if tm.is_str(b2) and name == "join" and len(da) == 1 and not dk:
            it = tm.seq_items(da[0])
            if it:
                ps = []
                for x in it:
                    ps += [b2, x] if ps else [x]
                return tm.strcat(*ps) if len(ps) > 1 else ps[0]
        if tm.is_str(b2) and not dk and all(tm.is_str(x) or x.op == "num" for x in da):
            v = self.text(b2, name, da, st)
            if v is not None:
                return v
        t = mk("call", mk("attr", b2, name), da, dk)
        if name in lib.PURE_METHODS or tm.is_str(b2) or b2.op == "strcat":
            return t
        self.emit(st, "call", mk("attr", b2, name), da, dk)
        for k in [k for k in st.d if k[0] == "w"]:
            del st.d[k]
        return self.numbered(t)

    def text(self, b, name, args, st):
        """methods of a known text"""
        if name not in ("split", "rsplit", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "removeprefix", "removesuffix", "isdigit", "partition", "rpartition", "count", "find"):
            return None
        try:
            v = getattr(b.a[1], name)(*[x.a[1] if x.op == "const" else int(x.a[0]) for x in args])
        except Exception:
            return None
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, str):
            return const(v)
        if isinstance(v, tuple):
            return tm.tup([const(x) for x in v])
        return self.newref(st, "list", tm.listb([mk("ent", (), TRUE, const(x)) for x in v]))

    def container_method(self, r, name, args, kws, st):
        i = r.a[0]
        k = self.kind[i]
        c = self.content(r, st)
        if k == "dict" and i in self.label and (name in lib.MUTATING or name in ("setdefault", "update", "pop")):
            self.emit(st, "dict", self.root(r), mk("call", mk("ext", name), tuple(self.deref(a, st) for a in args), tuple((n, self.deref(a, st)) for n, a in kws)))
        if k == "list":
            if name == "append":
                self.emit(st, "append", self.root(r), self.deref(args[0], st)) if i in self.label else None
                self.list_append(r, args[0], st)
                return NONE
            if name == "extend":
                if i in self.label:
                    self.emit(st, "extend", self.root(r), self.deref(args[0], st))
                self.list_extend(r, args[0], st)
                return NONE
            it = tm.seq_items(c)
            if name == "copy":
                return self.newref(st, "list", c)
            if name == "pop" and (c.op == "listb" or c.op == "call" and c.a[0] is mk("ext", "popped")):
                ix = self.deref(args[0], st) if args else num(-1)
                if it is not None and ix.op == "num" and it and -len(it) <= int(ix.a[0]) < len(it):
                    j = int(ix.a[0])
                    v = it[j]
                    del it[j]
                    st.d[("h", i)] = tm.lst(it)
                    return v
                v = tm.sub(c, ix)
                st.d[("h", i)] = mk("call", mk("ext", "popped"), (c, ix), ())
                return v
            if name == "insert" and it is not None and args[0].op == "num":
                it.insert(int(args[0].a[0]), args[1])
                st.d[("h", i)] = tm.lst(it)
                return NONE
            if name == "insert" and args[0] is ZERO and c.op == "listb":
                st.d[("h", i)] = tm.listb((mk("ent", (), TRUE, args[1]),) + c.a[0])
                return NONE
            if name == "insert" and args[0] is ZERO:
                st.d[("h", i)] = tm.listb((mk("ent", (), TRUE, args[1]), mk("base", c)))
                return NONE
            if name in ("index", "count"):
                return mk("call", mk("attr", self.deref(r, st), name), tuple(self.deref(a, st) for a in args), ())
            if name in lib.MUTATING:
                st.d[("h", i)] = mk("call", mk("attr", self.deref(r, st), name), tuple(self.deref(a, st) for a in args), ())
                return mk("sub", self.deref(c, st), mk("opaque", name))
            return None
        if k == "dict":
            if name in ("keys", "values", "items"):
                return mk(name, r)
            if name == "get":
                kk = self.deref(args[0], st)
                v = self.dict_get(c, kk, st)
                if v is not None:
                    return v
                dflt = args[1] if len(args) > 1 else NONE
                cond = self.contains(args[0], r, st)
                if cond is FALSE:
                    return dflt
                return self.merge_val(cond, mk("sub", r, kk), dflt)
            if name == "setdefault":
                kk = self.deref(args[0], st)
                v = self.dict_get(c, kk, st)
                if v is not None:
                    return v
                cond = self.contains(args[0], r, st)
                if cond is FALSE:
                    st.d[("h", i)] = self.dict_put(c, kk, args[1] if len(args) > 1 else NONE)
                    return args[1] if len(args) > 1 else NONE
                return mk("sub", r, kk)
            if name == "update":
                for a in args:
                    self.dict_update(r, a, st)
                for kk, v in kws:
                    st.d[("h", i)] = self.dict_put(self.content(r, st), const(kk), v)
                return NONE
            if name == "copy":
                return self.newref(st, "dict", c)
            if name == "pop":
                kk = self.deref(args[0], st)
                v = self.dict_get(c, kk, st)
                st.d[("h", i)] = mk("call", mk("ext", "del"), (c, kk), ())
                return v if v is not None else mk("sub", self.root(r), kk)
            if name in lib.MUTATING:
                st.d[("h", i)] = mk("call", mk("attr", c, name), tuple(self.deref(a, st) for a in args), ())
                return NONE
        if k == "set":
            if name == "add":
                self.list_append(r, args[0], st)
                return NONE
        return None

    def call(self, f, args, kws, st, fr):
        o = f.op
        if o == "fnref":
            fn = self.prog.func(f.a[0])
            return self.invoke(fn, args, kws, st)
        if o == "bound":
            fn = self.prog.func(f.a[1])
            return self.invoke(fn, args, kws, st, selfv=f.a[0])
        if o == "closure":
            c = self.closures[f]
            pf = c["frame"]
            if c["env"] is not None:
                p2 = Frame(pf.fid, pf.fn, pf.module, pf.cls, pf.parent)
                p2.env = c["env"]
                p2.selfobj = pf.selfobj
                pf = p2
            return self.invoke(c["fn"], args, kws, st, closure=(pf, None))
        if o == "clsref":
            return self.construct(self.prog.cls(f.a[0]), args, kws, st)
        if o == "ite" and any(x.op in ("fnref", "bound", "closure", "clsref") for x in f.a[1:]):
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = tm.and_(st.pc, f.a[0]), tm.and_(st.pc, tm.not_(f.a[0]))
            v1, v2 = self.call(f.a[1], args, kws, s1, fr), self.call(f.a[2], args, kws, s2, fr)
            self.join(st, f.a[0], s1, s2)
            return self.merge_val(f.a[0], v1, v2)
        c = self.typ(f)
        if c is not None:
            m = self.prog.method(c, "__call__")
            if m:
                return self.invoke(m, args, kws, st, selfv=f)
        if o == "ext":
            return self.builtin(f.a[0], args, kws, st, fr)
        if o == "attr":
            return self.opaque_method(f.a[0], f.a[1], args, kws, st)
        da = tuple(self.deref(a, st) for a in args)
        dk = tuple(sorted((k, self.deref(v, st)) for k, v in kws))
        f2 = self.deref(f, st)
        self.emit(st, "call", f2, da, dk)
        return self.numbered(mk("call", f2, da, dk))

    def builtin(self, name, args, kws, st, fr):
        n = name[9:] if name.startswith("builtins.") else None
        if name in lib.IGNORED:
            return NONE
        if n == "range":
            a = [self.deref(x, st) for x in args]
            return mk("range", *( (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)))
        if n == "enumerate":
            s = args[1] if len(args) > 1 else dict(kws).get("start", ZERO)
            return mk("enum", args[0], s)
        if n == "zip":
            return mk("zip", tuple(args))
        if n == "reversed":
            v = self.deref_seq(args[0], st)
            it = tm.seq_items(v)
            return tm.lst(it[::-1]) if it is not None else mk("reversed", v)
        if n in ("list", "tuple") and len(args) == 1:
            v = args[0]
            if v.op in ("gen", "zip", "enum", "items", "values", "keys", "range") or v.op == "ref":
                v = self.collect(v, st) if v.op != "keys" or v.a[0].op == "ref" else self.deref(v, st)
            else:
                v = self.deref_seq(v, st)
            it = tm.seq_items(v)
            if n == "tuple" and it is not None:
                return tm.tup(it)
            if it is not None or v.op == "listb":
                return self.newref(st, "list", v if v.op == "listb" else tm.lst(it))
            return mk("call", mk("ext", name), (self.deref(v, st),), ()) if v.op != "keys" else v
        if n == "list" and not args:
            return self.newref(st, "list", tm.listb(()))
        if n == "int" and len(args) == 1 and tm.is_str(args[0]) and args[0].a[1].strip().lstrip("-").isdigit():
            return num(int(args[0].a[1]))
        if n in ("getattr", "setattr"):
            args = [self.deref(args[0], st) if args[0].op == "ite" else args[0]] + list(args[1:])
        if n == "set":
            if not args:
                return self.newref(st, "set", tm.listb(()))
            return mk("call", mk("ext", name), (self.deref(self.deref_seq(args[0], st), st),), ())
        if n == "dict":
            r = self.newref(st, "dict", mk("dictb", ()))
            for a in args:
                if a.op == "zip":
                    def body(v, s):
                        kv = tm.seq_items(v)
                        s.d[("h", r.a[0])] = self.dict_put(self.content(r, s), self.deref(kv[0], s), kv[1])
                    self.iterate(a, st, fr, body)
                else:
                    self.dict_update(r, a, st)
            for k, v in kws:
                st.d[("h", r.a[0])] = self.dict_put(self.content(r, st), const(k), v)
            return r
        if n == "isinstance" and len(args) == 2:
            return self.isinstance(args[0], args[1], st)
        if n == "type" and len(args) == 1:
            c = self.typ(args[0])
            if args[0].op == "new":
                return mk("clsref", c.qual)
            return mk("attr", self.deref(args[0], st), "__class__")
        if n == "getattr" and len(args) >= 2 and tm.is_str(args[1]):
            return self.getattr(args[0], args[1].a[1], st, fr)
        if n == "setattr" and len(args) == 3 and tm.is_str(args[1]):
            self.setattr(args[0], args[1].a[1], args[2], st, fr)
            return NONE
        if n == "callable" and len(args) == 1:
            if args[0].op in ("fnref", "bound", "closure", "clsref"):
                return TRUE
            if args[0].op in ("ref", "num", "tuple", "listb", "dictb", "range", "writes") or tm.is_const(args[0]):
                return FALSE
        if n == "len" and len(args) == 1:
            a = args[0]
            if a.op == "ref" and self.kind[a.a[0]] == "dict":
                c = self.content(a, st)
                if c.op == "dictb" and all(e.op == "ent" and not e.a[0] and e.a[1] is TRUE for e in c.a[0]):
                    return num(len(c.a[0]))
                return mk("len", self.root(a))
            return tm.length(self.deref_seq(a, st) if a.op != "keys" else a)
        if n == "next" and args:
            return self.next_(args, st)
        if n == "iter" and len(args) == 1:
            v = self.deref_seq(args[0], st)
            it = tm.seq_items(v)
            if it is not None:
                return self.newref(st, "list", tm.lst(it)) if False else mk("alloc", mk("call", mk("ext", name), (self.deref(v, st),), ()), self.iters())
            return mk("alloc", mk("call", mk("ext", name), (self.deref(v, st),), ()), self.iters())
        if n == "map" and len(args) == 2:
            r = self.newref(st, "list", tm.listb(()))
            self.iterate(args[1], st, fr, lambda v, s: self.list_append(r, self.freeze(self.call(args[0], [v], [], s, fr), s), s))
            return r
        if n == "filter" and len(args) == 2:
            r = self.newref(st, "list", tm.listb(()))

            def fb(v, s):
                c = self.truth(self.call(args[0], [v], [], s, fr) if args[0] is not NONE else v, s)
                a, b = s.copy(), s.copy()
                a.pc, b.pc = tm.and_(s.pc, c), tm.and_(s.pc, tm.not_(c))
                self.list_append(r, v, a)
                self.join(s, c, a, b)
            self.iterate(args[1], st, fr, fb)
            return r
        if n == "sorted" and len(args) == 1:
            v = self.deref_seq(args[0], st)
            return mk("call", mk("ext", name), (self.deref(v, st),), tuple(sorted((k, self.deref(x, st)) for k, x in kws)))
        if name in ("copy.deepcopy", "copy.copy") and args:
            a = args[0]
            return mk("call", mk("ext", name), (self.deref(a, st),), ())
        if name in ("itertools.product",) and not kws:
            r = self.newref(st, "list", tm.listb(()))

            def prod(i, acc, s):
                if i == len(args):
                    self.list_append(r, tm.tup(acc), s)
                    return
                self.iterate(args[i], s, fr, lambda v, s1: prod(i + 1, acc + [v], s1))
            prod(0, [], st)
            return r
        if name == "functools.partial" and args:
            pass
        da = tuple(self.deref(self.deref_seq(a, st) if a.op in ("gen", "zip", "enum") else a, st) for a in args)
        dk = tuple(sorted((k, self.deref(v, st)) for k, v in kws))
        return self.ext_call(name, da, dk, st)

    def iters(self):
        return tuple(mk("iter", L) for L in self.loops)

    def next_(self, args, st):
        v = self.deref(args[0], st)
        d = tuple(self.deref(a, st) for a in args)
        t = mk("call", mk("ext", "builtins.next"), d, ())
        self.emit(st, "call", mk("ext", "builtins.next"), d, ())
        return self.numbered(t)

    def ext_call(self, name, da, dk, st):
        name = lib.ALIAS.get(name, name)
        r = lib.norm_call(name, da, dk)
        if r is None:
            b = lib.bind(name, da, dk)
            if b is not None:
                da, dk = b
            r = mk("call", mk("ext", name), da, dk)
        if lib.is_impure(name):
            self.emit(st, "call", mk("ext", name), da, dk)
            return self.numbered(r) if r.op == "call" else r
        if name in lib.STATEFUL:
            self.emit(st, "made", mk("ext", name), da, dk)
            return mk("alloc", r, self.iters())
        if name in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like") or \
                (name == "numpy.copy"):
            return self.newref(st, "arr", r)
        return r

    def isinstance(self, x, c, st):
        cs = tm.seq_items(self.deref(c, st))
        if cs is not None:
            return tm.or_(*[self.isinstance(x, y, st) for y in cs])
        n = c.a[0] if c.op in ("ext", "clsref") else None
        k = self.typ(x)
        if k is not None and c.op == "clsref":
            target = self.prog.cls(n)
            if self.prog.is_sub(k, target):
                return TRUE
            if x.op == "new" or not self.prog.is_sub(target, k):
                return FALSE
        if k is not None and c.op == "ext":
            return FALSE
        if x.op == "ref":
            kind = self.kind[x.a[0]]
            if c.op == "clsref":
                return FALSE
            m = {"list": "builtins.list", "dict": "builtins.dict", "arr": "numpy.ndarray", "set": "builtins.set"}[kind]
            return TRUE if n == m else FALSE
        if x.op == "tuple":
            return TRUE if n == "builtins.tuple" else FALSE
        if x.op == "dictb":
            return TRUE if n == "builtins.dict" else FALSE
        if x.op == "listb":
            return TRUE if n == "builtins.list" else FALSE
        if tm.is_str(x) or x.op == "strcat":
            return TRUE if n == "builtins.str" else FALSE
        if x.op in ("range", "zip", "enum") and n is not None:
            return FALSE if not n.startswith("builtins.") or n in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.str", "builtins.int", "builtins.float") else mk("call", mk("ext", "builtins.isinstance"), (self.deref(x, st), c), ())
        if x is NONE or x.op in ("slice", "closure", "fnref"):
            return FALSE
        if x.op == "num" and n is not None:
            if n == "builtins.int":
                return TRUE if x.a[0].denominator == 1 else FALSE
            if n == "builtins.float":
                return FALSE if x.a[0].denominator == 1 else TRUE
            return FALSE
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.array", "numpy.concatenate", "numpy.arange"):
            return TRUE if n == "numpy.ndarray" else FALSE
        if x.op == "ite":
            return tm.ite(x.a[0], self.isinstance(x.a[1], c, st), self.isinstance(x.a[2], c, st))
        return mk("call", mk("ext", "builtins.isinstance"), (self.deref(x, st), c), ())

    # ------------------------------------------------------------ entries
    def ref_of(self, qual):
        k, o = self.prog.resolve(qual)
        if k == "ext":
            c = self.prog.func(qual)
            if c is not None:
                return mk("fnref", c.qual)
            raise KeyError(qual)
        return self.term_of(k, o)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "setdefault", "add", "discard"}


def subst_any(x, m):
    if isinstance(x, T):
        return tm.subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def clean_all(es, clean):
    return all(clean(e) for e in es)
