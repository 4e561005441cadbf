"""Comparison of two value graphs.

The result is a list of differences, each definite ("D": the two sides denote different values for inputs that exist) or
open ("U": the normal forms differ but the analysis cannot tell whether the values do).  An empty list means the values
are equal for every input.
"""
import builtins
import itertools
import time
from fractions import Fraction
from . import terms as tm
from .terms import T, mk, NONE, TRUE, FALSE, ZERO, ONE, FULL, ELL

GROUPS = [
    {"numpy.cos", "numpy.sin", "numpy.tan"}, {"numpy.zeros", "numpy.ones", "numpy.full_like", "numpy.ones_like", "numpy.zeros_like"},
    {"numpy.min", "numpy.max", "numpy.mean", "numpy.sum", "numpy.median", "numpy.prod", "numpy.std", "numpy.var"},
    {"numpy.argmin", "numpy.argmax"}, {"numpy.any", "numpy.all"}, {"numpy.floor", "numpy.ceil", "numpy.round"},
    {"numpy.real", "numpy.imag", "numpy.abs"}, {"numpy.log10", "numpy.log", "numpy.log2", "numpy.exp"},
    {"scipy.signal.sosfilt", "scipy.signal.sosfiltfilt"}, {"copy.copy", "copy.deepcopy"}, {"numpy.flip", "numpy.roll"},
    {"numpy.logical_and", "numpy.logical_or", "numpy.logical_xor"}, {"numpy.isinf", "numpy.isnan"},
    {"numpy.cumsum", "numpy.sum"}, {"numpy.hstack", "numpy.vstack"},
]
MGROUPS = [
    {"normal", "uniform", "standard_normal", "integers", "choice", "random", "poisson", "exponential", "laplace"},
    {"startswith", "endswith"}, {"is_dir", "is_file", "exists"}, {"min", "max", "mean", "sum"}, {"lower", "upper"}, {"split", "rsplit"},
    {"keys", "values", "items"},
]
# wrappers that may leave the value unchanged
NEUTRAL = {"numpy.array", "numpy.copy", "copy.deepcopy", "copy.copy", "builtins.list", "builtins.tuple", "builtins.float", "builtins.int",
           "numpy.squeeze", "builtins.bool", "builtins.str", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ascontiguousarray", "builtins.sorted",
           "numpy.real", "builtins.set", "builtins.iter", "numpy.abs", "numpy.unique", "numpy.flatnonzero", "builtins.round", "numpy.ravel",
           "numpy.transpose", "pathlib.Path", "builtins.dict", "numpy.mod", "numpy.min", "numpy.max", "builtins.frozenset", "numpy.clip", "numpy.broadcast_to"}
NEUTRAL_M = {"astype", "copy", "tolist", "item", "reshape", "flatten", "ravel", "squeeze", "resolve", "absolute", "keys", "strip"}
COMM = {"numpy.maximum", "numpy.minimum", "numpy.logical_and", "numpy.logical_or", "numpy.add", "numpy.multiply", "numpy.array_equal", "numpy.allclose", "numpy.isclose", "numpy.hypot", "math.gcd", "numpy.gcd"}
LOCAL = mk("root", "local")     # an object made and filled in the analysed code
OPAQUE = {"undef", "missing", "gen", "closure", "tmp", "bound"}

def lits(g):
    return list(g.a[0]) if g.op == "and" else ([] if g is TRUE else [g])


def dlits(g):
    return list(g.a[0]) if g.op == "or" else ([] if g is FALSE else [g])


_op = {}


def opaque(t):
    r = _op.get(t)
    if r is None:
        r = t.op in OPAQUE or any(opaque(c) for c in tm.children(t))
        _op[t] = r
    return r


_ub = {}


def unbound(t):
    """mentions a name that nothing binds"""
    r = _ub.get(t)
    if r is None:
        r = t.op == "ext" and t.a[0].startswith("builtins.") and "." not in t.a[0][9:] and t.a[0][9:].isidentifier() and not hasattr(builtins, t.a[0][9:])
        r = r or any(unbound(c) for c in tm.children(t))
        _ub[t] = r
    return r


def bare(t):
    """a list made of one whole list is a copy of it"""
    return t.a[0][0].a[0] if t.op == "listb" and len(t.a[0]) == 1 and t.a[0][0].op == "base" else t


def copied(t):
    """what a value is a copy of"""
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("copy.deepcopy", "copy.copy") and t.a[1]:
        t = t.a[1][0]
    return t


_us = {}


def unset(t):
    r = _us.get(t)
    if r is None:
        r = t.op == "attr" and t.a[0].op == "new" or any(unset(c) for c in tm.children(t))
        _us[t] = r
    return r


def is_free(t):
    """an input, or a field of one"""
    while t.op in ("attr",):
        t = t.a[0]
    return t.op == "root" or t.op == "iter"


def base_of(t):
    while t.op in ("sub", "attr"):
        t = t.a[0]
    return t


def simple(t):
    """arithmetic over inputs: equal normal forms exactly when equal values"""
    if t.op in ("num", "root", "iter", "ext"):
        return True
    if t.op == "attr":
        return simple(t.a[0])
    if t.op == "poly":
        return all(simple(a) for m, _ in t.a[0] for a, e in m)
    if t.op in ("sub",):
        return simple(t.a[0]) and simple(t.a[1])
    if t.op == "const":
        return True
    if t.op == "psum":
        return simple(t.a[1])
    if t.op in ("fdiv", "mod", "min", "max"):
        return all(simple(c) for c in tm.children(t))
    if t.op == "len":
        return True
    return False


_sz = {}


def size(t):
    r = _sz.get(t)
    if r is None:
        r = _sz[t] = 1 + sum(size(c) for c in tm.children(t))
    return r


def restrict(t, c):
    """t where condition c is known to hold"""
    m = {}
    for l in lits(c):
        m[l] = TRUE
        n = tm.not_(l)
        m[n] = FALSE
        if l.op == "eq":
            a, b = l.a
            if tm.is_const(b) and not tm.is_const(a):
                m[a] = b
            elif tm.is_const(a) and not tm.is_const(b):
                m[b] = a
            elif not tm.contains(a, b) and not tm.contains(b, a):
                m[max(a, b, key=lambda t: (size(t), t.key))] = min(a, b, key=lambda t: (size(t), t.key))
        elif l.op == "is" and NONE in l.a:
            x = l.a[0] if l.a[1] is NONE else l.a[1]
            m[x] = NONE
        elif l.op == "eq0":
            p = tm._pd(l.a[0])
            cand = [(mono, k) for mono, k in p.items() if len(mono) == 1 and mono[0][1] == 1]
            rest = [mono for mono in p if mono != ()]
            if len(rest) == 1 and cand:
                k0 = p.get((), 0)
                m[cand[0][0][0][0]] = tm.num(-k0 / cand[0][1])
        elif l.op == "le0":
            # sizes that cannot be negative
            p = l.a[0]
            if p.op == "len" or (p.op == "attr" and p.a[1] == "num") or p.op == "root":
                m[p] = ZERO
        elif l.op == "truth":
            pass
        elif l.op == "not" and l.a[0].op == "truth":
            x = l.a[0].a[0]
            m[mk("len", x)] = ZERO
    for x in tm.subterms(t) if c.op in ("le0", "lt0", "and") else ():
        if x.op in ("max", "min") and len(x.a[0]) == 2:
            # which of two values is the larger one
            p, q = x.a[0]
            le, ge = tm.le(p, q), tm.le(q, p)
            ls = lits(c)
            if any(l is le or l is tm.lt(p, q) for l in ls):
                m[x] = q if x.op == "max" else p
            elif any(l is ge or l is tm.lt(q, p) for l in ls):
                m[x] = p if x.op == "max" else q
    if not m:
        return t
    r = tm.subst(t, m)
    return r


def atoms_of(c):
    """the elementary conditions of a condition"""
    if c.op in ("and", "or"):
        return {q for x in c.a[0] for q in atoms_of(x)}
    return atoms_of(c.a[0]) if c.op == "not" else {c}


ARITH = {"poly", "num", "min", "max", "fdiv", "mod"}


def parts_of(t):
    if t.op == "poly":
        return [x for m, c in t.a[0] for x, e in m]
    if t.op in ("min", "max"):
        return list(t.a[0])
    return list(t.a) if t.op in ("fdiv", "mod") else []


def atoms_in(t):
    return [x for x in parts_of(t)]


def operands(t):
    """the quantities an arithmetic expression is made of"""
    if t.op in ARITH:
        return {q for x in parts_of(t) for q in operands(x)}
    return {t}


def value(t, env):
    if t.op == "num":
        return Fraction(t.a[0])
    if t.op == "poly":
        r = Fraction(0)
        for m, c in t.a[0]:
            for x, e in m:
                if int(e) != e:
                    raise ArithmeticError
                c = c * value(x, env) ** int(e)
            r += c
        return r
    if t.op in ("min", "max"):
        return (min if t.op == "min" else max)(value(x, env) for x in t.a[0])
    if t.op == "fdiv":
        return Fraction(value(t.a[0], env) // value(t.a[1], env))
    if t.op == "mod":
        return value(t.a[0], env) % value(t.a[1], env)
    return env[t]


class Differ:
    def __init__(self, recs_a, recs_b, labels_a=(), labels_b=(), types=None):
        self.ra, self.rb = recs_a, recs_b
        self.la, self.lb = set(labels_a), set(labels_b)
        self.bind = {}
        self.rbind = {}
        self.memo = {}
        self.pairs = {}
        self.active = set()
        self.depth = 0
        self.splits = 0
        self.alike = ()             # pairs of lengths that are the same
        self.copies = False         # whether a value is shared or copied matters
        self.same_loops = False     # the values are from passes of the same loops
        self.path, self.careful, self.memo2 = (), False, {}
        self.refused_a = self.refused_b = ()    # (loops, condition) of everything refused on either side
        self.assuming = False
        self.spent, self.nocase = 0, {}
        self.unfollowed = False                 # functions that are not known are called

    # ---------------------------------------------------------------- results
    def D(self, a, b, why=""):
        return [("D", why, a, b)]

    def U(self, a, b, why=""):
        return [("U", why, a, b)]

    def alpha(self, na, nb, a, b):
        """names of private storage may differ between the sides, consistently"""
        if self.bind.get(na) == nb:
            return []
        if na in self.bind or nb in self.rbind:
            return self.U(a, b, "different storage")
        if na in self.lb or nb in self.la:
            return self.D(a, b, "different storage")
        self.bind[na], self.rbind[nb] = nb, na
        return []

    def all(self, pairs):
        out = []
        for a, b in pairs:
            out += self.d(a, b)
        return out

    # ---------------------------------------------------------------- values
    def d(self, a, b):
        if a is b or self.alike and frozenset((a, b)) in self.alike:
            return []
        if self.careful:
            return self.dcareful(a, b)
        if self.depth == 0 and (self.refused_a or self.refused_b) and not self.assuming:
            r = self.d0(a, b)
            if r and any(q[0] == "D" for q in r):
                # once more, without the cases in which something is refused
                self.careful, self.memo2, self.work = True, {}, 0
                t0 = time.process_time()
                self.limit = t0 + min(10, 30 - self.spent)
                try:
                    q = self.dcareful(a, b)
                finally:
                    self.careful = False
                    self.spent += time.process_time() - t0
                if not q or not self.enough():
                    return q
                return [("U", *x[1:]) for x in r]
            return r
        return self.d0(a, b)

    def dcareful(self, a, b):
        k = (a, b, self.path)
        if k in self.memo2:
            return self.memo2[k]
        self.memo2[k] = []
        self.work += 1
        if self.enough():
            return self.U(a, b, "too many cases")
        self.depth += 1
        try:
            r = self.U(a, b, "too deep") if self.depth > 120 else self.d1(a, b)
        finally:
            self.depth -= 1
        if len(r) > 6:
            r = [x for x in r if x[0] == "U"][:3] + [x for x in r if x[0] == "D"][:3]
        self.memo2[k] = r
        return r

    def enough(self):
        return self.work > 4000 or time.process_time() > self.limit

    def under(self, c, a, b):
        """the difference where c holds"""
        if not self.careful:
            return self.d(a, b)
        old = self.path
        self.path = old + (c,)
        try:
            if a is not b and self.impossible(tm.and_(*self.path)):
                return []
            return self.d(a, b)
        finally:
            self.path = old

    def ordered(self, p, q):
        """one asks for the order, the other for equality, of something that a loop brings about: which values it can
        take at all is not known here"""
        def kinds(g):
            return [("eq" if x.op in ("eq", "eq0") else "lt", y) for x in atoms_of(g) if x.op in ("eq", "eq0", "lt0", "le0") for y in tm.subterms(x) if y.op in ("final", "phi", "last")]
        P, Q = kinds(p), kinds(q)
        return any(k != l and x is y or k != l and x.op == y.op for k, x in P for l, y in Q)

    def impossible(self, g):
        from .bdd import Graphs, Big
        if g is FALSE:
            return True
        if g in self.nocase:
            return self.nocase[g]
        r = self.nocase[g] = self.impossible1(g)
        return r

    def impossible1(self, g):
        from .bdd import Graphs, Big
        x = tm.and_(self.known(g, self.refused_a, 30), self.known(g, self.refused_b, 30))
        try:
            return Graphs().build(x) is False
        except Big:
            return False

    def d0(self, a, b):
        k = (a, b)
        if k in self.memo:
            if k in self.active and a.op not in ("phi", "prev") and b.op not in ("phi", "prev"):
                return self.U(a, b, "circular comparison")
            return self.memo[k]
        self.memo[k] = []       # recurrences are compared coinductively
        self.active.add(k)
        self.depth += 1
        try:
            if self.depth > 120:
                r = self.U(a, b, "too deep")
            else:
                r = self.d1(a, b)
        finally:
            self.depth -= 1
            self.active.discard(k)
        if len(r) > 6:
            r = [x for x in r if x[0] == "U"][:3] + [x for x in r if x[0] == "D"][:3]
        self.memo[k] = r
        return r

    def d1(self, a, b):
        r = self.d2(a, b)
        if r and r[0][0] == "D" and self.coincide(a, b):
            return self.U(a, b, "written differently")
        return r

    def d2(self, a, b):
        a2, b2 = bare(a), bare(b)
        if a2 is not a or b2 is not b:
            return self.d(a2, b2)
        if unbound(a) and not unbound(b):
            return self.D(a, b, "a name that is not defined")
        if unset(a) and not unset(b):
            return self.U(a, b, "a field that may not be set") if self.unfollowed else self.D(a, b, "a field that is never set")
        if a.op in ("undef", "missing") or b.op in ("undef", "missing"):
            if a.op == "missing" and b.op != "missing":
                return self.D(a, b, "required argument not given")
            return self.U(a, b, "value not known")
        if tm.is_boolv(a) and tm.is_boolv(b):
            return self.db(a, b)
        if a.op == "ite" or b.op == "ite":
            return self.dite(a, b)
        if tm.is_const(a) and tm.is_const(b):
            return self.D(a, b, "different constant")
        if a.op == "first" and b.op == "first":
            return self.loops(a.a[0], b.a[0], a, b) + self.d(a.a[1], b.a[1]) + self.d(a.a[2], b.a[2])
        if a.op in ("poly", "num") or b.op in ("poly", "num"):
            return self.dpoly(a, b)
        if a.op == b.op:
            f = getattr(self, "d_" + a.op, None)
            if f:
                return f(a, b)
            if len(a.a) == len(b.a):
                return self.gen(a.a, b.a, a, b)
            return self.U(a, b, "different form")
        return self.heads(a, b)

    def gen(self, xs, ys, a, b):
        out = []
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                out += self.d(x, y)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return self.U(a, b, "different form")
                out += self.gen(x, y, a, b)
            elif x != y:
                return self.U(a, b, "different form")
        return out

    def heads(self, a, b):
        """different outermost operation"""
        for x, y in ((a, b), (b, a)):
            if y is NONE and x.op in ("poly", "num", "strcat", "alloc", "alloc", "mod", "sqrt", "min", "max", "fdiv", "pow", "listb", "tuple", "dictb", "writes", "new") and not opaque(x):
                return self.D(a, b, "None instead of a value")
            if y.op in ("root", "attr", "iter") and is_free(y) and y is not LOCAL and x.op in ("new", "alloc", "listb", "tuple", "dictb") and not opaque(x):
                if self.neutral(x, y):
                    return self.U(a, b, "conversion")
                return self.D(a, b, "a new object instead of the one given")
            if y is NONE and tm.is_boolv(x) and not opaque(x):
                return self.D(a, b, "None instead of a condition")
            if y.op == "ext" and y.a[0] in ("numpy.inf", "numpy.nan", "numpy.pi", "math.inf", "math.pi") and x.op in ("root", "attr", "sub") and is_free(base_of(x)) and not opaque(x):
                return self.D(a, b, "constant instead of a value that varies")
            if y.op == "const" or y.op == "num":
                if x.op in ("root", "attr", "new", "ref") and not opaque(x):
                    return self.D(a, b, "constant instead of a value that varies")
                if x.op == "sub" and base_of(x).op == "root" and "." not in base_of(x).a[0] and base_of(x).a[0] != "local" and not opaque(x):
                    return self.D(a, b, "constant instead of a value that varies")
                if x.op in ("call", "strcat", "listb", "tuple", "dictb", "writes", "sub") and y is NONE and not opaque(x):
                    return self.D(a, b, "None instead of a value")
                if x.op in ("listb", "tuple", "dictb", "new"):
                    return self.D(a, b, "constant instead of a container")
                return self.U(a, b, "constant instead of an expression")
            if x.op == "dictb" and y.op == "writes" and y.a[0].op == "call" and all(e.op == "ent" for e in x.a[0]) and not opaque(x) and not opaque(y):
                return self.D(a, b, "what was there before is left out" if x is a else "what was there before is kept")
            if self.copies and is_free(y) and x is b and x.op == "call" and x.a[0] is mk("ext", "copy.deepcopy") and x.a[1] == (y,):
                return self.D(a, b, "shared instead of copied")
            if NONE in (x.a[0] if x.op == "attr" else None, y.a[0] if y.op == "attr" else None):
                return self.D(a, b, "a field of None")
            if y.op in ("root",) and x.op in ("root", "attr"):
                return self.D(a, b, "a different input") if self.declared(a, b) else self.U(a, b, "a different input")
            if {x.op, y.op} in ({"mod", "fdiv"}, {"min", "max"}) and not self.gen(x.a, y.a, a, b):
                return self.D(a, b, "a different operation")
            if x.op in ("final",) and x.a[0].op == "phi":
                rec = (self.ra if x is a else self.rb).get(x.a[0])
                if rec is not None:
                    r = self.lost_loop(x.a[0], rec, y, x is a)
                    if r:
                        return self.D(a, b, r)
            if self.same_loops and x.op == "keys" and is_free(x.a[0]) and is_free(y) and y is not x.a[0]:
                return self.D(a, b, "elements of a different container")
            if self.independent(y, x):
                return self.D(a, b, "does not depend on the input asked for" if x is a else "a plain input instead of what is asked for")
            # one side leaves out an operation of the other
            if tm.contains(x, y) and x is not y and not opaque(x):
                if self.neutral(x, y):
                    return self.U(a, b, "conversion")
                return self.D(a, b, "an operation is left out" if x is b else "an additional operation")
        x, y = copied(a), copied(b)
        if (x is not a or y is not b) and is_free(x) and is_free(y) and x is not y and self.d(x, y):
            return self.d(x, y)
        if self.generic(a, b):
            return self.D(a, b, "a different function of the same quantities")
        return self.U(a, b, "different operations")

    def generic(self, a, b):
        """whether two arithmetic expressions of the same quantities differ at every one of several unrelated assignments"""
        if opaque(a) or opaque(b) or not {a.op, b.op} <= ARITH or not ({a.op, b.op} & {"min", "max", "fdiv", "mod"} or any(x.op in ARITH for t in (a, b) for x in atoms_in(t))):
            return False
        xs = operands(a)
        if not all(self.solid(x) or x.op == "len" for x in xs):
            return False
        v = self.samples(a, b)
        return v is not None and not any(v)

    def samples(self, a, b):
        """at which of several unrelated assignments two arithmetic expressions of the same quantities agree"""
        xs = operands(a)
        if not xs or xs != operands(b) or len(xs) > 4:
            return None
        out = []
        for vals in ((97, 211, 1009, 53), (1009, 97, 211, 5003), (211, 1009, 97, 601), (53, 61, 5003, 211), (10007, 401, 307, 1201), (307, 10007, 53, 401)):
            env = {x: Fraction(v) for x, v in zip(sorted(xs, key=lambda t: t.key), vals)}
            try:
                out.append(value(a, env) == value(b, env))
            except ArithmeticError:
                return None
        return out

    def coincide(self, a, b):
        """whether two expressions that are written differently may well be the same"""
        if not {a.op, b.op} <= ARITH or not ({a.op, b.op} & {"min", "max", "fdiv", "mod"} or any(x.op in ARITH for t in (a, b) for x in atoms_in(t))):
            return False
        v = self.samples(a, b)
        return v is not None and all(v)

    def independent(self, y, x):
        """y is an input (or part of one, or a sum with one) of which x knows nothing"""
        r = y
        if y.op in ("call", "poly") and y is not x:
            z = self.unwrapped(y)
            if z.op == "poly":
                for m, c in z.a[0]:
                    if len(m) == 1 and m[0][1] == 1:
                        q = self.unwrapped(m[0][0])
                        if is_free(q) and q is not z and sum(tm.contains(u, base_of(q)) for n, e in z.a[0] for u, v in n) == 1 and self.independent(q, x):
                            return True
            return False
        while r.op in ("attr", "sub"):
            r = r.a[0]
        return r.op == "root" and "." not in r.a[0] and r.a[0] != "local" and not opaque(x) and not tm.contains(x, r) and x.op not in ("ext", "fnref", "clsref")

    def unwrapped(self, t):
        """without conversions that keep the values"""
        while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.array", "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.transpose") and len(t.a[1]) == 1 and not t.a[2]:
            t = t.a[1][0]
        return t

    def lost_loop(self, p, rec, y, left):
        """y leaves out what the loop with recurrence rec does to its start value"""
        init, k, nxt = rec
        if opaque(init) or opaque(nxt) or opaque(y):
            return None
        eq = (lambda u, v: not self.d(u, v)) if left else (lambda u, v: not self.d(v, u))
        if eq(init, y) and nxt is not p and (nxt.op == "writes" or nxt.op == "poly"):
            return "the effect of a loop is left out" if not left else "an additional loop"
        if y.op == "writes" and nxt.op == "writes" and len(y.a[1]) == len(nxt.a[1]) and nxt.a[0] is p and eq(init, y.a[0]):
            out = []
            for u, v in zip(nxt.a[1], y.a[1]):
                if u.op != "wr" or v.op != "wr":
                    return None
                out += (self.dindex(u.a[2], v.a[2]) + self.d(u.a[3], v.a[3])) if left else (self.dindex(v.a[2], u.a[2]) + self.d(v.a[3], u.a[3]))
            if out and all(q[0] == "D" for q in out):
                return out[0][1]
        return None

    def declared(self, a, b):
        return True

    def neutral(self, x, y):
        """x wraps y only by conversions"""
        while x is not y:
            if x.op == "alloc":
                x = x.a[0]
            elif x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in NEUTRAL and x.a[1]:
                x = x.a[1][0]
            elif x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in NEUTRAL_M:
                x = x.a[0].a[0]
            elif x.op in ("listb", "tuple", "dictb") and len(x.a[0]) == 1 and isinstance(x.a[0][0], T):
                x = x.a[0][0]
                if x.op == "base":
                    if self.copies:
                        return False
                    x = x.a[0]
                else:
                    x = x.a[2] if x.op == "ent" else x
            elif x.op == "sub" and self.free_index(x.a[1]):
                x = x.a[0]
            elif x.op == "mod":
                x = x.a[0]
            elif x.op == "writes":
                return x.a[0] is not y
            elif x.op in ("final", "phi", "last", "first", "min", "max", "redinf", "keys", "len"):
                return True
            elif x.op == "iter":
                return True
            else:
                return False
        return True

    def free_index(self, i):
        if i is FULL or i is ELL or i is NONE:
            return True
        return i.op == "tuple" and all(self.free_index(x) for x in i.a[0])

    # ---------------------------------------------------------------- arithmetic
    def dpoly(self, a, b):
        pa, pb = tm._pd(a), tm._pd(b)
        if a.op == "const" or b.op == "const":
            return self.heads(a, b)
        ra = {m: c for m, c in pa.items() if pb.get(m) != c}
        rb = {m: c for m, c in pb.items() if pa.get(m) != c}
        if not ra and not rb:
            return []
        ats = {x for m in list(ra) + list(rb) for x, e in m}
        if any(opaque(x) for x in ats):
            return self.U(a, b, "expression not known")
        ic = self.case(ats)
        if ic is not None and self.splits <= 7:
            n = tm.not_(ic)
            at, bt, ae, be = restrict(a, ic), restrict(b, ic), restrict(a, n), restrict(b, n)
            if (at is not a or bt is not b) and (ae is not a or be is not b):
                self.splits += 1
                try:
                    r = self.under(ic, at, bt) + self.under(n, ae, be)
                finally:
                    self.splits -= 1
                if not r or all(q[0] == "D" for q in r):
                    return r
        hard_a = {x for m in ra for x, e in m if not simple(x)}
        hard_b = {x for m in rb for x, e in m if not simple(x)}
        if not (hard_a | hard_b):
            return self.D(a, b, "different expression")
        if hard_a == hard_b:
            return self.D(a, b, "different expression")
        # the same monomials up to the atoms that differ
        if len(ra) == len(rb):
            used, out, ok = set(), [], True
            for m, c in ra.items():
                best = None
                for n, e in rb.items():
                    if n in used:
                        continue
                    r = self.dmono(m, c, n, e, a, b)
                    if r is None:
                        continue
                    if best is None or score(r) < score(best[1]):
                        best = (n, r)
                if best is None:
                    ok = False
                    break
                used.add(best[0])
                out += best[1]
            if ok:
                return out
        if (not hard_a - hard_b) or (not hard_b - hard_a):
            # every unresolved factor of one side also occurs on the other
            big = hard_a ^ hard_b
            if all(x.op == "call" or x.op == "sub" or x.op == "ite" for x in big) and (not ra or not rb or len(pa) != len(pb)):
                return self.D(a, b, "a term is left out" if len(pa) < len(pb) else "an additional term") if all(self.solid(x) for x in big) else self.U(a, b, "different terms")
            if not big:
                return self.D(a, b, "different expression")
        for x, y in ((a, b), (b, a)):
            # a factor of the product is left out
            if x.op == "poly" and len(x.a[0]) == 1:
                (mono, c), = x.a[0]
                if any(at is y for at, e in mono):
                    rest = [at for at, e in mono if at is not y]
                    if all(self.solid(r) for r in rest):
                        return self.D(a, b, "a factor is left out" if x is b else "an additional factor")
            # a remainder of a value without bound
            for m in (ra if x is a else rb):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod":
                    at = m[0][0]
                    if tm.subst(x, {at: at.a[0]}) is y and self.unbounded(at.a[0]) and "lcm" not in str(at.a[1]):
                        return self.D(a, b, "a remainder is taken" if x is a else "a remainder is left out")
        for x, y in ((a, b), (b, a)):
            if x.op in ("poly", "call") and self.independent(x, y):
                return self.D(a, b, "does not depend on the input asked for" if x is b else "depends on another input")
        if self.generic(a, b):
            return self.D(a, b, "a different function of the same quantities")
        return self.U(a, b, "different expression")

    def unbounded(self, t):
        """grows with an input that has no bound"""
        return any(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("root", "phi") for m in tm._pd(t)) and not opaque(t)

    def case(self, ats):
        """the condition of a conditional value among the factors"""
        for x in sorted(ats, key=lambda t: t.key):
            if x.op == "ite" and not opaque(x.a[0]) and x.a[0].op not in ("and", "or"):
                return x.a[0]
        return None

    def solid(self, x):
        """certainly neither always 0 nor always 1"""
        if is_free(x) or x.op in ("sub",):
            return True
        if x.op == "call":
            return True
        if x.op == "sqrt" or x.op == "pow":
            return True
        if x.op == "ite":
            return any(self.solid(y) or y.op == "num" for y in x.a[1:])
        return simple(x)

    def dmono(self, m, c, n, e, a, b):
        if len(m) != len(n):
            return None
        ms = [x for x in m if x not in n]
        ns = [x for x in n if x not in m]
        if len(ms) != len(ns):
            return None
        out = []
        left = list(ns)
        for x, ex in ms:
            best = None
            for y, ey in left:
                r = list(self.d(x, y))
                if ex != ey:
                    r += self.D(x, y, "different power") if not r else self.U(x, y, "different power")
                if best is None or score(r) < score(best[1]):
                    best = ((y, ey), r)
            left.remove(best[0])
            out += best[1]
        if c != e:
            out += self.D(a, b, "different coefficient")
        return out

    # ---------------------------------------------------------------- conditionals
    def dite(self, a, b):
        if self.splits > 7:
            return self.U(a, b, "too many cases")
        if a.op == "ite" and b.op == "ite":
            if a.a[0] is b.a[0]:
                r = []
                for c, x, y in ((a.a[0], a.a[1], b.a[1]), (tm.not_(a.a[0]), a.a[2], b.a[2])):
                    q = self.under(c, x, y)
                    if q:
                        # what is chosen may be stated again within the values
                        x1, y1 = restrict(x, c), restrict(y, c)
                        if x1 is not x or y1 is not y:
                            q = self.under(c, x1, y1)
                    r += q
                return r
        opts = []
        self.splits += 1
        try:
            for x in ([a, b] if a.op == "ite" else [b]):
                if x.op != "ite":
                    continue
                c = x.a[0]
                n = tm.not_(c)
                at, ae = restrict(a, c), restrict(a, n)
                bt, be = restrict(b, c), restrict(b, n)
                if at is a and bt is b or ae is a and be is b:
                    continue
                r = self.under(c, at, bt) + self.under(n, ae, be)
                if not r:
                    return []
                other = b if x is a else a
                if opaque(c) or any(self.ordered(c, y.a[0]) for y in (at, ae, bt, be, other) if y.op == "ite"):
                    r = [("U",) + q[1:] for q in r]
                opts.append(r)
        finally:
            self.splits -= 1
        if a.op == "ite" and b.op == "ite":
            r1 = self.d(a.a[1], b.a[1]) + self.d(a.a[2], b.a[2])
            if not r1 or all(q[0] == "D" for q in r1):
                r = self.db(a.a[0], b.a[0])
                if not r1:
                    return r        # the same values: only the condition may differ
                if r and r1:
                    r = [("U",) + q[1:] for q in r]      # different cases of different things may still be the same
                opts.append(r + r1)
            else:
                opts.append(r1 + self.db(a.a[0], b.a[0]))
        if not opts:
            return self.U(a, b, "different cases")
        # all views of the difference must be definite
        und = [q for r in opts for q in r if q[0] == "U"]
        if und and all(any(q[0] == "U" for q in r) for r in opts):
            return und[:2]
        for r in opts:
            if all(q[0] == "D" for q in r):
                return r[:3]
        return und[:2]

    # ---------------------------------------------------------------- conditions
    def db(self, a, b):
        r = self.db0(a, b)
        if r and (self.refused_a or self.refused_b) and not self.assuming:
            # conditions may leave out what is refused anyway
            x, y = self.known(a, self.refused_a), self.known(b, self.refused_b)
            if x is not a or y is not b:
                self.assuming = True
                try:
                    if not self.db0(x, y):
                        return []
                finally:
                    self.assuming = False
        return r

    def known(self, c, refused, most=8):
        """the condition, and that nothing is refused in the same passes of the loops it is about"""
        if not refused:
            return c
        parts = set(tm.subterms(c))
        more = []
        for loops, bad in refused:
            if all(mk("iter", L) in parts for L in loops) and (loops or any(q in parts for q in atoms_of(bad))):
                more.append(tm.not_(bad))
        return tm.and_(c, *more) if 0 < len(more) < most else c

    def db0(self, a, b):
        if a is b:
            return []
        if a.op == "ite" or b.op == "ite":
            r = self.graphs(a, b)
            if r is None:
                r = self.dite(a, b)
            return r
        if any(x.op == "not" and x.a[0].op == "ite" for x in (a, b)):
            r = self.graphs(a, b)
            if r is not None:
                return r
        if a.op in ("and", "or") or b.op in ("and", "or") or TRUE in (a, b) or FALSE in (a, b):
            t = self.prop(a, b)
            if t is True:
                return []
            if t is None or self.has_choice(a, b):
                r = self.graphs(a, b)
                if r is not None:
                    return r
            if a.op != b.op and "and" in (a.op, b.op) and "or" in (a.op, b.op):
                if set(lits(a) if a.op == "and" else dlits(a)) == set(lits(b) if b.op == "and" else dlits(b)):
                    return self.D(a, b, "'and' and 'or' exchanged")
            get = dlits if "or" in (a.op, b.op) and "and" not in (a.op, b.op) else lits
            A, B = get(a), get(b)
            RA = [x for x in A if x not in B]
            RB = [x for x in B if x not in A]
            r = self.dlitset(RA, RB, a, b)
            if any(q[0] == "U" for q in r):
                g = self.graphs(a, b)
                r = g if g is not None else r
            return r
        return self.dlit(a, b)

    def graphs(self, a, b):
        """both conditions as decision graphs over their elementary conditions: [] when equal, definite when they differ
        although they are about the same conditions or one is about fewer, None otherwise"""
        r = self.graphs1(a, b, False)
        if r == []:
            return r
        if self.has_choice(a, b):
            # elementary conditions about conditional values are not independent
            return self.graphs1(a, b, True)
        return r

    def implies(self, a, b):
        from .bdd import Graphs, Big
        B = Graphs(about=(a, b), cases=True)
        try:
            x = B.build(a)
            B.same = lambda p, q: not self.d(p, q)
            return B.ite(x, B.ite(B.build(b), False, True), False) is False
        except Big:
            return False

    def has_choice(self, a, b):
        from .bdd import choice
        return any(choice(x) is not None for x in atoms_of(a) | atoms_of(b))

    def graphs1(self, a, b, cases):
        from .bdd import Graphs, Big
        B = Graphs(about=(a, b), cases=cases)
        try:
            x = B.build(a)
            own = B.support(x)
            B.same = lambda p, q: not self.d(p, q)
            y = B.build(b)
        except Big:
            return None
        if x is y:
            return []
        sa, sb = B.support(x), B.support(y)
        if sa <= sb or sb <= sa:
            if any(opaque(B.atoms[i]) for i in sa ^ sb):
                return None
            try:
                n = B.ite(x, B.ite(y, False, True), y)
                w = next((p for p in B.paths(n) if self.feasible({B.atoms[i]: v for i, v in p.items()})), None)
            except Big:
                return None
            if w is None:
                return []
            return self.D(a, b, "different condition" + (": left out " + ", ".join(tm.show(B.atoms[i], 4) for i in sorted(sb - sa)[:3]) if sb - sa else ""))
        return None

    def dlitset(self, RA, RB, a, b):
        if not RA and not RB:
            return []
        pairs, left = [], list(RB)
        out = []
        restA = []
        for x in RA:
            best = None
            for y in left:
                r = self.dlit(x, y)
                sc = (sum(1 for q in r if q[0] == "U"), len(r))
                if best is None or sc < best[0]:
                    best = (sc, y, r)
            if best is not None and not best[2]:
                left.remove(best[1])
            else:
                restA.append(x)
        restB = left
        for x in restA:
            if not restB:
                out += self.extra(x, a, b, "additional condition")
                continue
            best = None
            for y in restB:
                r = self.dlit(x, y)
                sc = (sum(1 for q in r if q[0] == "U"), len(r))
                if best is None or sc < best[0]:
                    best = (sc, y, r)
            restB = [y for y in restB if y is not best[1]]
            out += best[2]
        for y in restB:
            out += self.extra(y, a, b, "condition left out")
        return out

    def extra(self, l, a, b, why):
        if opaque(l) or l.op in ("exists",) and False:
            return self.U(a, b, why)
        return self.D(a, b, f"{why}: {tm.show(l, 5)}")

    def prop(self, a, b):
        """propositional equivalence over the literals of both; None if too large"""
        ats = []

        def collect(g):
            if g.op in ("and", "or"):
                for x in g.a[0]:
                    collect(x)
            elif g.op == "ite":
                for x in g.a:
                    collect(x)
            elif g.op == "not":
                collect(g.a[0])
            elif g in (TRUE, FALSE):
                pass
            else:
                n = tm.not_(g)
                k = g if g.op != "not" and (n.op == "not" or g.key < n.key) else n
                if k not in ats:
                    ats.append(k)
        collect(a)
        collect(b)
        if len(ats) > 10:
            return None

        def ev(g, v):
            if g is TRUE:
                return True
            if g is FALSE:
                return False
            if g.op == "and":
                return all(ev(x, v) for x in g.a[0])
            if g.op == "or":
                return any(ev(x, v) for x in g.a[0])
            if g.op == "not":
                return not ev(g.a[0], v)
            if g.op == "ite":
                return ev(g.a[1], v) if ev(g.a[0], v) else ev(g.a[2], v)
            if g in v:
                return v[g]
            return not v[tm.not_(g)]
        for i in range(1 << len(ats)):
            v = {x: bool(i >> j & 1) for j, x in enumerate(ats)}
            if not self.feasible(v):
                continue
            if ev(a, v) != ev(b, v):
                return False
        return True

    def feasible(self, v):
        """integer bounds and different constants for the same value"""
        lo, hi, eqs = {}, {}, {}
        for x, t in v.items():
            if x.op == "eq":
                p, q = x.a
                if tm.is_const(q) or tm.is_const(p):
                    k, c = (p, q) if tm.is_const(q) else (q, p)
                    if t:
                        if k in eqs and eqs[k] is not c:
                            return False
                        eqs[k] = c
                continue
            if x.op in ("le0", "lt0"):
                d = dict(tm._pd(x.a[0]))
                k0 = d.pop((), 0)
                if not d:
                    continue
                nm = tuple(sorted(d.items(), key=lambda q: tm._mkey(q[0])))
                ng = tuple((m, -c) for m, c in nm)
                sg = 1
                if ng in lo or ng in hi or tm._mkey(nm[0][0]) and nm[0][1] < 0:
                    nm, sg = ng, -1
                # sg*p' + k0 <= 0  (p' = base form)
                up = t
                strict = (x.op == "lt0") == t
                bound = -k0 * sg
                if (sg == 1) == up:
                    h = hi.get(nm)
                    if h is None or (bound, not strict) < (h[0], not h[1]):
                        hi[nm] = (bound, strict)
                else:
                    l = lo.get(nm)
                    if l is None or (bound, strict) > l:
                        lo[nm] = (bound, strict)
        for k in hi:
            if k in lo:
                if lo[k][0] > hi[k][0] or (lo[k][0] == hi[k][0] and (lo[k][1] or hi[k][1])):
                    return False
        return True

    def dlit(self, a, b):
        if a is b:
            return []
        if a.op in ("and", "or") or b.op in ("and", "or"):
            if a.op == b.op:
                g = lits if a.op == "and" else dlits
                A, B = g(a), g(b)
                return self.dlitset([x for x in A if x not in B], [x for x in B if x not in A], a, b)
            return self.U(a, b, "different condition")
        na, nb = a.op == "not", b.op == "not"
        if na and nb:
            return self.dlit(a.a[0], b.a[0])
        if na != nb:
            x, y = (a.a[0], b) if na else (a, b.a[0])
            r = self.dlit(x, y)
            if not r:
                return self.D(a, b, "condition negated")
            return [("U",) + q[1:] for q in r]
        cmp_ = ("lt0", "le0", "eq0")
        if a.op in cmp_ and b.op in cmp_:
            p, q = a.a[0], b.a[0]
            if p is q:
                return self.U(a, b, "a bound of a value that a loop counts") if self.ordered(a, b) else self.D(a, b, "different comparison")
            r = self.d(p, q)
            if a.op != b.op:
                if not r:
                    return self.D(a, b, "different comparison")
                n = self.d(tm.neg(p), q)
                if not n:
                    return self.D(a, b, "comparison reversed")
            if r and all(x[0] == "D" for x in r) and simple(p) and simple(q) and a.op == b.op:
                return self.D(a, b, "different bound")
            if r and any(x[0] == "U" for x in r):
                n = self.d(tm.neg(p), q)
                if not n:
                    return self.D(a, b, "comparison reversed")
            return r
        if a.op != b.op:
            for x, y in ((a, b), (b, a)):
                t = x.a[0] if x.op == "truth" else x
                if y.op == "is" and NONE in y.a and t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.any", "numpy.all") and not opaque(t):
                    n = y.a[0] if y.a[1] is NONE else y.a[1]
                    if is_free(n) and any(n is z for z in t.a[1]):
                        return self.D(a, b, "whether anything in it is nonzero instead of whether it is given")
            return self.U(a, b, "different condition")
        if a.op in ("eq", "is"):
            h1 = self.d(a.a[0], b.a[0]), self.d(a.a[1], b.a[1])
            r1 = h1[0] + h1[1]
            if not r1:
                return []
            h2 = self.d(a.a[0], b.a[1]), self.d(a.a[1], b.a[0])
            r2 = h2[0] + h2[1]
            if not r2:
                return []
            if all(h1) != all(h2):
                return r2 if all(h1) else r1    # one side is the same
            s1, s2 = sum(q[0] == "U" for q in r1), sum(q[0] == "U" for q in r2)
            if s1 == s2:
                return r1 if len(r1) <= len(r2) else r2
            return r1 if s1 < s2 else r2
        if a.op == "exists":
            return self.d(a.a[0], b.a[0]) + self.db(a.a[1], b.a[1])
        if a.op == "exc":
            return [] if a.a[0] == b.a[0] else self.U(a, b)
        return self.gen(a.a, b.a, a, b)

    # ---------------------------------------------------------------- structures
    def d_root(self, a, b):
        na, nb = a.a[0], b.a[0]
        if "." in na or "." in nb or na == "local" or nb == "local":
            return self.alpha(na, nb, a, b)
        return self.D(a, b, "a different input")

    def d_new(self, a, b):
        qa, qb = a.a[0].rpartition(".")[2], b.a[0].rpartition(".")[2]
        r = []
        if qa != qb:
            r = self.alpha("new " + qa, "new " + qb, a, b)
        if a.a[1] != b.a[1]:
            r = r + self.U(a, b, "different object")
        return r + self.gen(a.a[2:], b.a[2:], a, b)

    def d_ext(self, a, b):
        na, nb = a.a[0], b.a[0]
        for g in GROUPS:
            if na in g and nb in g:
                return self.D(a, b, "a different function")
        if na.startswith("builtins.") and nb.startswith("builtins.") and (na[9:].endswith("Error") and nb[9:].endswith("Error")):
            return self.U(a, b, "a different exception")
        return self.U(a, b, "a different function")

    def d_fnref(self, a, b):
        if a.a[0].rpartition(".")[2] == b.a[0].rpartition(".")[2]:
            return []
        return self.U(a, b, "a different function")

    d_clsref = d_fnref

    def d_attr(self, a, b):
        x, y = copied(a.a[0]), copied(b.a[0])
        r = self.d(x, y) if (x is not a.a[0]) != (y is not b.a[0]) else self.d(a.a[0], b.a[0])     # a field of a copy is the field
        if a.a[1] == b.a[1]:
            return r
        for g in MGROUPS:
            if a.a[1] in g and b.a[1] in g:
                return r + self.D(a, b, "a different method")
        if is_free(a) and is_free(b):
            return r + self.D(a, b, "a different field") if not r else r
        return r + self.U(a, b, "a different attribute")

    def d_sub(self, a, b):
        rb_ = self.d(a.a[0], b.a[0])
        ri = self.dindex(a.a[1], b.a[1])
        if not rb_ and not ri:
            return []
        if rb_ and ri:
            # one side indexes what the other already has
            for x, y in ((a, b), (b, a)):
                if tm.contains(x, y):
                    return self.heads(a, b)
        return rb_ + ri

    def dindex(self, i, j):
        if i is j:
            return []
        if i.op == "slice" and j.op != "slice" or j.op == "slice" and i.op != "slice":
            if j.op in ("num", "const", "iter") or i.op in ("num", "const", "iter"):
                return self.D(i, j, "an element instead of a range")
            return self.U(i, j, "different index")
        if i.op == "tuple" and j.op == "tuple":
            xs, ys = list(i.a[0]), list(j.a[0])
            if len(xs) != len(ys):
                xs2, ys2 = [x for x in xs if x is not ELL], [y for y in ys if y is not ELL]
                if len(xs2) == len(ys2):
                    xs, ys = xs2, ys2
                else:
                    return self.U(i, j, "different index")
            out = []
            for x, y in zip(xs, ys):
                if {x, y} == {ELL, FULL} and len(xs) == 2 and getattr(self, "two_dim", False):
                    continue
                if {x, y} == {ELL, FULL}:
                    out += self.U(x, y, "'...' and ':'")
                elif (x is NONE) != (y is NONE):
                    if sorted(q.key for q in xs) == sorted(q.key for q in ys):
                        return self.D(i, j, "axes exchanged")
                    out += self.U(x, y, "different axes")
                else:
                    out += self.dindex(x, y)
            return out
        if (i.op == "tuple") != (j.op == "tuple"):
            return self.U(i, j, "different index")
        return self.d(i, j)

    def d_slice(self, a, b):
        out = []
        plain = all(q.a[2] is NONE for q in (a, b))
        for n, (x, y) in enumerate(zip(a.a, b.a)):
            if n == 0 and plain:
                x, y = (ZERO if q is NONE else q for q in (x, y))
            if x is y:
                continue
            if x is NONE or y is NONE:
                o = y if x is NONE else x
                out += self.D(a, b, "range bound left out") if not opaque(o) and (simple(o)) else self.U(a, b, "range bound left out")
            else:
                out += self.d(x, y)
        return out

    def d_call(self, a, b):
        fa, fb = a.a[0], b.a[0]
        rf = self.d(fa, fb)
        if any(q[0] == "U" for q in rf):
            for x, y in ((a, b), (b, a)):
                if tm.contains(x, y) and not opaque(x):
                    if self.neutral(x, y):
                        return self.U(a, b, "conversion")
                    return self.D(a, b, "an operation is left out" if x is b else "an additional operation")
            return rf
        return rf + self.dargs(a.a[1], a.a[2], b.a[1], b.a[2], a, b, fa)

    def dargs(self, pa, ka, pb, kb, a, b, f):
        out = []
        n = min(len(pa), len(pb))
        for x, y in zip(pa[:n], pb[:n]):
            if isinstance(x, tuple):
                x = x[1]
            if isinstance(y, tuple):
                y = y[1]
            out += self.d(x, y)
        known = f is not None and f.op == "ext"
        if out and len(pa) == len(pb) > 1 and not (known and (f.a[0] in COMM)):
            if len(pa) == 2 and all(not isinstance(x, tuple) for x in pa + pb) and not self.d(pa[0], pb[1]) and not self.d(pa[1], pb[0]) and not opaque(a):
                out = self.D(a, b, "arguments exchanged")
        if len(pa) != len(pb):
            out += self.U(a, b, "different number of arguments")
        da, db_ = dict(ka), dict(kb)
        for k in list(da) + [k for k in db_ if k not in da]:
            if k in da and k in db_:
                out += self.d(da[k], db_[k])
            elif k == "#":
                out += self.U(a, b, "different occurrence of the call")
            else:
                from .lib import SIG
                nm = f.a[0] if known else ("." + f.a[1] if f is not None and f.op == "attr" else "")
                if nm in SIG and any(p == k for p, _ in SIG[nm]):
                    out += self.D(a, b, f"argument {k} {'left out' if k in db_ else 'added'}")
                else:
                    out += self.U(a, b, f"argument {k} {'left out' if k in db_ else 'added'}")
        return out

    def d_tuple(self, a, b):
        if len(a.a[0]) != len(b.a[0]):
            return self.U(a, b, "different number of elements")
        return self.all(zip(a.a[0], b.a[0]))

    def d_strcat(self, a, b):
        xs, ys = a.a[0], b.a[0]
        if len(xs) == len(ys):
            return self.all(zip(xs, ys))
        cx, cy = [x for x in xs if not tm.is_str(x)], [y for y in ys if not tm.is_str(y)]
        if cx == cy or len(cx) != len(cy):
            return self.D(a, b, "different text")
        return self.U(a, b, "different text")

    def loops(self, la, lb, a, b):
        if tuple(la) == tuple(lb):
            return []
        if len(la) != len(lb):
            return self.U(a, b, "different loops")
        if sorted(x.key for x in la) == sorted(x.key for x in lb):
            return []
        out = []
        for x, y in zip(la, lb):
            out += self.d(x, y)
        return out

    def d_loop(self, a, b):
        if getattr(self, "any_length", False) and a.a[0].op != "len" and b.a[0].op != "len":
            return []
        if a.a[0].op == "while" and b.a[0].op == "while":
            if a.a[0] is not b.a[0] and TRUE in (a.a[0].a[0], b.a[0].a[0]):
                return self.U(a, b, "a loop that is left in another way")
            return self.db(a.a[0].a[0], b.a[0].a[0])
        if (a.a[0].op == "while") != (b.a[0].op == "while"):
            return self.U(a, b, "different loop")
        return self.d(a.a[0], b.a[0])

    def d_ent(self, a, b):
        return self.loops(a.a[0], b.a[0], a, b) + self.db(a.a[1], b.a[1]) + self.d(a.a[2], b.a[2])

    def d_wr(self, a, b):
        out = self.loops(a.a[0], b.a[0], a, b) + self.db(a.a[1], b.a[1]) + self.dindex(a.a[2], b.a[2]) + self.d(a.a[3], b.a[3])
        if a.a[4:] != b.a[4:]:
            out += self.D(a, b, "different kind of assignment")
        return out

    def d_listb(self, a, b):
        xs, ys = a.a[0], b.a[0]
        if len(xs) == len(ys):
            out = []
            for x, y in zip(xs, ys):
                out += self.d(x, y)
            return out
        if all(x.op == "ent" and not x.a[0] and x.a[1] is TRUE for x in xs + ys):
            return self.D(a, b, "different number of elements")
        m = [x for x in xs if x in ys]
        if len(m) == min(len(xs), len(ys)):
            rest = [x for x in xs + ys if x not in m]
            return self.U(a, b, "different elements") if any(opaque(x) for x in rest) else self.D(a, b, "elements left out" if len(xs) < len(ys) else "additional elements")
        return self.U(a, b, "different elements")

    def d_dictb(self, a, b):
        xs, ys = list(a.a[0]), list(b.a[0])
        out = []
        rx = [x for x in xs if x not in ys]
        ry = [y for y in ys if y not in xs]
        pairs = [(xs.index(x), ys.index(x)) for x in xs if x in ys]
        for x in list(rx):
            for y in list(ry):
                if x.op == "ent" == y.op and x.a[2].op == "tuple" == y.a[2].op and not self.d(x.a[2].a[0][0], y.a[2].a[0][0]):
                    out += self.d_ent(x, y)
                    pairs.append((xs.index(x), ys.index(y)))
                    rx.remove(x)
                    ry.remove(y)
                    break
        if len(rx) == len(ry):
            for x, y in zip(rx, ry):
                out += self.d(x, y)
                pairs.append((xs.index(x), ys.index(y)))
            pairs.sort()
            for n, (i, j) in enumerate(pairs):
                for k, l in pairs[n + 1:]:
                    if l < j and shadows(ys[j], ys[l]):
                        # what comes later has precedence
                        if opaque(ys[j]) or opaque(ys[l]) or "base" not in (ys[j].op, ys[l].op):
                            return out + self.U(a, b, "different precedence of entries")
                        return out + self.D(a, b, "entries exchanged, of which the later has precedence")
            return out
        rest = rx + ry
        if not (rx and ry) and not any(opaque(x) for x in rest):
            return out + self.D(a, b, "entries left out" if ry else "additional entries")
        return out + self.U(a, b, "different entries")

    def d_writes(self, a, b):
        out = self.d(a.a[0], b.a[0])
        xs, ys = a.a[1], b.a[1]
        if len(xs) == len(ys):
            for x, y in zip(xs, ys):
                out = out + self.d(x, y)
            return out
        m = [x for x in xs if x in ys]
        if len(m) == min(len(xs), len(ys)) and not any(opaque(x) for x in xs + ys):
            return out + self.D(a, b, "assignments left out" if len(xs) < len(ys) else "additional assignments")
        return out + self.U(a, b, "different assignments")

    def paired(self, la, lb):
        """the definite differences of two loops whose quantities start from the same values, or None"""
        if la.op != "loop" or lb.op != "loop" or la.a[0].op != "while" or lb.a[0].op != "while":
            return None
        k = (la, lb)
        if k not in self.pairs:
            self.pairs[k] = None
            self.pairs[k] = self.paired1(la, lb)
        return self.pairs[k]

    def paired1(self, la, lb):
        xs = [p for p in self.ra if p.a[0] is la]
        ys = [p for p in self.rb if p.a[0] is lb]
        if len(xs) != len(ys) or not 2 <= len(xs) <= 4:
            return None
        inner_a = {q.a[1:]: q for q in self.ra if q.a[0].op == "sym"}
        inner_b = {q.a[1:]: q for q in self.rb if q.a[0].op == "sym"}
        best = None
        for perm in itertools.permutations(ys):
            if any(self.ra[x][0] is not self.rb[y][0] for x, y in zip(xs, perm)):
                continue
            m = {y: x for x, y in zip(xs, perm)}
            m.update({inner_b[y.a[1:]]: inner_a[x.a[1:]] for x, y in zip(xs, perm) if y.a[1:] in inner_b and x.a[1:] in inner_a})
            rows = [(self.ra[x][2], tm.subst(self.rb[y][2], m)) for x, y in zip(xs, perm)]
            rows = [(u, v) for u, v in rows if u is not v]
            if tm.subst(lb, m) is not la:
                rows.append(None)
            if best is None or len(rows) < len(best):
                best = rows
        if not best or None in best or len(best) != 1:
            return None
        (u, v), = best
        r = self.d(u, v)
        # what may differ only in cases that never arise is left to the general comparison
        return r if r and all(q[0] == "D" and not any(w in q[1] for w in ("comparison", "bound", "condition")) for q in r) else None

    def d_phi(self, a, b):
        q = self.paired(a.a[0], b.a[0])
        if q:
            return q
        out = self.d(a.a[0], b.a[0])
        ra, rb = self.ra.get(a), self.rb.get(b)
        if ra is not None and rb is not None:
            return out + self.d(ra[0], rb[0]) + self.d(ra[2], rb[2])
        if a.a[1].op != b.a[1].op if isinstance(a.a[1], T) and isinstance(b.a[1], T) else True:
            return out + self.U(a, b, "different recurrence")
        return out + self.gen(a.a[1].a, b.a[1].a, a, b)

    def d_prev(self, a, b):
        return self.gen(a.a, b.a, a, b)


def shadows(x, y):
    """whether two entries of a dictionary may be about the same key, with different values"""
    if x.op == "ent" == y.op:
        if x.a[2] is y.a[2] or tm.and_(x.a[1], y.a[1]) is FALSE:
            return False
        p, q = (e.a[2].a[0][0] if e.a[2].op == "tuple" else None for e in (x, y))
        return p is None or q is None or not (tm.is_const(p) and tm.is_const(q) and p is not q)
    return x is not y


def score(r):
    return (sum(1 for q in r if q[0] == "U"), len(r))


def severity(ds):
    if not ds:
        return "same"
    return "open" if any(q[0] == "U" for q in ds) else "different"
