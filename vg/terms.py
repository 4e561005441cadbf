"""Hash-consed terms in normal form.

Arithmetic is kept as polynomials with rational coefficients, comparisons as literals over such polynomials, booleans in
negation normal form.  Two terms that are the same object denote the same value; different objects may still be equal.
"""
from fractions import Fraction
from math import gcd

_tab = {}


class T:
    __slots__ = ("op", "a", "key")

    def __repr__(self):
        return show(self)


def _akey(x):
    if isinstance(x, T):
        return x.key
    if isinstance(x, tuple):
        return "(" + ",".join(_akey(y) for y in x) + ")"
    return repr(x)


def _hk(x):
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, tuple):
        return tuple(_hk(y) for y in x)
    return x


def mk(op, *a):
    k = (op,) + _hk(a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.key = op + "(" + ",".join(_akey(x) for x in a) + ")"
        _tab[k] = t
    return t


def num(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", "float", repr(v))
        v = Fraction(str(v))
    return mk("num", Fraction(v))


def const(v):
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if v is None:
        return NONE
    if v is Ellipsis:
        return mk("const", "ellipsis", "...")
    return mk("const", type(v).__name__, v if isinstance(v, (str, bytes)) else repr(v))


NONE = mk("const", "none", None)
TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
ELL = mk("const", "ellipsis", "...")
ZERO = num(0)
ONE = num(1)
INF = mk("ext", "numpy.inf")
FULL = mk("slice", NONE, NONE, NONE)


def is_const(t):
    return t.op in ("const", "num")


NOT_NONE = {"builtins." + n for n in ("int", "float", "str", "len", "bool", "list", "tuple", "dict", "set", "zip", "range", "sorted", "iter", "abs", "round")}


def is_str(t):
    return t.op == "const" and t.a[0] == "str"


def children(t):
    def go(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                yield from go(y)
    for x in t.a:
        yield from go(x)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, what):
    return any(x is what for x in subterms(t))


def has(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f, memo=None):
    """bottom-up rewriting: f maps a rebuilt node to its replacement"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            r = f(remake(x.op, tuple(go(y) for y in x.a)))
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def subst(t, m):
    """replaces the terms in m (dict) everywhere, outermost first"""
    if not m:
        return t
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            if x in memo:
                return memo[x]
            n = tuple(go(y) for y in x.a)
            r = x if all(p is q or p == q for p, q in zip(n, x.a)) else remake(x.op, n)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def remake(op, a):
    if op == "poly":
        r = ZERO
        for mono, c in a[0]:
            m = num(c)
            for at, e in mono:
                m = mul(m, power(at, e))
            r = add(r, m)
        return r
    f = _remake.get(op)
    return f(*a) if f else mk(op, *a)


# ---------------------------------------------------------------- polynomials
def _pd(t):
    """term -> {mono: coef}"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "const" and t.a[0] == "bool":
        return {(): Fraction(int(t.a[1]))} if t.a[1] else {}
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.key, e) for a, e in m)


def _fromd(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _pd(t).items():
            d[m] = d.get(m, 0) + c
    return _fromd(d)


def scale(t, k):
    return _fromd({m: c * k for m, c in _pd(t).items()})


def neg(t):
    return scale(t, -1)


def minus(a, b):
    return add(a, neg(b))


def _mm(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].key))


def mul(a, b):
    da, db = _pd(a), _pd(b)
    if len(da) * len(db) > 60:
        if len(da) > 1:
            da = {((a, 1),): Fraction(1)}
        if len(db) > 1:
            db = {((b, 1),): Fraction(1)}
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _fromd(d)


def _content(d):
    """positive rational content"""
    n, q = 0, 1
    for c in d.values():
        n = gcd(n, abs(c.numerator))
        q = q * c.denominator // gcd(q, c.denominator)
    return Fraction(n, q) if n else Fraction(1)


def _lead(d):
    ms = sorted((m for m in d if m != ()), key=_mkey)
    return d[ms[0]] if ms else d.get((), Fraction(1))


def inv(t):
    if t.op == "num":
        if t.a[0] == 0:
            return mk("call", mk("ext", "div0"), (), ())
        return num(1 / t.a[0])
    d = _pd(t)
    if len(d) == 1:
        (m, c), = d.items()
        return _fromd({tuple((a, -e) for a, e in m): 1 / c})
    k = _content(d)
    if _lead(d) < 0:
        k = -k
    at = _fromd({m: c / k for m, c in d.items()})
    return _fromd({((at, -1),): 1 / k})


def div(a, b):
    if a is b and b.op != "num":
        return ONE
    return mul(a, inv(b))


def power(a, e):
    if isinstance(e, T):
        if e.op == "num":
            e = e.a[0]
        else:
            return mk("pow", a, e)
    if isinstance(e, Fraction):
        if e.denominator == 1:
            e = int(e)
        elif e == Fraction(1, 2):
            return sqrt(a)
        else:
            return mk("pow", a, num(e))
    if e == 0:
        return ONE
    if a.op == "num":
        if a.a[0] == 0 and e < 0:
            return mk("pow", a, num(e))
        return num(a.a[0] ** e)
    if e < 0:
        return inv(power(a, -e))
    d = _pd(a)
    if len(d) == 1:
        (m, c), = d.items()
        return _fromd({tuple((x, k * e) for x, k in m): c ** e})
    if e <= 3:
        r = ONE
        for _ in range(e):
            r = mul(r, a)
        return r
    return _fromd({((a, e),): Fraction(1)})


def sqrt(a):
    if a.op == "num" and a.a[0] >= 0:
        n, d = a.a[0].numerator, a.a[0].denominator
        import math
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return num(Fraction(rn, rd))
    return mk("sqrt", a)


def fdiv(a, b):
    if a.op == "num" and b.op == "num" and b.a[0]:
        return num(a.a[0] // b.a[0])
    if b is ONE and is_int(a):
        return a
    return mk("fdiv", a, b)


def mod(a, b):
    if a.op == "num" and b.op == "num" and b.a[0]:
        return num(a.a[0] % b.a[0])
    # drop multiples of b, flatten nested mod by the same modulus
    d = _pd(a)
    out = ZERO
    for m, c in d.items():
        t = _fromd({m: c})
        q = div(t, b)
        if c.denominator == 1 and _is_int_poly(q):
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].a[1] is b and c.denominator == 1:
            t = scale(m[0][0].a[0], c)
        out = add(out, t)
    if out is not a:
        return mod(out, b) if any(x.op == "mod" for x in subterms(out)) and out.key < a.key else mk("mod", out, b) if out is not ZERO else ZERO
    return mk("mod", a, b)


def _is_int_poly(t):
    d = _pd(t)
    return all(c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m) for m, c in d.items())


INT_NAMES = set()


def is_int(t):
    if t.op == "num":
        return t.a[0].denominator == 1
    if t.op == "poly":
        return _is_int_poly(t)
    if t.op in ("iter", "len"):
        return True
    if t.op in ("attr",):
        return t.a[1] in INT_NAMES or t.a[1] in ("num", "ndim", "size")
    if t.op == "sym":
        return t.a[0] in INT_NAMES
    if t.op == "phi":
        return bool(t.a[2])
    if t.op in ("fdiv", "mod"):
        return is_int(t.a[0]) and is_int(t.a[1])
    if t.op in ("min", "max"):
        return all(is_int(x) for x in t.a[0])
    if t.op == "ite":
        return is_int(t.a[1]) and is_int(t.a[2])
    if t.op == "sub":
        return t.a[0].op == "attr" and t.a[0].a[1] == "shape"
    if t.op == "call":
        return t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.int", "builtins.len", "math.ceil", "math.floor")
    return False


def minmax(op, ts):
    fl = []
    for t in ts:
        if t.op == op:
            fl.extend(t.a[0])
        else:
            fl.append(t)
    ns = [t.a[0] for t in fl if t.op == "num"]
    rest = sorted({t for t in fl if t.op != "num"}, key=lambda t: t.key)
    if op == "max" and len(rest) > 1:
        rest = [t for t in rest if t.key != "neginf"]
    if ns:
        rest.append(num(min(ns) if op == "min" else max(ns)))
    if len(rest) == 1:
        return rest[0]
    return mk(op, tuple(rest))


# ---------------------------------------------------------------- comparisons
def _norm_ineq(p):
    d = _pd(p)
    k = _content(d)
    return _fromd({m: c / k for m, c in d.items()})


def lt0(p):
    if p.op == "num":
        return TRUE if p.a[0] < 0 else FALSE
    # drop infinities
    p = _norm_ineq(p)
    if _is_int_poly(p):
        return le0(add(p, ONE))
    return mk("lt0", p)


def le0(p):
    if p.op == "num":
        return TRUE if p.a[0] <= 0 else FALSE
    if _is_int_poly(p):
        # integer tightening of the constant by the content of the rest
        d = _pd(p)
        rest = {m: c for m, c in d.items() if m != ()}
        g = _content(rest)
        c0 = d.get((), Fraction(0))
        import math
        rest = {m: c / g for m, c in rest.items()}
        k = Fraction(math.ceil(c0 / g))
        if len(rest) == 1:
            (m, c), = rest.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and is_size(m[0][0]):
                # sizes are not negative
                if c > 0 and k > 0:
                    return FALSE
                if c > 0 and k == 0:
                    return eq(m[0][0], ZERO)
                if c < 0 and k <= 0:
                    return TRUE
                if c < 0 and k == 1:
                    return not_(eq(m[0][0], ZERO))
        if k:
            rest[()] = k
        return mk("le0", _fromd(rest))
    return mk("le0", _norm_ineq(p))


def is_mask(t):
    return is_bool(t) or t.op == "sub" and is_mask(t.a[0])


def is_size(t):
    return t.op == "len" or t.op == "attr" and t.a[1] in ("num", "ndim", "size") or t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape"


def lt(a, b):
    return lt0(minus(a, b))


def le(a, b):
    return le0(minus(a, b))


_NUMOPS = ("num", "poly", "fdiv", "mod", "sqrt", "min", "max", "len", "iter", "pow")


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        return and_(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])]) if len(a.a[0]) == len(b.a[0]) else FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "tuple" and x.op == "attr" and x.a[1] == "shape":
            return and_(eq(mk("attr", x.a[0], "ndim"), num(len(y.a[0]))), *[eq(sub(x, num(i)), v) for i, v in enumerate(y.a[0])])
        if y.op == "tuple" and x.op == "sub" and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and x.a[1].op == "slice" and x.a[1].a[0] in (NONE, ZERO) \
                and x.a[1].a[1].op == "num" and x.a[1].a[1].a[0] == len(y.a[0]) and x.a[1].a[2] in (NONE, ONE):
            # the first sizes (where there are as many)
            return and_(*[eq(sub(x.a[0], num(i)), v) for i, v in enumerate(y.a[0])])
    if is_bool(a) and is_bool(b) and not is_const(a) and not is_const(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op in _NUMOPS or b.op in _NUMOPS:
        if not (a.op == "const" or b.op == "const"):
            # modular equality
            for x, y in ((a, b), (b, a)):
                if x.op == "mod" and not contains(y, x):
                    n = x.a[1]
                    ok = y is ZERO
                    if y.op == "num" and y.a[0] > 0:
                        ok = True
                    r = minus(n, y)
                    if not ok and r.op == "num" and r.a[0] > 0:
                        ok = True
                    if ok:
                        e = minus(x.a[0], y)
                        e = mod(e, n)
                        e = e.a[0] if e.op == "mod" else e
                        if e.op == "num":
                            # e = const, symbolic modulus
                            return mk("divides", n, e) if e.a[0] else TRUE
                        d = _pd(e)
                        if _lead(d) < 0:
                            e = neg(e)
                        # constant part +/- only: keep canonical
                        return mk("divides", n, e)
            p = minus(a, b)
            if p.op == "num":
                return TRUE if p.a[0] == 0 else FALSE
            if p.op == "len" and p.a[0].op == "listb" and all(e.op == "ent" for e in p.a[0].a[0]):
                return not_(truth(p.a[0]))
            if p.op == "attr" and p.a[1] == "size" and p.a[0].op == "sub" and is_mask(p.a[0].a[1]):
                return eq(length(p.a[0]), ZERO)     # a selection of entries has one dimension
            d = _pd(p)
            k = _content(d)
            if _lead(d) < 0:
                k = -k
            p = _fromd({m: c / k for m, c in d.items()})
            if p.op == "poly" and len(p.a[0]) == 2:
                (m1, c1), (m2, c2) = p.a[0]
                if m1 != () and m2 != () and c1 == -c2 and abs(c1) == 1 and len(m1) == 1 == len(m2) and m1[0][1] == 1 == m2[0][1]:
                    return mk("eq", *sorted((m1[0][0], m2[0][0]), key=lambda t: t.key))
            return mk("eq0", p)
    if b is TRUE or a is TRUE:
        o = a if b is TRUE else b
        if is_bool(o):
            return o
    if b is FALSE or a is FALSE:
        o = a if b is FALSE else b
        if is_bool(o):
            return not_(o)
    return mk("eq", *sorted((a, b), key=lambda t: t.key))


def is_bool(t):
    return t.op in ("truth", "lt0", "le0", "eq", "eq0", "divides", "is", "in", "not", "and", "or", "exists", "exc") or t is TRUE or t is FALSE or \
        (t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.isinstance", "builtins.bool", "builtins.hasattr", "builtins.callable"))


_bv = {}


def is_boolv(t):
    """a boolean, also one chosen by cases"""
    if t.op != "ite":
        return is_bool(t)
    r = _bv.get(t)
    if r is None:
        r = _bv[t] = is_boolv(t.a[1]) and is_boolv(t.a[2])
    return r


def is_(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y is NONE and x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in NOT_NONE:
            return FALSE
        if y is NONE and x.op in ("range", "zip", "enum", "num", "poly", "tuple", "listb", "dictd", "new", "strcat", "closure", "fnref", "clsref", "slice", "min", "max", "sqrt"):
            return FALSE
        if y is NONE and x.op == "ite":
            return ite(x.a[0], is_(x.a[1], NONE), is_(x.a[2], NONE))
    return mk("is", *sorted((a, b), key=lambda t: t.key))


def in_(a, b):
    if b.op in ("tuple",) and len(b.a[0]) <= 8:
        return or_(*[eq(a, x) for x in b.a[0]])
    if b.op == "listb" and len(b.a[0]) <= 8 and all(not e.a[0] and e.a[1] is TRUE for e in b.a[0] if e.op == "ent") and all(e.op == "ent" for e in b.a[0]):
        return or_(*[eq(a, e.a[2]) for e in b.a[0]])
    if b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] == "keys":
        b = b.a[0].a[0]
    if b.op == "keys":
        b = b.a[0]
    return mk("in", a, b)


def truth(t):
    """the boolean value of a term used as a condition"""
    if is_bool(t):
        return t
    if t.op == "num":
        return TRUE if t.a[0] else FALSE
    if t is NONE:
        return FALSE
    if t.op == "const":
        return TRUE if t.a[1] else FALSE
    if t.op in ("tuple",):
        return TRUE if t.a[0] else FALSE
    if t.op == "listb":
        if not t.a[0]:
            return FALSE
        if any(e.op == "ent" and not e.a[0] and e.a[1] is TRUE for e in t.a[0]):
            return TRUE
        if all(e.op == "ent" for e in t.a[0]):
            return or_(*[exists_all(e.a[0], e.a[1]) for e in t.a[0]])
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ("new", "closure", "fnref", "clsref"):
        return TRUE
    if t.op == "len":
        return truth_len(t.a[0])
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.any", "numpy.all") and len(t.a[1]) == 1 and not t.a[2]:
        x = t.a[1][0]
        if x is NONE:
            return FALSE
        if x.op == "ite":
            c = x.a[0]
            sides = [NONE if c.op == "is" and set(c.a) == {NONE, y} and i == 0 else y for i, y in enumerate(x.a[1:])]
            return ite(c, *[truth(mk("call", t.a[0], (y,), t.a[2])) for y in sides])
    return mk("truth", t)


def truth_len(x):
    return truth(x) if x.op in ("listb", "tuple") else mk("truth", x)


def not_(t):
    o = t.op
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if o == "not":
        return t.a[0]
    if o == "and":
        return or_(*[not_(x) for x in t.a[0]])
    if o == "or":
        return and_(*[not_(x) for x in t.a[0]])
    if o == "lt0":
        return le0(neg(t.a[0]))
    if o == "le0":
        return lt0(neg(t.a[0]))
    if o == "ite" and is_bool(t.a[1]) and is_bool(t.a[2]):
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk("not", t)


def _lits(op, ts):
    s = {}
    for t in ts:
        t = truth(t)
        if t.op == op:
            for x in t.a[0]:
                s[x] = 1
        else:
            s[t] = 1
    return list(s)


def _eqc(t):
    """x == const literal -> (x, const)"""
    if t.op == "eq":
        a, b = t.a
        if is_const(b) and not is_const(a):
            return a, b
        if is_const(a) and not is_const(b):
            return b, a
    if t.op == "is" :
        a, b = t.a
        if b is NONE:
            return a, b
        if a is NONE:
            return b, a
    return None


def _and_list(ls):
    """conjunction of literals/clauses with unit propagation; returns list or None when false"""
    changed = True
    ls = list(dict.fromkeys(ls))
    while changed:
        changed = False
        s = set(ls)
        if FALSE in s:
            return None
        if TRUE in s:
            ls = [x for x in ls if x is not TRUE]
            s.discard(TRUE)
        for x in ls:
            if not_(x) in s:
                return None
        eqs = {}
        for x in ls:
            e = _eqc(x)
            if e:
                if e[0] in eqs and eqs[e[0]] is not e[1] and x.op == "eq":
                    return None
                eqs[e[0]] = e[1]
        out = []
        for x in ls:
            if x.op == "not":
                e = _eqc(x.a[0])
                if e and e[0] in eqs and eqs[e[0]] is not e[1]:
                    changed = True
                    continue
            if x.op == "or":
                keep = []
                sat = False
                for y in x.a[0]:
                    if y in s:
                        sat = True
                        break
                    if y.op == "and" and all(z in s for z in y.a[0]):
                        sat = True
                        break
                    ny = not_(y)
                    if ny in s:
                        continue
                    e = _eqc(y)
                    if e and e[0] in eqs and eqs[e[0]] is not e[1]:
                        continue
                    if y.op == "and":
                        if any(not_(z) in s for z in y.a[0]):
                            continue
                        r = [z for z in y.a[0] if z not in s]
                        if len(r) != len(y.a[0]):
                            y = and_(*r)
                    keep.append(y)
                if sat:
                    changed = True
                    continue
                if len(keep) != len(x.a[0]) or any(k is not o for k, o in zip(keep, x.a[0])):
                    changed = True
                    y = or_(*keep)
                    if y is FALSE:
                        return None
                    out.extend(y.a[0] if y.op == "and" else [y])
                    continue
            out.append(x)
        ls = list(dict.fromkeys(out))
    # interval subsumption for inequality literals over the same polynomial part
    best = {}
    for x in ls:
        if x.op in ("le0", "lt0"):
            d = dict(_pd(x.a[0]))
            c = d.pop((), Fraction(0))
            k = _fromd(d)
            o = best.get(k)
            if o is None or (c, x.op == "lt0") > (o[0], o[1].op == "lt0"):
                best[k] = (c, x)
    if best:
        keepers = {x for _, x in best.values()}
        ls = [x for x in ls if x.op not in ("le0", "lt0") or x in keepers]
        for k, (c, x) in best.items():
            nk = neg(k)
            if nk in best:
                c2, x2 = best[nk]
                s = c + c2
                if s > 0 or (s == 0 and "lt0" in (x.op, x2.op)):
                    return None
        for x in ls:
            for k, c, pos in _equals(x):
                if k not in best:
                    continue
                c2, x2 = best[k]
                holds = c2 < c or c2 == c and x2.op == "le0"      # the inequality, where the two are equal
                if pos and not holds:
                    return None
                if pos:
                    return _and_list([y for y in ls if y is not x2])
                if not holds:
                    return _and_list([y for y in ls if y is not x])
                if c2 == c:
                    return _and_list([y for y in ls if y is not x and y is not x2] + [lt0(x2.a[0])])
    return ls


def _equals(x):
    """the two ways to write an equation (or its opposite) as  k + c == 0"""
    pos = x.op != "not"
    e = x if pos else x.a[0]
    if e.op == "eq0":
        p = e.a[0]
    elif e.op == "eq" and e.a[0].op != "const" and e.a[1].op != "const":
        p = minus(*e.a)
    else:
        return
    if p.op == "num":
        return
    for q in (_norm_ineq(p), _norm_ineq(neg(p))):
        d = dict(_pd(q))
        c = d.pop((), Fraction(0))
        yield _fromd(d), c, pos


def and_(*ts):
    ls = _lits("and", ts)
    ls = _and_list(ls)
    if ls is None:
        return FALSE
    fl = []
    for x in ls:
        fl.extend(x.a[0] if x.op == "and" else [x])
    fl = set(fl)
    if sum(1 for x in fl if x.op == "not" and x.a[0].op == "exists") > 1:
        ex = {x.a[0] for x in fl if x.op == "not" and x.a[0].op == "exists"}
        ex2 = join_exists(ex)
        if ex2 != ex:
            return and_(*[x for x in fl if not (x.op == "not" and x.a[0].op == "exists")], *[mk("not", x) for x in ex2])
    ls = sorted(fl, key=lambda t: t.key)
    if not ls:
        return TRUE
    if len(ls) == 1:
        return ls[0]
    return mk("and", tuple(ls))


_or_depth = [0]


def or_(*ts):
    ls = _lits("or", ts)
    s = set(ls)
    if TRUE in s:
        return TRUE
    s.discard(FALSE)
    for x in list(s):
        if not_(x) in s:
            return TRUE
    # absorption and resolution of  x | (~x & y)  ->  x | y
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op != "and":
                continue
            parts = x.a[0]
            if any(y in s for y in parts):
                s.discard(x)
                changed = True
                break
            r = [y for y in parts if not_(y) not in s]
            if len(r) != len(parts):
                s.discard(x)
                y = and_(*r)
                if y is TRUE:
                    return TRUE
                s |= set(y.a[0]) if y.op == "or" else {y}
                changed = True
                break
        if not changed:
            # (a & b) | (a & ~b) -> a
            xs = [x for x in s if x.op == "and"]
            done = False
            for i, x in enumerate(xs):
                for y in xs[i + 1:]:
                    sx, sy = set(x.a[0]), set(y.a[0])
                    dx, dy = sx - sy, sy - sx
                    if len(dx) == 1 == len(dy) and not_(next(iter(dx))) is next(iter(dy)):
                        s.discard(x)
                        s.discard(y)
                        s.add(and_(*(sx & sy)))
                        done = True
                        break
                    if sx < sy:
                        s.discard(y)
                        done = True
                        break
                    if sy < sx:
                        s.discard(x)
                        done = True
                        break
                if done:
                    break
            changed = done
    if TRUE in s:
        return TRUE
    if sum(1 for x in s if x.op == "exists") > 1:
        s2 = join_exists(s)
        if s2 != s:
            return or_(*s2)
    ls = sorted(s, key=lambda t: t.key)
    # weakest inequality over the same polynomial part
    best = {}
    for x in ls:
        if x.op in ("le0", "lt0"):
            d = dict(_pd(x.a[0]))
            c = d.pop((), Fraction(0))
            k = _fromd(d)
            o = best.get(k)
            if o is None or (c, x.op == "lt0") < (o[0], o[1].op == "lt0"):
                best[k] = (c, x)
    if best:
        keepers = {x for _, x in best.values()}
        ls = [x for x in ls if x.op not in ("le0", "lt0") or x in keepers]
        for k, (c, x) in best.items():
            nk = neg(k)
            if nk in best:
                c2, x2 = best[nk]
                sm = c + c2
                if sm < 0 or (sm == 0 and not (x.op == "lt0" and x2.op == "lt0")):
                    return TRUE
        for x in ls:
            for k, c, pos in _equals(x):
                if k not in best:
                    continue
                c2, x2 = best[k]
                holds = c2 < c or c2 == c and x2.op == "le0"
                if holds:
                    return or_(*[y for y in ls if y is not x]) if pos else TRUE
                if not pos:
                    return or_(*[y for y in ls if y is not x2])
                if c2 == c:
                    return or_(*[y for y in ls if y is not x and y is not x2], le0(x2.a[0]))
                if _is_int_poly(x2.a[0]) and c2 == c + 1:
                    return or_(*[y for y in ls if y is not x and y is not x2], le0(minus(x2.a[0], ONE)))
    if not ls:
        return FALSE
    if len(ls) == 1:
        return ls[0]
    return mk("or", tuple(ls))


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if is_bool(a) and is_bool(b):
        if a is TRUE or a is c:
            return or_(c, b)
        if b is FALSE or b is c:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if a is not_(c):
            return and_(a, b)
        if b is not_(c):
            return or_(b, a)
    n = not_(c)
    if n.key < c.key and not (c.op != "not" and n.op == "not"):
        c, a, b = n, b, a
    elif c.op == "not":
        c, a, b = n, b, a
    # numeric: pull common part out so that x + ite(c,1,0) and ite(c,x+1,x) agree
    if (a.op in _NUMOPS or b.op in _NUMOPS) and a.op != "const" and b.op != "const":
        da, db = _pd(a), _pd(b)
        com = {m: k for m, k in da.items() if db.get(m) == k}
        if com:
            ra = _fromd({m: k for m, k in da.items() if m not in com})
            rb = _fromd({m: k for m, k in db.items() if m not in com})
            return add(_fromd(com), mk("ite", c, ra, rb))
        # min / max
    if c.op in ("lt0", "le0"):
        d = minus(a, b)
        p = c.a[0]
        dd = _norm_ineq(d) if d.op != "num" else d
        if dd is p:      # a-b <= 0 ? a : b
            return minmax("min", [a, b])
        if _norm_ineq(neg(d)) is p:
            return minmax("max", [a, b])
        if _is_int_poly(d):
            if minus(p, ONE) is dd:
                return minmax("min", [a, b])
            if minus(p, ONE) is _norm_ineq(neg(d)):
                return minmax("max", [a, b])
    return mk("ite", c, a, b)


def join_exists(s):
    """some pass with p, or some pass with q: some pass with p or q, then split again into prime cases"""
    by = {}
    for x in s:
        if x.op == "exists":
            by.setdefault(x.a[0], []).append(x)
    for L, xs in by.items():
        if len(xs) > 1:
            from .bdd import primes
            g = or_(*[x.a[1] for x in xs])
            ps = primes(g, 10, 12)
            if ps is not None:
                s = (s - set(xs)) | {mk("exists", L, and_(*p)) for p in ps}
    return s


def exists(L, g):
    g = truth(g)
    if g is FALSE:
        return FALSE
    if g.op == "or":
        return or_(*[exists(L, x) for x in g.a[0]])
    it = mk("iter", L)
    lits = g.a[0] if g.op == "and" else (g,)
    inv = [x for x in lits if not contains(x, it) and not has(x, lambda y: y.op in ("phi", "psum", "prior", "rec", "prev", "final", "last") and (y.op == "rec" or y.a[0] is L))]
    if inv:
        # what is the same in every pass
        var = [x for x in lits if x not in inv]
        ran = mk("ran", L) if L.a[0].op == "while" else not_(le0(L.a[0]))
        return and_(*inv, exists(L, and_(*var)) if var else ran)
    if g.op == "and" and any(x.op in ("or", "ite") for x in g.a[0]) or g.op == "ite":
        from .bdd import primes
        ps = primes(g)
        if ps is not None and len(ps) > 1:
            return or_(*[exists(L, and_(*p)) for p in ps])
    return mk("exists", L, g)


def exists_all(loops, g):
    for L in reversed(loops):
        g = exists(L, g)
    return truth(g)


# ---------------------------------------------------------------- strings, sequences
def strcat(*ps):
    fl = []
    for p in ps:
        if p.op == "strcat":
            fl.extend(p.a[0])
        elif p.op == "num" and p.a[0].denominator == 1:
            fl.append(const(str(int(p.a[0]))))
        else:
            fl.append(p)
    out = []
    for p in fl:
        if is_str(p) and not p.a[1]:
            continue
        if out and is_str(p) and is_str(out[-1]):
            out[-1] = const(out[-1].a[1] + p.a[1])
        else:
            out.append(p)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", tuple(out))


def tup(ts):
    return mk("tuple", tuple(ts))


def ent(loops, guard, elt):
    return mk("ent", tuple(loops), guard, elt)


def listb(ents):
    return mk("listb", tuple(ents))


def lst(ts):
    return listb([ent((), TRUE, t) for t in ts])


def seq_items(t):
    """the elements of a fixed-length sequence term, or None"""
    if t.op == "tuple":
        return list(t.a[0])
    if t.op == "listb" and all(e.op == "ent" and not e.a[0] and e.a[1] is TRUE for e in t.a[0]):
        return [e.a[2] for e in t.a[0]]
    return None


def seqcat(a, b):
    x, y = seq_items(a), seq_items(b)
    if a.op == "tuple" and b.op == "tuple":
        return tup(a.a[0] + b.a[0])
    if a.op == "listb" and b.op == "listb":
        return listb(a.a[0] + b.a[0])
    fa = a.a[0] if a.op == "seqcat" else (a,)
    fb = b.a[0] if b.op == "seqcat" else (b,)
    return mk("seqcat", tuple(fa) + tuple(fb))


def length(t):
    if t.op == "attr" and t.a[1] == "shape":
        return mk("attr", t.a[0], "ndim")
    it = seq_items(t)
    if it is not None:
        return num(len(it))
    if t.op == "seqcat":
        return add(*[length(x) for x in t.a[0]])
    if t.op == "listb" and all(e.op == "ent" for e in t.a[0]):
        r = ZERO
        for e in t.a[0]:
            if e.a[1] is not TRUE:
                return mk("len", t)
            m = ONE
            for L in e.a[0]:
                tr = L.a[0]
                if tr.op == "while":
                    return mk("len", t)
                m = mul(m, tr)
            r = add(r, m)
        return r
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.dict") and len(t.a[1]) == 1:
        return length(t.a[1][0]) if t.a[0].a[0] != "builtins.set" else mk("len", t)
    if t.op == "keys":
        return length(t.a[0])
    if t.op == "range":
        lo, hi, st = t.a
        if st is ONE:
            return minus(hi, lo)
    if is_str(t):
        return num(len(t.a[1]))
    return mk("len", t)


def attr(b, n):
    return mk("attr", b, n)


def sub(b, i):
    it = seq_items(b)
    if it is not None and i.op == "num" and i.a[0].denominator == 1:
        k = int(i.a[0])
        if -len(it) <= k < len(it):
            return it[k]
    if is_str(b) and (i.op == "num" and i.a[0].denominator == 1 and -len(b.a[1]) <= i.a[0] < len(b.a[1])):
        return const(b.a[1][int(i.a[0])])
    if is_str(b) and i.op == "slice" and all(x is NONE or x.op == "num" for x in i.a):
        return const(b.a[1][slice(*[None if x is NONE else int(x.a[0]) for x in i.a])])
    if it is not None and i.op == "slice" and all(x is NONE or x.op == "num" for x in i.a):
        s = slice(*[None if x is NONE else int(x.a[0]) for x in i.a])
        return tup(it[s]) if b.op == "tuple" else lst(it[s])
    if b.op == "dictd":
        if all(is_const(k) for k, _ in b.a[0]) and is_const(i):
            for k, v in reversed(b.a[0]):
                if k is i:
                    return v
        else:
            for k, v in reversed(b.a[0]):
                if k is i:
                    return v
    if b.op == "ite" and (seq_items(b.a[1]) is not None or b.a[1].op == "dictd") and (seq_items(b.a[2]) is not None or b.a[2].op == "dictd"):
        return ite(b.a[0], sub(b.a[1], i), sub(b.a[2], i))
    # element i of a one-entry comprehension indexed by its own loop
    if b.op == "listb" and len(b.a[0]) == 1 and b.a[0][0].op == "ent":
        e = b.a[0][0]
        if len(e.a[0]) == 1 and e.a[1] is TRUE and i.op == "iter" and i.a[0] is e.a[0][0]:
            return e.a[2]
        if len(e.a[0]) == 1 and e.a[1] is TRUE and i.op != "slice" and not (i.op == "num" and i.a[0] < 0) and i.op != "tuple":
            return subst(e.a[2], {mk("iter", e.a[0][0]): i})
    if b.op == "range" and i.op not in ("slice", "tuple"):
        if not (i.op == "num" and i.a[0] < 0):
            return add(b.a[0], mul(i, b.a[2]))
    return mk("sub", b, i)


def slice_(lo, hi, st=NONE):
    if lo is ZERO:
        lo = NONE
    if st is ONE:
        st = NONE
    return mk("slice", lo, hi, st)


def norm_index(i):
    """[...] index tuples: (a,) -> a; Ellipsis next to full slices dropped"""
    if i.op == "tuple":
        its = list(i.a[0])
        if ELL in its:
            its = [x for x in its if x is not FULL] if all(x is FULL or x is ELL for x in its[:-1]) else its
        if len(its) == 1:
            return its[0]
        return tup(its)
    return i


def call(f, args, kws=()):
    return mk("call", f, tuple(args), tuple(sorted(kws, key=lambda kv: kv[0])))


def ecall(name, *args, **kws):
    return call(mk("ext", name), args, tuple(kws.items()))


_remake = {
    "sqrt": sqrt, "fdiv": fdiv, "mod": mod, "pow": power,
    "min": lambda ts: minmax("min", ts), "max": lambda ts: minmax("max", ts),
    "lt0": lt0, "le0": le0, "eq": eq, "eq0": lambda p: eq(p, ZERO), "is": is_, "in": in_,
    "not": not_, "and": lambda ts: and_(*ts), "or": lambda ts: or_(*ts), "ite": ite, "exists": exists, "truth": truth,
    "strcat": lambda ps: strcat(*ps), "sub": sub, "slice": slice_, "len": length,
    "divides": lambda n, e: eq(mod(e, n), ZERO),
}


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "num":
        return str(a[0])
    if o == "const":
        return repr(a[1]) if a[0] != "ellipsis" else "..."
    if o in ("sym",):
        return a[0]
    if o in ("ext", "fnref", "clsref", "modref"):
        return a[0].replace("builtins.", "").replace("numpy", "np")
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "sub":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in (a if a[2] is not NONE else a[:2]))
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if o == "poly":
        ps = []
        for m, c in a[0]:
            s = "*".join(show(x, d) + (f"^{e}" if e != 1 else "") for x, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = f"{c}*{s}"
            ps.append(s)
        return "(" + " + ".join(ps).replace("+ -", "- ") + ")"
    if o == "lt0":
        return f"{show(a[0], d)} < 0"
    if o == "le0":
        return f"{show(a[0], d)} <= 0"
    if o == "eq0":
        return f"{show(a[0], d)} == 0"
    if o in ("eq", "is", "in"):
        return f"({show(a[0], d)} {'==' if o == 'eq' else o} {show(a[1], d)})"
    if o == "divides":
        return f"({show(a[1], d)} % {show(a[0], d)} == 0)"
    if o == "not":
        return f"not {show(a[0], d)}"
    if o == "truth":
        return f"bool({show(a[0], d)})"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(show(x, d) for x in a[0]) + ")"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "call":
        args = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join(args)})"
    if o == "strcat":
        return "f'" + "".join(x.a[1] if is_str(x) else "{" + show(x, d) + "}" for x in a[0]) + "'"
    if o == "listb":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if o == "ent":
        s = show(a[2], d)
        for L in a[0]:
            s += f" for {show(L, d)}"
        if a[1] is not TRUE:
            s += f" if {show(a[1], d)}"
        return s
    if o == "loop":
        return f"L<{show(a[0], d)}" + (f"#{a[1]}" if a[1] else "") + ">"
    if o == "iter":
        return f"i@{show(a[0], d)}"
    if o == "exists":
        return f"any({show(a[1], d)} for {show(a[0], d)})"
    if o in ("min", "max"):
        return f"{o}({', '.join(show(x, d) for x in a[0])})"
    if o == "new":
        return f"<{a[0].rsplit('.', 1)[-1]}{'' if not a[1] else a[1]}>"
    return f"{o}({', '.join(show(x, d) for x in a)})"
