"""Boolean conditions as reduced ordered decision graphs over their elementary conditions (a normal form)."""
from . import terms as tm
from .terms import TRUE, FALSE

LIMIT = 4000


class Big(Exception):
    pass


class Graphs:
    """node = (atom index, low, high) or a bool; atoms are matched with `same`"""

    def __init__(self, same=None, about=(), cases=False):
        self.atoms, self.same = [], same
        self.every = cases
        self.cases = 60 if cases else 0     # how many conditional values within conditions may be told apart
        self.split = comparisons(about) if about else {}
        self.memo, self.opmemo, self.nodes = {}, {}, {}

    def atom(self, t):
        for i, x in enumerate(self.atoms):
            if x is t:
                return i
        if self.same is not None:
            for i, x in enumerate(self.atoms):
                if self.same(x, t):
                    return i
        self.atoms.append(t)
        if len(self.atoms) > 60:
            raise Big
        return len(self.atoms) - 1

    def mk(self, v, lo, hi):
        if lo is hi:
            return lo
        k = (v, id(lo), id(hi))
        r = self.nodes.get(k)
        if r is None:
            if len(self.nodes) > LIMIT:
                raise Big
            r = self.nodes[k] = (v, lo, hi)
        return r

    def ite(self, c, x, y):
        if c is True:
            return x
        if c is False:
            return y
        if x is y:
            return x
        if x is True and y is False:
            return c
        k = (id(c), id(x), id(y))
        r = self.opmemo.get(k)
        if r is None:
            v = min(n[0] for n in (c, x, y) if not isinstance(n, bool))

            def co(n, b):
                return n if isinstance(n, bool) or n[0] != v else n[1 + b]
            r = self.mk(v, self.ite(co(c, 0), co(x, 0), co(y, 0)), self.ite(co(c, 1), co(x, 1), co(y, 1)))
            self.opmemo[k] = r
        return r

    def build(self, g):
        r = self.memo.get(g)
        if r is not None:
            return r
        if g is TRUE:
            r = True
        elif g is FALSE:
            r = False
        elif g.op == "and":
            r = True
            for x in g.a[0]:
                r = self.ite(r, self.build(x), False)
        elif g.op == "or":
            r = False
            for x in g.a[0]:
                r = self.ite(r, True, self.build(x))
        elif g.op == "not":
            r = self.ite(self.build(g.a[0]), False, True)
        elif g.op == "ite":
            r = self.ite(self.build(tm.truth(g.a[0])), self.build(tm.truth(g.a[1])), self.build(tm.truth(g.a[2])))
        elif self.cases and (c := choice(g)) is not None:
            self.cases -= 1
            if not self.cases:
                raise Big
            from .diff import restrict
            n = tm.not_(c.a[0])
            x, y = tm.subst(g, {c: c.a[1]}), tm.subst(g, {c: c.a[2]})
            r = self.ite(self.build(c.a[0]), self.build(restrict(x, c.a[0])), self.build(restrict(y, n)))
        elif g.op in ("le0", "lt0", "eq", "eq0") and (self.split or self.every) and self.compared(g) is not None:
            r = self.compared(g)
        else:
            n = tm.not_(g)
            if n.op != "not" and n.op not in ("and", "or", "ite") and n.key < g.key:
                r = self.ite(self.build(n), False, True)
            else:
                r = self.mk(self.atom(g), False, True)
        self.memo[g] = r
        return r

    def compared(self, g):
        """p < 0, p <= 0 and p == 0 for the same p, in terms of  p == 0  and  p < 0 """
        p = poly(g)
        if p is None:
            return None
        k, c = p
        if self.every:
            n = tm.neg(k)
            if k not in self.split and n not in self.split:
                m = min(k, n, key=lambda t: t.key)
                self.split[m] = tm._is_int_poly(m)
        pos = k in self.split
        if not pos:
            k, c = tm.neg(k), -c
        if k not in self.split:
            return None
        q = tm.add(k, tm.num(c))
        if self.split[k]:               # whole numbers: everything is a bound from above
            if g.op in ("eq", "eq0"):
                return self.ite(self.bound(q), self.ite(self.bound(tm.add(q, tm.ONE)), False, True), False)
            if pos:
                return self.bound(q)
            return self.ite(self.bound(tm.add(q, tm.ONE)), False, True)     # -q <= 0
        E = self.mk(self.atom(tm.mk("eq0", q)), False, True)
        if g.op in ("eq", "eq0"):
            return E
        lt = self.mk(self.atom(tm.mk("lt0", q)), False, True)
        if not pos:
            lt = self.ite(lt, False, True)
        return self.ite(E, g.op == "le0", lt)

    def bound(self, q):
        g = tm.le0(q)
        if g is TRUE or g is FALSE:
            return g is TRUE
        return self.mk(self.atom(g), False, True)

    def support(self, n, seen=None):
        out, st, seen = set(), [n], set()
        while st:
            x = st.pop()
            if isinstance(x, bool) or id(x) in seen:
                continue
            seen.add(id(x))
            out.add(x[0])
            st += [x[1], x[2]]
        return out

    def paths(self, n, want=True, limit=400):
        """assignments (dict atom -> bool) leading to `want`"""
        out = []

        def go(x, acc):
            if isinstance(x, bool):
                if x is want:
                    out.append(dict(acc))
                    if len(out) > limit:
                        raise Big
                return
            go(x[1], acc + [(x[0], False)])
            go(x[2], acc + [(x[0], True)])
        go(n, [])
        return out


PLAIN = {"le0", "lt0", "eq", "eq0", "is", "not", "truth", "in", "poly", "len", "sub", "attr", "tuple", "min", "max", "mod", "fdiv", "sqrt", "pow", "minmax"}


def choice(g, depth=0):
    """a conditional value the condition depends on"""
    for x in tm.children(g):
        if x.op == "ite":
            r = choice(x.a[0], depth + 1) if depth < 12 else None
            return r if r is not None else x
    for x in tm.children(g):
        if depth < 12 and (x.op in PLAIN or x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].rpartition(".")[2] in ("isinstance", "callable", "int", "float")):
            r = choice(x, depth + 1)
            if r is not None:
                return r
    return None


def poly(g):
    if g.op in ("le0", "lt0"):
        p = g.a[0]
    elif g.op == "eq0":
        p = g.a[0]
    else:
        if g.a[0].op == "const" or g.a[1].op == "const":
            return None
        p = tm.minus(*g.a)
    if p.op == "num":
        return None
    d = dict(tm._pd(tm._norm_ineq(p)))
    c = d.pop((), 0)
    return tm._fromd(d), c


def comparisons(about):
    """the quantities that are compared both by order and by equality: whether they are whole numbers"""
    out, seen, st = {0: set(), 1: set()}, set(), list(about)
    while st:
        g = st.pop()
        if g in seen:
            continue
        seen.add(g)
        if g.op in ("and", "or"):
            st += g.a[0]
        elif g.op in ("not", "ite"):
            st += g.a
        elif g.op in ("le0", "lt0", "eq", "eq0"):
            p = poly(g)
            if p is not None:
                out[g.op in ("eq", "eq0")].add(p[0])
    r = {}
    for k in out[1]:
        n = tm.neg(k)
        if k in out[0] or n in out[0]:
            k = min(k, n, key=lambda t: t.key)
            r[k] = tm._is_int_poly(k)
    return r


def primes(g, max_atoms=8, max_out=8):
    """the condition as a disjunction of all its prime implicants (tuples of literals), None when that is large"""
    B = Graphs()
    try:
        n = B.build(g)
        if isinstance(n, bool) or len(B.atoms) > max_atoms:
            return None
        cubes = {frozenset(p.items()) for p in B.paths(n)}
    except Big:
        return None
    # all implicants by consensus
    changed = True
    while changed:
        changed = False
        cs = sorted(cubes, key=lambda c: (len(c), sorted(c)))
        cs = [c for i, c in enumerate(cs) if not any(d < c for d in cs)]
        cubes = set(cs)
        for i, c in enumerate(cs):
            for d in cs[i + 1:]:
                op = [v for v, b in c if (v, not b) in d]
                if len(op) == 1:
                    r = frozenset(x for x in c | d if x[0] != op[0])
                    if not any(e <= r for e in cubes):
                        cubes.add(r)
                        changed = True
        if len(cubes) > 60:
            return None
    if len(cubes) > max_out:
        return None
    return [tuple(B.atoms[v] if b else tm.not_(B.atoms[v]) for v, b in sorted(c)) for c in cubes]
