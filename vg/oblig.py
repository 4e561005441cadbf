"""An obligation: a small driver program is evaluated over the code in /repo and over a reference model of the property;
what the property observes (results, effects, refusals, order of effects) must agree for every input."""
import copy
import os
import traceback
from . import terms as tm
from .terms import T, mk, TRUE, FALSE, NONE
from .engine import Engine, St, AnalysisError
from .program import Program
from . import diff as df

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class Sel:
    """which effects an obligation looks at; grp = name of the group"""

    def __init__(self, grp, kind, test, fields=None, cond_only=False, fam=None):
        self.grp, self.kind, self.test, self.fields, self.cond_only, self.fam = grp, kind, test, fields, cond_only, fam


def callee(f):
    if f.op == "attr":
        return f.a[1]
    if f.op in ("ext", "fnref", "clsref"):
        return f.a[0].rpartition(".")[2]
    if f.op == "sub":
        x = f
        while x.op == "sub":
            x = x.a[0]
        if x.op == "attr":
            return x.a[1]
    return "?"


def calls(*names, grp=None, args=True):
    def test(e):
        return callee(e.data[0]) in names
    return Sel(grp or "call " + "/".join(names), "call", test, None if args else (0,))


def made(*names, grp=None):
    """objects of the libraries that keep a state of their own: how many there are, and when they are made, matters"""
    def test(e):
        return callee(e.data[0]) in names
    return Sel(grp or "made " + "/".join(names), "made", test)


def base_name(t):
    while t.op in ("sub", "attr"):
        if t.op == "attr":
            return t.a[1]
        t = t.a[0]
    return t.a[0].rpartition(".")[2].rpartition("#")[2] if t.op == "root" else t.op


def base_label(t):
    while t.op == "sub":
        t = t.a[0]
    return t.a[0] if t.op == "root" else ""


def stores(*labels, grp=None):
    """element stores into containers whose (private) home is one of the classes"""
    def test(e):
        lab = base_label(e.data[0])
        return any(lab.startswith(x + ".") or lab == x for x in labels)
    return Sel(grp or "store " + "/".join(labels), "sub", test)


def attr_subs(*names, grp=None):
    def test(e):
        return base_name(e.data[0]) in names
    return Sel(grp or "store " + "/".join(names), "sub", test)


def attrs(*names, grp=None, on=None):
    def test(e):
        return e.data[1] in names and (on is None or on(e.data[0]))
    return Sel(grp or "attribute " + "/".join(names), "attr", test)


def refusals(*classes, grp="refusal"):
    def test(e):
        n = e.data[0]
        n = n.a[0].rpartition(".")[2] if isinstance(n, T) else str(n)
        return not classes or n in classes
    return Sel(grp, "raise", test, cond_only=True)


DRAWING = ("diagnostics/plot.py", "diagnostics/soundfieldplot.py")


class Obl:
    def __init__(self, name, driver, bind=None, see=(), ret=True, order=(), nest=(), types=None, doc="", anchors=(), skip=None, two_dim=False, any_length=False, ignore=DRAWING, alts=(), boundary=(), phases=(), copies=False, contents=False, refused=True, part=False):
        self.part = part                # one step of something larger that is judged as a whole first
        self.refused = refused          # whether it matters in which cases the code refuses to go on
        self.contents = contents        # whether differences in the containers named in the values count as broken
        self.copies = copies            # whether values are shared or copied matters
        self.phases = list(phases)      # all effects of one group come before all of the other
        self.boundary = tuple(boundary)     # functions whose calls are compared and not followed
        self.name, self.driver, self.bind, self.see, self.ret = name, driver, bind or {}, list(see), ret
        self.order, self.nest, self.types, self.doc = list(order), list(nest), dict(types or {}), doc
        self.anchors = list(anchors)
        self.skip = skip
        self.ignore = ignore    # files whose unfollowed calls cannot have the effects looked at
        self.any_length = any_length    # how often counted loops run is not this obligation's business
        self.alts = list(alts)      # other accepted ways to say the same: (driver, bind)
        self.two_dim = two_dim      # signals are known to have two axes: ':' and '...' select the same


class Fact:
    """an obligation about the program text as a whole; ask(prog) yields (severity, message, where) and ends with what was inspected"""
    def __init__(self, name, ask, doc=""):
        self.name, self.ask, self.doc = name, ask, doc

    def decide(self, prog):
        res = Result(self)
        try:
            res.details, res.functions, res.events = self.ask(prog)
        except Exception as ex:
            res.status = "undecided"
            res.details = [("U", f"analysis of the code failed: {type(ex).__name__}: {ex}", "")]
            return res
        if any(x[0] == "D" for x in res.details):
            res.status = "violated"
            res.details = [x for x in res.details if x[0] == "D"]
        elif any(x[0] == "A" for x in res.details):
            res.status = "missing"
        elif res.details:
            res.status = "undecided"
        return res


class Result:
    def __init__(self, obl):
        self.obl = obl
        self.status = "proved"
        self.details = []       # (severity, message, where)
        self.functions = set()
        self.events = 0
        self.terms = 0
        self.notes = []


_prog = {}


def load(root="/repo/src"):
    if root not in _prog:
        _prog[root] = add_spec(Program(root))
    return _prog[root]


def add_spec(p):
    for f in sorted(os.listdir(SPECDIR)):
        if f.endswith(".py"):
            p.add("spec." + f[:-3], os.path.join(SPECDIR, f))
    return p


class Side:
    pass


def run_side(prog, o, which):
    """the analysis of one side; obligations about the same driver share it"""
    memo = prog.__dict__.setdefault("_sides", {})
    k = (o.driver, which, tuple(sorted((n, b[which]) for n, b in o.bind.items() if not isinstance(b[which], T))), tuple(sorted((n, str(v)) for n, v in o.types.items())), o.boundary)
    if any(isinstance(b[which], T) for b in o.bind.values()):
        return evaluate(prog, o, which)
    if k not in memo:
        memo[k] = evaluate(prog, o, which)
    return memo[k]


def evaluate(prog, o, which):
    types = {mk("root", k): v if isinstance(v, str) else v[which] for k, v in o.types.items()}
    eng = Engine(prog, types=types, boundary=o.boundary)
    f = prog.func("spec." + o.driver)
    st = St()
    args = []
    for p in f.node.args.args:
        b = o.bind.get(p.arg)
        if b is None:
            args.append(mk("root", p.arg))
        else:
            q = b[which]
            if isinstance(q, T):
                args.append(q)
            else:
                args.append(eng.ref_of(q))
    r = eng.invoke(f, args, {}.items(), st)
    s = Side()
    s.eng, s.st = eng, st
    s.ret = finalize(eng.deref(r, st), eng)
    s.events = eng.events
    s.labels = set(eng.label.values())
    s.recs = getattr(eng, "recs", {})
    return s


def finalize(t, eng):
    return t


def implied(loops):
    out = set()
    for L in loops:
        tr = L.a[0]
        it = mk("iter", L)
        if tr.op != "while":
            out.add(tm.not_(tm.le0(tr)))
            out.add(tm.lt(it, tr))
            if tr.op == "len":
                out.add(mk("truth", tr.a[0]))
                out.add(tm.not_(tm.le0(tr)))
        out.add(tm.le0(tm.neg(it)))
    return out


def clean_guard(e, alive=()):
    imp = implied(e.loops)
    for inst, ls in alive:
        if e.inst[:len(inst)] == inst:
            imp |= ls
    ls = [l for l in df.lits(e.guard) if l not in imp]
    return tm.and_(*ls)


class Ev:
    def __init__(self, e, n, alive=()):
        self.kind, self.loops, self.data, self.where, self.inst, self.n = e.kind, e.loops, e.data, e.where, e.inst, n
        self.full = e.guard
        self.guard = clean_guard(e, alive)
        self.later = ()     # what is known because no refusal is taken, before or after
        self.fn = e.fn


def merge_cases(evs, fields):
    """two effects of the same kind under complementary conditions are one effect with a conditional argument"""
    out = list(evs)
    changed = True
    while changed:
        changed = False
        for i in range(len(out) - 1):
            for j in range(i + 1, min(i + 4, len(out))):
                a, b = out[i], out[j]
                if a.kind != b.kind or a.loops != b.loops or a.kind == "raise":
                    continue
                ga, gb = set(df.lits(a.guard)), set(df.lits(b.guard))
                ra, rb = ga - gb, gb - ga
                if len(ra) != 1 or len(rb) != 1:
                    continue
                (x,), (y,) = ra, rb
                if tm.not_(x) is not y:
                    continue
                m = merge_data(x, a.data, b.data, a.kind)
                if m is None:
                    continue
                a2 = Ev.__new__(Ev)
                a2.__dict__.update(a.__dict__)
                a2.guard = tm.and_(*(ga & gb))
                a2.data = m
                out[i] = a2
                del out[j]
                changed = True
                break
            if changed:
                break
    return out


def merge_data(c, x, y, kind):
    if isinstance(x, T) and isinstance(y, T):
        return tm.ite(c, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return None
        out = []
        for n, (p, q) in enumerate(zip(x, y)):
            if kind in ("call", "made") and n == 0 and p is not q and isinstance(p, T):
                return None
            m = merge_data(c, p, q, None)
            if m is None:
                return None
            out.append(m)
        return tuple(out)
    return x if x == y else None


def data_diff(D, a, b):
    if a.kind in ("call", "made"):
        out = D.d(a.data[0], b.data[0])
        return out + D.dargs(a.data[1], a.data[2], b.data[1], b.data[2], a.data[0], b.data[0], a.data[0])
    out = []
    for n, (x, y) in enumerate(zip(a.data, b.data)):
        if isinstance(x, T) and isinstance(y, T):
            out += D.dindex(x, y) if a.kind == "sub" and n == 1 else D.d(x, y)
        elif isinstance(x, tuple) and isinstance(y, tuple):
            out += D.gen(x, y, TRUE, FALSE)
        elif x != y:
            if isinstance(x, T) or isinstance(y, T):
                out += D.U(TRUE, FALSE, "different kind of value")
            else:
                out += D.D(TRUE, FALSE, f"{x!r} instead of {y!r}")
    return out


def known_there(e):
    """what happens, given the condition under which it happens"""
    def go(x):
        return df.restrict(x, e.guard) if isinstance(x, T) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
    e2 = Ev.__new__(Ev)
    e2.__dict__.update(e.__dict__)
    e2.data = e.data[:1] + tuple(go(x) for x in e.data[1:])
    return e2


def ev_diff(D, a, b):
    out = D.loops(a.loops, b.loops, TRUE, FALSE)
    old, D.same_loops = D.same_loops, not out
    if not out and not old:
        D.memo.clear()
    try:
        g = D.db(a.guard, b.guard)
        if g and (a.later or b.later):
            # a condition may leave out what is refused before or afterwards
            if not D.db(unrefused(a), unrefused(b)):
                g = []
        r = data_diff(D, a, b)
        if r and a.guard is not TRUE and b.guard is not TRUE:
            a2, b2 = known_there(a), known_there(b)
            if (a2.data, b2.data) != (a.data, b.data):
                q = data_diff(D, a2, b2)
                r = q if score(q) < score(r) or not q else r
        return out + g + r
    finally:
        if D.same_loops and not old:
            D.memo.clear()
        D.same_loops = old


def group(events, sel):
    out, alive = [], []     # alive: what is known because no earlier refusal was taken
    for n, e in enumerate(events):
        if e.kind == sel.kind and sel.test(e):
            x = Ev(e, n, alive)
            out.append(x)
        if e.kind == "raise":
            alive.append((e.inst, set(df.lits(tm.not_(clean_guard(e, alive))))))
    for x in out:
        if x.kind != "raise":
            x.later = alive
    return out


def unrefused(x):
    """the condition of an effect, together with nothing being refused"""
    known = set()
    for inst, ls in x.later:
        if x.inst[:len(inst)] == inst:
            known |= ls
    return tm.and_(x.guard, *known)


def refusal_cond(evs):
    g = FALSE
    for e in evs:
        g = tm.or_(g, tm.exists_all(e.loops, e.guard))
    return g


def score(r):
    return (sum(1 for q in r if q[0] == "U"), len(r))


def match_group(D, A, B, res, sel):
    """-> pairs; differences are recorded in res"""
    A, B = merge_cases(A, sel.fields), merge_cases(B, sel.fields)
    pairs, la = [], []
    left = list(B)
    for a in A:
        hit = None
        for b in left:
            if a.loops == b.loops and a.guard is b.guard and a.data == b.data:
                hit = b
                break
        if hit is not None:
            left.remove(hit)
            pairs.append((a, hit))
        else:
            la.append(a)
    la2 = []
    for a in la:
        hit = None
        for b in left:
            sv = (dict(D.bind), dict(D.rbind))
            if not ev_diff(D, a, b):
                hit = b
                break
            D.bind, D.rbind = sv
            D.memo.clear()
        if hit is not None:
            left.remove(hit)
            pairs.append((a, hit))
        else:
            la2.append(a)
    cand = []
    for i, a in enumerate(la2):
        for j, b in enumerate(left):
            r = ev_diff(D, a, b)
            cand.append((score(r), abs(i - j), i, j, r))
    cand.sort(key=lambda c: c[:4])
    ui, uj = set(), set()
    for sc, _, i, j, r in cand:
        if i in ui or j in uj:
            continue
        ui.add(i)
        uj.add(j)
        a, b = la2[i], left[j]
        pairs.append((a, b))
        for q in r:
            res.append((q[0], f"{sel.grp}: {q[1]}: " + show2(q[2], q[3]), a.where))
    for i, a in enumerate(la2):
        if i not in ui:
            bad = any(df.opaque(x) for x in flat(a.data)) or df.opaque(a.guard)
            res.append(("U" if bad else "D", f"{sel.grp}: additional effect {descr(a)}", a.where))
    for j, b in enumerate(left):
        if j not in uj:
            # an object may be filled before it is stored
            res.append(("U" if any(df.LOCAL in flat(a.data) for a in A) else "M", f"{sel.grp}: required effect missing: {descr(b)}", b.where))
    return pairs


def flat(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from flat(y)


def descr(e):
    s = " | ".join(tm.show(x, 5) if isinstance(x, T) else str(x) for x in e.data)[:400]
    if e.guard is not TRUE:
        s += " if " + tm.show(e.guard, 5)[:200]
    return s


def show2(a, b):
    if a is TRUE and b is FALSE:
        return ""
    return f"code: {tm.show(a, 6)[:300]}   property: {tm.show(b, 6)[:300]}"


def common(a, b):
    n = 0
    for x, y in zip(a.inst, b.inst):
        if x != y:
            break
        n += 1
    return n


def run(o, prog=None):
    """an obligation with several accepted reference forms is met by any of them; the first form says what is broken"""
    if isinstance(o, Fact):
        return o.decide(prog or load())
    r = run1(o, prog)
    if o.alts and r.status in ("violated", "undecided"):
        for driver, bind, types in o.alts:
            q = copy.copy(o)
            q.driver, q.bind, q.types = driver or o.driver, bind or o.bind, types or o.types
            x = run1(q, prog)
            if x.status == "proved":
                return x
    return r


def run1(o, prog=None):
    prog = prog or load()
    res = Result(o)
    for q in [b[0] for b in o.bind.values() if not isinstance(b[0], T)] + o.anchors:
        if not known(prog, q):
            res.status = "missing"
            res.details.append(("A", f"{q} does not exist any more", q))
            return res
    Engine.ZIPPED.clear()
    B = run_side(prog, o, 1)
    alike = set(Engine.ZIPPED)      # lengths the reference takes to be the same
    try:
        A = run_side(prog, o, 0)
    except (AnalysisError, RecursionError, Exception) as ex:
        res.status = "undecided"
        res.details.append(("U", f"analysis of the code failed: {type(ex).__name__}: {ex}", ""))
        res.notes.append(traceback.format_exc()[-1500:])
        return res
    wrong = [n for n in B.eng.unknown if "/spec/" in n.rpartition(chr(10))[2]]
    assert not wrong, f"reference model not analysable: {wrong[0]}"
    res.functions = {f for f in A.eng.functions if not f.startswith("spec.")}
    res.notes = list(A.eng.unknown)
    D = df.Differ(A.recs, B.recs, A.labels, B.labels)
    D.alike = alike
    D.refused_a, D.refused_b = A.eng.valid, B.eng.valid
    called = {e.data[0] for e in B.events if e.kind == "call"}
    unfollowed = [e for e in A.events if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op not in ("ext", "attr") and e.data[0] not in called]
    D.unfollowed = bool(unfollowed)
    D.two_dim, D.any_length, D.copies = o.two_dim, o.any_length, o.copies
    out = []
    allpairs = {}
    n = 0
    for sel in o.see:
        ga, gb = group(A.events, sel), group(B.events, sel)
        n += len(ga)
        if sel.cond_only:
            ca, cb = refusal_cond(ga), refusal_cond(gb)
            # what is refused for other reasons may be left out of the condition
            old = D.refused_a, D.refused_b
            D.refused_a, D.refused_b = others(A, ga), others(B, gb)
            ds = D.db(ca, cb)
            if ds:
                # what Python refuses by itself need not be refused again
                ia, ib = ([e for e in x.events if e.kind == "implied"] for x in (A, B))
                if ia or ib:
                    ats = df.atoms_of(ca) | df.atoms_of(cb)
                    ja, jb = (tm.or_(*[refusal_cond([e]) for e in i if df.atoms_of(refusal_cond([e])) & ats]) for i in (ia, ib))
                    if (ja is not FALSE or jb is not FALSE) and not D.db(tm.or_(ca, ja), tm.or_(cb, jb)):
                        ds = []
            if any(q[0] == "D" for q in ds) and excess(D, ga, ca, cb):
                ds = [("U", "more is asserted: " + q[1], *q[2:]) for q in ds]
            # an assertion the property does not know of may state what always holds
            for e in list(ga):
                n0 = e.data[0].a[0] if isinstance(e.data[0], T) else str(e.data[0])
                if ds and n0.rpartition(".")[2] == "AssertionError":
                    rest = [x for x in ga if x is not e]
                    d2 = D.db(refusal_cond(rest), cb)
                    # but not if what it states is then found to be left out
                    gone = any(q[0] == "D" for q in d2) and any(q[0] == "U" or "left out" in q[1] for q in ds + d2)
                    if len(d2) < len(ds) and not gone:
                        ga, ds = rest, d2
                        out.append(("U", "assertion the property does not know: " + tm.show(e.guard, 5)[:300], e.where))
            D.refused_a, D.refused_b = old
            for q in unsettled(ds, [ca], [cb]):
                w = ", ".join(sorted({e.where for e in ga})) or "(none left)"
                out.append((q[0], f"{sel.grp}: {q[1]}: " + show2(q[2], q[3]), w))
            allpairs[sel.grp] = []
            continue
        mine = []
        allpairs[sel.grp] = match_group(D, ga, gb, mine, sel)
        if sel.fam is not None and any(x[0] == "M" for x in mine):
            # the required effect may be one the selectors could not classify
            if any(e.kind == sel.kind and sel.fam(e) and not any(q.kind == e.kind and q.test(e) for q in o.see) for e in A.events):
                mine = [("U" if x[0] == "M" else x[0], *x[1:]) for x in mine]
        out += unsettled(mine, ga, gb)
    if o.ret:
        ra, rb = A.ret, B.ret
        n += 1
        if A.st.dead == "raise" and not B.st.dead:
            out.append(("D", "result: the calls always fail", entry(o)))
        xs, ys = (ra.a[0], rb.a[0]) if ra.op == rb.op == "tuple" and len(ra.a[0]) == len(rb.a[0]) else ((ra,), (rb,))
        for i, (x, y) in enumerate(zip(xs, ys)):
            if A.st.dead == "raise":
                break
            for q in unsettled(D.d(x, y), [x], [y]):
                out.append((q[0], f"result {i}: {q[1]}: " + show2(q[2], q[3]), entry(o)))
    out += contents(A, B, D, o)
    if o.refused and not any(x.kind == "raise" for x in o.see):
        every = Sel("refused", "raise", lambda e: True, cond_only=True)
        ga, gb = group(A.events, every), group(B.events, every)
        D.refused_a = D.refused_b = ()
        for q in D.db(refusal_cond(ga), refusal_cond(gb))[:1]:
            out.append(("U", f"refused: {q[1]}: " + show2(q[2], q[3]), ", ".join(sorted({e.where for e in ga}))))
    # order of effects
    unsure = {m.partition(":")[0] for s, m, _ in out if s in "UM"}
    for g1, g2 in o.order:
        if g1 in unsure or g2 in unsure:
            continue
        P, Q = allpairs.get(g1, []), allpairs.get(g2, [])
        for a1, b1 in P:
            for a2, b2 in Q:
                if a1 is a2:
                    continue
                if a1.inst == a2.inst and tm.and_(a1.guard, a2.guard) is FALSE:
                    continue    # never both in the same pass
                if (b1.n < b2.n) != (a1.n < a2.n):
                    out.append(("D", f"order: '{descr(a1)[:150]}' and '{descr(a2)[:150]}' exchanged", a1.where))
    for g1, g2 in o.nest:
        if g1 in unsure or g2 in unsure:
            continue
        for a1, b1 in allpairs.get(g1, []):
            for a2, b2 in allpairs.get(g2, []):
                if common(a1, a2) != common(b1, b2):
                    out.append(("D", f"loop structure: '{descr(a1)[:150]}' and '{descr(a2)[:150]}' share {common(a1, a2)} loops instead of {common(b1, b2)}", a1.where))
    for g1, g2 in o.phases:
        s1, s2 = (next(x for x in o.see if x.grp == g) for g in (g1, g2))
        ref = [common(x, y) for x in group(B.events, s1) for y in group(B.events, s2)]
        for a1 in group(A.events, s1):
            for a2 in group(A.events, s2):
                if ref and (common(a1, a2) > max(ref) or a1.n > a2.n):
                    out.append(("D", f"phases: '{descr(a2)[:150]}' can come before '{descr(a1)[:150]}'", a2.where))
    if any(s == "M" for s, _, _ in out):
        # a missing effect is definite when nothing in the analysed code is opaque
        bad = list(unfollowed)
        bad += [u for u in A.eng.unknown if u not in B.eng.unknown and not any(x in u.partition(":")[0] for x in o.ignore)]
        out = [(("U" if bad else "D") if s == "M" else s, m, w) for s, m, w in out]
    if {n for _, n in A.eng.rebound} - {n for _, n in B.eng.rebound}:
        # what is found in a dictionary that takes the place of another one is not followed
        out = [("U" if s in "DM" else s, m, w) for s, m, w in out]
    res.events = n
    res.terms = len(D.memo)
    seen = set()
    comp = {}
    for x in out:
        if x not in seen:
            seen.add(x)
            res.details.append(x)
            comp.setdefault(x[1].partition(":")[0], set()).add(x[0])
    # each result and each group of effects is judged by itself
    if any(v == {"D"} for v in comp.values()):
        res.status = "violated"
        res.details = [x for x in res.details if comp[x[1].partition(":")[0]] == {"D"}]
    elif out:
        res.status = "undecided"
    res.sides = (A, B)
    return res


def excess(D, ga, ca, cb):
    """whether the code refuses all that has to be refused, and more only by way of assertions (which may state what always holds)"""
    rest = [e for e in ga if callee_name(e) != "AssertionError"]
    return len(rest) < len(ga) and D.implies(cb, ca) and D.implies(refusal_cond(rest), cb)


def callee_name(e):
    return (e.data[0].a[0] if isinstance(e.data[0], T) else str(e.data[0])).rpartition(".")[2]


def others(side, evs):
    """the refusals that are not the ones looked at"""
    mine = {(tuple(e.loops), e.full) for e in evs}
    return [x for x in side.eng.valid if x not in mine]


def settle(rows, prog):
    """rows: (obligation, result) of one property.  A step that is not as stated breaks the property only if the whole it belongs
    to cannot be shown to be right, and every other step is as stated: work may be divided differently between the steps."""
    bad = [(o, r) for o, r in rows if getattr(o, "part", False) and r.status == "violated"]
    if not bad:
        return
    whole = [r for o, r in rows if not getattr(o, "part", False)]
    why = ""
    if whole and all(r.status == "proved" for r in whole):
        why = "the whole is as stated"
    else:
        import importlib
        known = {o.name: r for o, r in rows}
        for q in importlib.import_module("rules.parts").OBLIGATIONS:
            if q.name not in known:
                known[q.name] = run(q, prog)
        off = [n for n, r in known.items() if n.startswith("step: ") and r.status != "proved"]
        if len(off) > 1:
            why = "the steps are divided differently: " + ", ".join(off)
    for o, r in bad:
        new = why or new_names(r)
        if new:
            r.status = "undecided"
            r.details = [("U", f"{m} ({new})", w) for _, m, w in r.details]


def new_names(r):
    """attributes the code keeps and the statement does not know"""
    def names(side):
        acc, seen = set(), set()
        for x in (side.ret, *(y for e in side.events for y in (e.guard, *flat(e.data)))):
            roots_of(x, acc, seen)
        return {x for x in acc if x.startswith(".")} | {"." + e.data[1] for e in side.events if e.kind == "attr"}
    a, b = (names(s) for s in r.sides)
    more = a - b
    return "attributes that are not known: " + ", ".join(sorted(more)) if more else ""


def roots_of(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "root":
        acc.add(t.a[0])
    if t.op == "attr":
        acc.add("." + str(t.a[1]))
    for c in tm.children(t):
        roots_of(c, acc, seen)


def failures(xs):
    """the kinds of failure the analysis leaves open ("the guarded statements failed") that occur in effects or terms"""
    seen, acc, todo = set(), set(), []
    for x in xs:
        todo += [x] if isinstance(x, T) else [x.guard, *flat(x.data), *x.loops]
    while todo:
        t = todo.pop()
        if t in seen or not isinstance(t, T):
            continue
        seen.add(t)
        if t.op == "exc":
            acc.add(t.a[0])
        todo += tm.children(t)
    return acc


def unsettled(ds, ga, gb):
    """when guarded statements fail is not known: differences between effects that depend on it are not settled"""
    if ds and failures(ga) - failures(gb):
        return [("U" if q[0] in "DM" else q[0], *q[1:]) for q in ds]
    return ds


def storage(e):
    """the named storage an effect changes"""
    return base_label(e.data[0]) if e.kind in ("sub", "dict", "append", "extend") else ""


def contents(A, B, D, o):
    """values are shown with the names of the containers they are found in: what those hold has to agree as well"""
    acc, seen = set(), set()
    for x in (A.ret, *(y for s in o.see for e in A.events if e.kind == s.kind and s.test(e) for y in (e.guard, *flat(e.data)))):
        roots_of(x, acc, seen)
    out, done = [], set()
    while True:
        acc |= {x for x in A.labels | B.labels if x.endswith("[]") and x[:-2] in acc}
        todo = sorted(x for x in acc - done if x in A.labels or x.endswith("[]") or any(storage(e) == x for e in A.events + B.events))
        if not todo:
            return out
        for la in todo:
            done.add(la)
            if la == "local":
                out.append(("U", "contents: of a container without a name", ""))
                continue
            lb = D.bind.get(la, la)
            for kind in ("dict", "sub", "append", "extend"):
                sa, sb = (Sel("contents of " + la, kind, lambda e, n=n: storage(e) == n) for n in (la, lb))
                ga, gb = group(A.events, sa), group(B.events, sb)
                for e in ga:
                    for x in (e.guard, *flat(e.data)):
                        roots_of(x, acc, seen)
                mine = []
                match_group(D, ga, gb, mine, sa)
                mine = unsettled(mine, ga, gb)
                if la.endswith("[]") and any(e.kind in ("dict", "sub", "append", "extend") and (storage(e) == la[:-2] or isinstance(e.data[0], T) and base_name(e.data[0]) == la[:-2].rpartition(".")[2]) and any(x is df.LOCAL or x.op == "dictb" and x.a[0] for x in flat(e.data)) for e in A.events):
                    mine = [("U" if x[0] == "M" else x[0], *x[1:]) for x in mine]   # filled before it is stored
                out += mine if o.contents else [("U", *x[1:]) for x in mine]


def entry(o):
    return ", ".join(sorted(b[0] for b in o.bind.values() if not isinstance(b[0], T)))


def known(prog, q):
    return prog.resolve(q)[0] in ("cls", "fn", "const") or prog.func(q) is not None
