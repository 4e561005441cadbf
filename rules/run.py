"""What the obligations about a run look at."""
from vg.oblig import Obl, Sel, calls, attrs, callee
from vg import terms as tm

TYPES = {"arrays": "aspsim.array.ArrayCollection", "sim_info": "aspsim.configutil.SimulatorInfo"}
BIND = {"Sim": ("aspsim.simulator.Simulator", "spec.sim.Simulator"), "Rec": ("aspsim.diagnostics.diagnostics.RecordSignal", "spec.sim.RecordSignal")}


def mentions(t, name):
    """does the term read attribute `name` of something"""
    return t.op == "attr" and t.a[1] == name or any(mentions(x, name) for x in parts(t))


def parts(t):
    for x in t.a:
        if isinstance(x, tm.T):
            yield x
        elif isinstance(x, tuple):
            st = list(x)
            while st:
                y = st.pop()
                if isinstance(y, tm.T):
                    yield y
                elif isinstance(y, tuple):
                    st.extend(y)


def private(t):
    return t.op == "root" and ("." in t.a[0] or t.a[0].startswith("local"))


def key_kind(k):
    fr, s, m, a = (mentions(k, n) for n in ("names_free_src", "names_src", "names_mic", "arrays"))
    if s and m:
        return "contribution"
    if m:
        return "mic"
    if fr:
        return "free"
    if s:
        return "src"
    return "other"


def signal_write(e):
    """kind of the signal an element store goes to; None when it is not a store into a signal"""
    b, ix = e.data[0], e.data[1]
    if b.op != "sub" or not private(b.a[0]) or not has_slice(ix):
        return None
    return key_kind(b.a[1])


def has_slice(ix):
    if ix.op == "slice" or ix.op == "const" and ix is tm.FULL:
        return True
    return ix.op == "tuple" and any(has_slice(x) or "llipsis" in str(x.a) for x in ix.a[0])


def writes(*kinds, grp):
    return Sel(grp, "sub", lambda e: signal_write(e) in kinds, fam=lambda e: signal_write(e) == "other")


def alloc_of(v, name):
    return v.op == "alloc" and v.a[0].op == "call" and callee(v.a[0].a[0]) == name


FILTERS = Sel("filter of a path", "sub", lambda e: any(alloc_of(v, "create_filter") for v in e.data[2:] if isinstance(v, tm.T)))
PROCESS = Sel("filtering", "call", lambda e: callee(e.data[0]) == "process" and mentions(e.data[0], "names_mic"), fam=lambda e: callee(e.data[0]) == "process")
NEWIR = Sel("filter update", "call", lambda e: callee(e.data[0]) == "update_ir")
MIC = writes("mic", grp="microphone signal")
CONTRIB = writes("contribution", grp="saved contribution")
FREE = writes("free", grp="free source signal")
DRAWN = calls("get_samples", grp="source samples")


def shaped(v):
    """kind of array a whole signal is set to"""
    if v.op == "writes":
        return shaped(v.a[0])
    if v.op == "call" and v.a[0].op == "ext":
        n = v.a[0].a[0].rpartition(".")[2]
        return n if n in ("zeros", "concatenate", "zeros_like", "empty", "ones", "full", "hstack", "append", "roll", "pad", "copy") else None
    return None


def whole(e):
    if private(e.data[0]) and len(e.data) > 2 and isinstance(e.data[2], tm.T) and not has_slice(e.data[1]):
        return shaped(e.data[2])


CREATED = Sel("creation of a signal", "sub", lambda e: whole(e) in ("zeros", "empty", "ones", "full") and not over_signals(e.data[1], e.data[0]))


def over_signals(k, home):
    """key of a loop over the signals themselves"""
    return any(x.op == "keys" and x.a[0] is home for x in walk(k))


def walk(t):
    yield t
    for x in parts(t):
        yield from walk(x)


SHIFTED = Sel("shift of the buffers", "sub", lambda e: whole(e) is not None and over_signals(e.data[1], e.data[0]),
              fam=lambda e: whole(e) is not None or len(e.data) > 2 and over_signals(e.data[1], e.data[0]) or has_slice(e.data[1]) and e.data[0].op == "sub" and private(e.data[0].a[0]) and over_signals(e.data[0].a[1], e.data[0].a[0]))
IDX = attrs("idx", grp="local position")
STEP = attrs("n_tot", grp="global position")
PROC = Sel("processor call", "call", lambda e: e.data[0].op == "attr" and e.data[0].a[0] is tm.mk("root", "proc"))
SHARED = Sel("signals given to the processor", "attr", lambda e: e.data[1] == "sig" and e.data[0] is tm.mk("root", "proc"))
RECORD = Sel("recorded values", "sub", lambda e: private(e.data[0]) and has_slice(e.data[1]) and any(mentions_call(v) for v in e.data[2:3]))


def mentions_call(v):
    return isinstance(v, tm.T) and any(x.op == "const" and x.a[1:] == ("err",) for x in walk(v))


NEWPOS = Sel("new position", "attr", lambda e: e.data[1] == "pos")
