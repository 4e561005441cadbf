"""Development aid: applies small source changes to one file, one at a time, and reports what the checks say.

usage: mutate.py [-r] FILE[:FUNC[,FUNC]] RULES [RULES...]     (-r: behaviour-preserving rewrites instead of faults)
"""
import ast
import copy
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = "/repo/src"


from vg.faults import funcs, faults


def names_in(node, ctx):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def rewrites(fn, tree):
    cnt = [0]
    # name a subexpression
    for n in ast.walk(fn):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(list(b)):
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and s.value is not None:
                    v = s.value
                    if isinstance(v, ast.Constant) or isinstance(v, (ast.Yield, ast.YieldFrom)):
                        continue
                    s.value = ast.Name("tmp_value", ast.Load())
                    b.insert(i, ast.Assign([ast.Name("tmp_value", ast.Store())], v, lineno=s.lineno))
                    yield f"L{s.lineno} name the value"
                    del b[i]
                    s.value = v
                    for c in ast.walk(v):
                        if isinstance(c, ast.Call) and c.args and not isinstance(c.args[0], ast.Starred) and not any(isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.IfExp, ast.BoolOp)) for p in ast.walk(v)):
                            a = c.args[0]
                            if isinstance(a, (ast.Constant, ast.Name)):
                                continue
                            c.args[0] = ast.Name("tmp_arg", ast.Load())
                            b.insert(i, ast.Assign([ast.Name("tmp_arg", ast.Store())], a, lineno=s.lineno))
                            yield f"L{s.lineno} name argument"
                            del b[i]
                            c.args[0] = a
                if isinstance(s, ast.If) and s.orelse:
                    t, bo, oe = s.test, s.body, s.orelse
                    s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), t), oe, bo
                    yield f"L{s.lineno} invert if"
                    s.test, s.body, s.orelse = t, bo, oe
                if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and not s.orelse and i + 1 < len(b):
                    rest = b[i + 1:]
                    s.orelse = rest
                    del b[i + 1:]
                    yield f"L{s.lineno} else after return"
                    b.extend(rest)
                    s.orelse = []
                if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    t, bo = s.test, s.body
                    s.test = t.values[0]
                    s.body = [ast.If(t.values[1] if len(t.values) == 2 else ast.BoolOp(ast.And(), t.values[1:]), bo, [], lineno=s.lineno)]
                    yield f"L{s.lineno} nest if"
                    s.test, s.body = t, bo
                if isinstance(s, ast.If) and not (len(b) == 1 and f == "orelse"):
                    t = s.test
                    s.test = ast.Name("cond_value", ast.Load())
                    b.insert(i, ast.Assign([ast.Name("cond_value", ast.Store())], t, lineno=s.lineno))
                    yield f"L{s.lineno} name the condition"
                    del b[i]
                    s.test = t
                if isinstance(s, ast.AugAssign):
                    tgt = copy.deepcopy(s.target)
                    for x in ast.walk(tgt):
                        if hasattr(x, "ctx"):
                            x.ctx = ast.Load()
                    b[i] = ast.Assign([s.target], ast.BinOp(copy_load(s.target), s.op, s.value), lineno=s.lineno)
                    yield f"L{s.lineno} augmented assignment written out"
                    b[i] = s
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, (ast.Name, ast.Tuple)):
                    # over a list copy
                    it = s.iter
                    s.iter = ast.Call(ast.Name("list", ast.Load()), [it], [])
                    yield f"L{s.lineno} for over list()"
                    s.iter = it
                    t = s.target
                    s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [it], [])
                    s.target = ast.Tuple([ast.Name("unused_i", ast.Store()), t], ast.Store())
                    yield f"L{s.lineno} for with enumerate"
                    s.iter, s.target = it, t
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and isinstance(t, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                        w = ast.While(ast.Compare(ast.Name(t.id, ast.Load()), [ast.Lt()], [it.args[0]]), s.body + [ast.AugAssign(ast.Name(t.id, ast.Store()), ast.Add(), ast.Constant(1))], [], lineno=s.lineno)
                        b[i:i + 1] = [ast.Assign([ast.Name(t.id, ast.Store())], ast.Constant(0), lineno=s.lineno), w]
                        yield f"L{s.lineno} for range -> while"
                        b[i:i + 2] = [s]
                if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.For, ast.If, ast.While, ast.Return)):
                    b.insert(i, ast.Assign([ast.Name("unused_value", ast.Store())], ast.Constant(0), lineno=s.lineno))
                    yield f"L{s.lineno} do-nothing statement"
                    del b[i]
    # comprehension -> loop
    for n in ast.walk(fn):
        b = getattr(n, "body", None)
        if isinstance(b, list):
            for i, s in enumerate(list(b)):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    lc = s.value
                    g = lc.generators[0]
                    inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_list", ast.Load()), "append", ast.Load()), [lc.elt], []), lineno=s.lineno)]
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [], lineno=s.lineno)]
                    s.value = ast.Name("acc_list", ast.Load())
                    b[i:i] = [ast.Assign([ast.Name("acc_list", ast.Store())], ast.List([], ast.Load()), lineno=s.lineno), ast.For(g.target, g.iter, inner, [], lineno=s.lineno)]
                    yield f"L{s.lineno} comprehension -> loop"
                    del b[i:i + 2]
                    s.value = lc
    # extract the tail of a block into a helper
    for n in ast.walk(fn):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            for i in range(len(b)):
                for j in (i + 1, len(b)):
                    seg = b[i:j]
                    if not seg or any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Nonlocal)) for s in seg for x in ast.walk(s)):
                        continue
                    if isinstance(seg[0], ast.Expr) and isinstance(seg[0].value, ast.Constant):
                        continue
                    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for s in seg for x in ast.walk(s)):
                        continue
                    st = set().union(*[names_in(s, ast.Store) for s in seg]) if seg else set()
                    ld = set().union(*[names_in(s, ast.Load) for s in seg])
                    scoped = args_of(fn) | names_in(fn, ast.Store)
                    params = sorted((ld | st) & scoped & defined_before(fn, seg[0]))
                    out = sorted(x for x in st if used_elsewhere(fn, seg, x) or x in params)
                    if any(x not in params and maybe_undefined(seg, x) for x in out):
                        continue
                    call = ast.Call(ast.Name("_extracted_helper", ast.Load()), [ast.Name(p, ast.Load()) for p in params], [])
                    if not out:
                        ns = ast.Expr(call, lineno=seg[0].lineno)
                    elif len(out) == 1:
                        ns = ast.Assign([ast.Name(out[0], ast.Store())], call, lineno=seg[0].lineno)
                    else:
                        ns = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in out], ast.Store())], call, lineno=seg[0].lineno)
                    body = list(seg)
                    if out:
                        body.append(ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in out], ast.Load()) if len(out) > 1 else ast.Name(out[0], ast.Load())))
                    h = ast.FunctionDef("_extracted_helper", ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body, [], None, lineno=1, type_params=[])
                    b[i:j] = [ns]
                    tree.body.append(h)
                    yield f"L{seg[0].lineno} extract {len(seg)} statements"
                    tree.body.pop()
                    b[i:i + 1] = seg


def copy_load(t):
    t = copy.deepcopy(t)
    if hasattr(t, "ctx"):
        t.ctx = ast.Load()
    return t


def args_of(fn):
    return {a.arg for a in fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}


def defined_before(fn, stmt):
    out = args_of(fn)
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.lineno < stmt.lineno):
            out.add(x.id)
    return out


def used_elsewhere(fn, seg, name):
    inside = {id(x) for s in seg for x in ast.walk(s)}
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(fn))


def maybe_undefined(seg, name):
    return not any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name or isinstance(t, ast.Tuple) and any(isinstance(e, ast.Name) and e.id == name for e in t.elts) for t in s.targets) for s in seg)


def work(arg):
    import multiprocessing
    fpath, src, desc, rules = arg
    from vg import oblig
    from vg.program import Program
    mod = fpath[len(ROOT) + 1:-3].replace("/", ".")
    warnings.simplefilter("ignore")
    prog = Program(ROOT, override={fpath: src})
    for f in sorted(os.listdir(oblig.SPECDIR)):
        if f.endswith(".py"):
            prog.add("spec." + f[:-3], os.path.join(oblig.SPECDIR, f))
    out = []
    for r in rules:
        m = importlib.import_module("rules." + r)
        done = []
        for o in m.OBLIGATIONS:
            try:
                res = oblig.run(o, prog)
                if o.__class__.__name__ == "Obl":
                    done.append((o, res))
                    continue
                out.append((r, o.name, res.status, res.details[:2], res.notes[-1:] if res.status == "undecided" else []))
            except Exception as ex:
                import traceback
                out.append((r, o.name, "crash", [("X", traceback.format_exc()[-300:], "")], []))
        oblig.settle(done, prog)
        for o, res in done:
            out.append((r, o.name, res.status, res.details[:2], res.notes[-1:] if res.status == "undecided" else []))
    return desc, out


def main():
    import multiprocessing as mp
    args = sys.argv[1:]
    rw = False
    verbose = False
    while args and args[0].startswith("-"):
        if args[0] == "-r":
            rw = True
        if args[0] == "-v":
            verbose = True
        args.pop(0)
    fpath, _, only = args[0].partition(":")
    fpath = os.path.join(ROOT, "aspsim", fpath)
    only = set(only.split(",")) if only else None
    tree = ast.parse(open(fpath).read())
    base = ast.unparse(tree)
    jobs = []
    for name, fn in funcs(tree):
        if only and name not in only and not any(name.startswith(o + ".") for o in only):
            continue
        for d in (rewrites(fn, tree) if rw else faults(fn)):
            try:
                s = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(s)
            except Exception:
                continue
            jobs.append((fpath, s, f"{name} {d}", args[1:]))
    assert ast.unparse(tree) == base
    tot = {}
    with mp.Pool(8, maxtasksperchild=12) as pool:
        for desc, out in pool.imap(work, jobs, 1):
            sts = [o[2] for o in out]
            s = "violated" if "violated" in sts else "crash" if "crash" in sts else "missing" if "missing" in sts else "undecided" if "undecided" in sts else "proved"
            tot[s] = tot.get(s, 0) + 1
            show = (s in ("violated", "crash") if rw else s in ("undecided", "proved", "crash")) or verbose
            if show:
                print(f"{s:9} {desc}")
                k = 0
                for o in out:
                    if o[2] in ("violated", "crash", "undecided") and (verbose or rw or o[2] != "violated"):
                        for x in o[3][:2]:
                            if x[0] != "D" or rw or verbose:
                                k += 1
                                if k <= (8 if verbose else 1):
                                    print("          ", o[0], o[1], o[2], x[0], x[1][:600 if verbose else 230], x[2])
    print(tot)


if __name__ == "__main__":
    main()
