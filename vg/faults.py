"""Small changes of a function, for judging how sharp the obligations are."""
import ast


def funcs(tree):
    out = []

    def go(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef,)):
                out.append((pre + c.name, c))
                go(c, pre + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                go(c, pre + c.name + ".")
            elif not isinstance(c, ast.expr):
                go(c, pre)
    go(tree, "")
    return out


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
SWAP = {"sim_buffer": "sim_chunk_size", "sim_chunk_size": "sim_buffer", "any": "all", "all": "any", "min": "max", "max": "min", "mean": "sum",
        "src": "mic", "mic": "src", "zeros": "ones", "cos": "sin", "names_src": "names_mic", "names_mic": "names_src"}


def faults(fn):
    """yields (description, undo)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                o = n.value
                n.value = not o
                yield f"L{n.lineno} {o}->{not o}"
                n.value = o
            elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                o = n.value
                n.value = o + 1
                yield f"L{n.lineno} {o}->{o + 1}"
                n.value = o
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            o = n.ops[0]
            n.ops[0] = CMP[type(o)]()
            yield f"L{n.lineno} compare {type(o).__name__}"
            n.ops[0] = o
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            o = n.op
            n.op = BIN[type(o)]()
            yield f"L{n.lineno} binop {type(o).__name__}"
            n.op = o
        if isinstance(n, ast.BoolOp):
            o = n.op
            n.op = ast.And() if isinstance(o, ast.Or) else ast.Or()
            yield f"L{n.lineno} boolop"
            n.op = o
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            o = n.op
            n.op = ast.UAdd()
            yield f"L{n.lineno} drop not"
            n.op = o
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            o = n.attr
            n.attr = SWAP[o]
            yield f"L{n.lineno} attr {o}->{n.attr}"
            n.attr = o
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            o = n.id
            n.id = SWAP[o]
            yield f"L{n.lineno} name {o}->{n.id}"
            n.id = o
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                n.args[0], n.args[1] = n.args[1], n.args[0]
                yield f"L{n.lineno} swap args of {ast.unparse(n.func)}"
                n.args[0], n.args[1] = n.args[1], n.args[0]
            for i in range(len(n.keywords)):
                k = n.keywords.pop(i)
                yield f"L{n.lineno} drop keyword {k.arg} of {ast.unparse(n.func)}"
                n.keywords.insert(i, k)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(list(b)):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.Raise, ast.Assert, ast.Return, ast.Break, ast.Continue)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        b[i] = ast.Pass(lineno=s.lineno, col_offset=0)
                        yield f"L{s.lineno} delete '{ast.unparse(s).splitlines()[0][:70]}'"
                        b[i] = s
                for i in range(len(b) - 1):
                    if isinstance(b[i], (ast.Expr, ast.Assign, ast.AugAssign, ast.For, ast.If)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.For, ast.If)):
                        b[i], b[i + 1] = b[i + 1], b[i]
                        yield f"L{b[i].lineno} swap statements '{ast.unparse(b[i + 1]).splitlines()[0][:40]}' / '{ast.unparse(b[i]).splitlines()[0][:40]}'"
                        b[i], b[i + 1] = b[i + 1], b[i]
