"""Statements that replace a dictionary, held by its object alone, by one with the same keys: the same as a loop that stores to its own keys."""
import ast


def same(a, b):
    return ast.unparse(a) == ast.unparse(b)


def uses(tree, target):
    """places where `target` (an attribute) is read, without those that are `target[key]`"""
    return [n for n in ast.walk(tree) if isinstance(n, type(target)) and same(n, target)]


def names(tree, name):
    return [n for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id == name]


def own_keys(it, key, t):
    """whether `for key in it` goes through the keys (or items) of t; gives the name of the key"""
    if isinstance(key, ast.Name):
        if same(it, t) or isinstance(it, ast.Call) and not it.args and isinstance(it.func, ast.Attribute) and it.func.attr == "keys" and same(it.func.value, t):
            return key.id
        return None
    if isinstance(key, ast.Tuple) and len(key.elts) == 2 and isinstance(key.elts[0], ast.Name):
        if isinstance(it, ast.Call) and not it.args and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and same(it.func.value, t):
            return key.elts[0].id
    return None


def only_own(tree, t, key):
    """everything read of t is t[key]"""
    own = [n for n in ast.walk(tree) if isinstance(n, ast.Subscript) and same(n.value, t) and isinstance(n.slice, ast.Name) and n.slice.id == key]
    return len(uses(tree, t)) == len(own)


def load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


class InPlace(ast.NodeTransformer):
    cls = None

    def private(self, t, but):
        """the class never binds the attribute to anything but a dictionary of its own"""
        if self.cls is None or not (isinstance(t.value, ast.Name) and t.value.id == "self"):
            return False
        others = [n for n in ast.walk(self.cls) if isinstance(n, ast.Assign) and n is not but and any(same(x, t) for x in n.targets)]
        fresh = all(isinstance(n.value, (ast.Dict, ast.DictComp)) or self.empty(n.value) for n in others)
        return bool(others) and fresh

    def visit_ClassDef(self, c):
        old, self.cls = self.cls, c
        self.generic_visit(c)
        self.cls = old
        return c

    def block(self, body, fn):
        out = list(body)
        i = 0
        while i < len(out):
            s = out[i]
            nxt = out[i + 1] if i + 1 < len(out) else None
            # n = {...}; t = n
            if self.single(s, ast.Name) and isinstance(s.value, ast.DictComp) and nxt is not None and self.single(nxt, ast.Attribute) and isinstance(nxt.value, ast.Name) \
                    and nxt.value.id == s.targets[0].id and len(names(fn, nxt.value.id)) == 2:
                new = ast.copy_location(ast.Assign(targets=nxt.targets, value=s.value), s)
                loop = self.from_comp(new, nxt)
                if loop is not None:
                    out[i:i + 2] = [loop]
                    continue
            if self.single(s, ast.Attribute) and isinstance(s.value, ast.DictComp):
                loop = self.from_comp(s, s)
                if loop is not None:
                    out[i] = loop
            # n = {} ... for k in t: ... n[k] = v;  t = n
            if isinstance(s, ast.For) and nxt is not None and self.single(nxt, ast.Attribute) and isinstance(nxt.value, ast.Name):
                j = next((j for j in range(i) if self.single(out[j], ast.Name) and out[j].targets[0].id == nxt.value.id), None)
                if j is not None and self.empty(out[j].value) and self.from_loop(out[j], s, nxt, fn):
                    del out[i + 1]
                    del out[j]
                    continue
            i += 1
        return out

    def empty(self, v):
        return isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and not v.args and not v.keywords and isinstance(v.func, ast.Name) and v.func.id == "dict"

    def single(self, s, kind):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], kind)

    def from_comp(self, s, store):
        t, c = s.targets[0], s.value
        if not self.private(t, store):
            return None
        if len(c.generators) != 1 or c.generators[0].ifs or c.generators[0].is_async:
            return None
        g = c.generators[0]
        k = own_keys(g.iter, g.target, t)
        if k is None or not (isinstance(c.key, ast.Name) and c.key.id == k) or not only_own(c.value, t, k):
            return None
        st = ast.Assign(targets=[ast.Subscript(value=load(t), slice=ast.Name(id=k, ctx=ast.Load()), ctx=ast.Store())], value=c.value)
        loop = ast.For(target=g.target, iter=g.iter, body=[st], orelse=[])
        ast.copy_location(loop, s)
        ast.copy_location(st, s)
        return ast.fix_missing_locations(loop)

    def from_loop(self, init, loop, final, fn):
        t, n = final.targets[0], final.value.id
        if not self.private(t, final):
            return False
        k = own_keys(loop.iter, loop.target, t)
        last = loop.body[-1]
        if k is None or loop.orelse or not self.single(last, ast.Subscript):
            return False
        d = last.targets[0]
        if not (isinstance(d.value, ast.Name) and d.value.id == n and isinstance(d.slice, ast.Name) and d.slice.id == k) or len(names(fn, n)) != 3:
            return False
        if any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) for x in ast.walk(loop)) or not all(only_own(x, t, k) for x in loop.body):
            return False
        d.value = ast.copy_location(load(t), d.value)
        ast.fix_missing_locations(loop)
        return True

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for n in ast.walk(f):
            for part in ("body", "orelse", "finalbody"):
                b = getattr(n, part, None)
                if isinstance(b, list) and b:
                    setattr(n, part, self.block(b, f))
        return f


def rewrite(tree):
    return InPlace().visit(tree)
