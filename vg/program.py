"""Loading of the analysed source: modules, imports, classes, functions.  Nothing is imported or executed."""
import ast
import os
from .rewrite import rewrite


class Func:
    def __init__(self, node, module, cls, name):
        self.node, self.module, self.cls, self.name = node, module, cls, name
        self.qual = f"{module.name}.{cls.name + '.' if cls else ''}{name}"
        decs = []
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Call):
                d = d.func
            decs.append(d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else "?")
        self.decs = decs
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


def _has_yield(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods, self.attrs, self.fields = {}, {}, []
        self.dataclass = any(("dataclass" in ast.unparse(d)) for d in node.decorator_list)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[n.name] = Func(n, module, self, n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields.append((n.target.id, n.annotation, n.value))
                if n.value is not None:
                    self.attrs[n.target.id] = n.value


class Module:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.imports, self.funcs, self.classes, self.consts = {}, {}, {}, {}
        pkg = name.rsplit(".", 1)[0] if "." in name else ""
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    p = name.split(".")[:-n.level]
                    base = ".".join(p + ([base] if base else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = base + "." + a.name

        def top(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[n.name] = Func(n, self, None, n.name)
                elif isinstance(n, ast.ClassDef):
                    self.classes[n.name] = Class(n, self)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            self.consts[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                    self.consts[n.target.id] = n.value
                elif isinstance(n, ast.If):
                    top(n.body)
                    top(n.orelse)
                elif isinstance(n, ast.Try):
                    top(n.body)
        top(tree.body)


class Program:
    def __init__(self, root="/repo/src", package="aspsim", override=None):
        self.root = root
        self.override = override or {}
        self.modules, self.errors = {}, []
        base = os.path.join(root, package)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.dirname(root))
                    mod = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if mod.endswith(".__init__"):
                        mod = mod[:-9]
                    self.add(mod, p, rel)

    def add(self, name, path, rel=None):
        try:
            if path in self.override:
                text = self.override[path]
            else:
                with open(path, encoding="utf-8") as f:
                    text = f.read()
            tree = rewrite(ast.parse(text, path))
        except SyntaxError as e:
            self.errors.append(f"{path}: {e}")
            return None
        self.modules[name] = Module(name, path, rel or path, tree)
        self._subs = None
        return self.modules[name]

    def cls(self, qual):
        m, _, n = qual.rpartition(".")
        return self.modules[m].classes.get(n) if m in self.modules else None

    def func(self, qual):
        m, _, n = qual.rpartition(".")
        if m in self.modules:
            return self.modules[m].funcs.get(n)
        c = self.cls(m)
        return c.methods.get(n) if c else None

    def resolve(self, dotted, seen=()):
        """dotted name -> ('mod'|'fn'|'cls'|'const'|'ext', object)"""
        if dotted in self.modules:
            return "mod", self.modules[dotted]
        m, _, n = dotted.rpartition(".")
        if m in self.modules and dotted not in seen:
            mod = self.modules[m]
            if n in mod.funcs:
                return "fn", mod.funcs[n]
            if n in mod.classes:
                return "cls", mod.classes[n]
            if n in mod.consts:
                return "const", (mod, n)
            if n in mod.imports:
                return self.resolve(mod.imports[n], seen + (dotted,))
        return "ext", dotted

    def bases(self, c):
        import ast as _a
        out = []
        for b in c.node.bases:
            d = dotted_of(b)
            if d is None:
                continue
            h, _, t = d.partition(".")
            if h in c.module.classes and not t:
                out.append(c.module.classes[h])
                continue
            full = c.module.imports.get(h)
            if full:
                k, o = self.resolve(full + ("." + t if t else ""))
                if k == "cls":
                    out.append(o)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        if getattr(self, "_subs", None) is None:
            self._subs = {}
            for m in self.modules.values():
                for k in m.classes.values():
                    for b in self.mro(k)[1:]:
                        self._subs.setdefault(b.qual, []).append(k)
        return self._subs.get(c.qual, [])

    def is_sub(self, c, base):
        return base in self.mro(c)


def dotted_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted_of(e.value)
        return b + "." + e.attr if b else None
    return None
