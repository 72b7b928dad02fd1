"""Reads the current source of licant and gives access to its functions as syntax trees.

Nothing is rewritten: the trees the verifier interprets are exactly what ast.parse makes of
the files of the working tree.
"""
import ast
import os

REPO = os.environ.get("LICANT_REPO", "/repo")


class Func:
    def __init__(self, module, qualname, node, cls=None):
        self.module = module
        self.qualname = qualname
        self.node = node
        self.cls = cls
        self.key = "%s:%s" % (module.name, qualname)


class Class:
    def __init__(self, module, name, node):
        self.module = module
        self.name = name
        self.node = node
        self.methods = {}
        self.attrs = {}
        self.bases = []      # names, resolved lazily
        for b in node.bases:
            self.bases.append(b)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(module, name + "." + st.name, st, self)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.attrs[st.targets[0].id] = st.value
            elif isinstance(st, ast.ClassDef):
                c = Class(module, st.name, st)
                self.attrs[st.name] = c
                module.nested[name + "." + st.name] = c


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}      # name -> ('func', Func) | ('class', Class) | ('module', dotted) | ('from', mod, name) | ('var', ast)
        self.nested = {}
        self.assigned_global = set()
        self.collect(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.assigned_global.update(n.names)

    def collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ("func", Func(self, st.name, st))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", Class(self, st.name, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("module", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.names[a.asname or a.name] = ("from", st.module, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("var", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ("var", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self.collect(st.body)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        d = os.path.join(self.repo, "licant")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                name = "licant" if f == "__init__.py" else "licant." + f[:-3]
                self.modules[name] = Module(name, os.path.join(d, f))
        self.classes = {}
        for m in self.modules.values():
            for n, x in m.names.items():
                if x[0] == "class":
                    self.classes.setdefault(n, x[1])
            for n, c in m.nested.items():
                self.classes.setdefault(n, c)
                self.classes.setdefault(c.name, c)

    def find(self, key):
        """'licant.core:Core.get' -> Func or None"""
        mod, _, qual = key.partition(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = qual.split(".")
        x = m.names.get(parts[0])
        if x is None:
            return None
        if len(parts) == 1:
            return x[1] if x[0] == "func" else None
        if x[0] != "class":
            return None
        c = x[1]
        for p in parts[1:-1]:
            c = c.attrs.get(p)
            if not isinstance(c, Class):
                return None
        return c.methods.get(parts[-1])
