"""Parses a source tree into resolved modules (never imports or runs it)."""
import ast
import os

CANON = {"numpy": "np", "pandas": "pd", "plotly.graph_objects": "go", "plotly.express": "px", "matplotlib.pyplot": "plt",
         "multiprocessing": "mp"}


# benchmark scripts: no library behaviour
SKIP = {"runtime_optimization.py", "runtime_test.py", "rust_optimizations_test.py", "rust_functions_test.py", "loss_value_test.py",
        "profile_compare_test.py"}


def canon_ext(name):
    for k, v in CANON.items():
        if name == k:
            return v
        if name.startswith(k + "."):
            return v + name[len(k):]
    return name


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.imports, self.functions, self.classes, self.globals = {}, {}, {}, {}


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.attrs = {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        self._fields = None

    def __repr__(self):
        return "<class %s>" % self.name


class Tree:
    """all modules under root"""

    def __init__(self, root, packages=("esat", "eval")):
        self.root = root
        self.modules = {}
        self.errors = []
        for pkg in packages:
            base = os.path.join(root, pkg)
            for d, dirs, files in sorted(os.walk(base)):
                dirs.sort()
                for f in sorted(files):
                    if not f.endswith(".py") or f in SKIP:
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    try:
                        src = open(p, encoding="utf-8").read()
                        tree = ast.parse(src)
                    except (SyntaxError, UnicodeDecodeError) as e:
                        self.errors.append((p, str(e)))
                        continue
                    m = Module(rel, os.path.relpath(p, root), tree, src)
                    self.modules[rel] = m
                    self._index(m)
        self._names()

    def _names(self):
        self.method_names = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n in c.methods:
                    self.method_names.setdefault(n, []).append(c)

    def replace_source(self, name, src):
        """the same tree with another text for one module (development aid)"""
        old = self.modules[name]
        m = Module(name, old.path, ast.parse(src), src)
        self.modules[name] = m
        self._index(m)
        self._names()

    def _index(self, m):
        def imports(body):
            for s in body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = ("mod", a.name)
                        else:
                            m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = s.module or ""
                    if s.level:
                        base = m.name.split(".")[:-s.level]
                        mod = ".".join(base + ([mod] if mod else []))
                    for a in s.names:
                        m.imports[a.asname or a.name] = ("from", mod, a.name)
                elif isinstance(s, (ast.If, ast.Try)):
                    imports(s.body)
                    for h in getattr(s, "handlers", []):
                        imports(h.body)
                    imports(s.orelse)
        imports(m.tree.body)

        def defs(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.functions[s.name] = s
                    m.imports.pop(s.name, None)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = ClassInfo(s, m)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.globals[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    defs(s.body)
                    for h in getattr(s, "handlers", []):
                        defs(h.body)
        defs(m.tree.body)

    def resolve_module(self, name):
        for cand in (name, name.replace("esat_eval", "eval", 1) if name.startswith("esat_eval") else name):
            if cand in self.modules:
                return self.modules[cand]
        return None

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def find(self, qual):
        """'esat.model.sa:SA.train' or 'esat.metrics:q_loss' -> (module, class or None, def)"""
        mod, _, q = qual.partition(":")
        m = self.resolve_module(mod)
        if m is None:
            return None
        parts = q.split(".")
        if len(parts) == 1:
            f = m.functions.get(parts[0])
            return (m, None, f) if f is not None else None
        c = m.classes.get(parts[0])
        if c is None or parts[1] not in c.methods:
            return None
        return (m, c, c.methods[parts[1]])

    def all_functions(self):
        for m in self.modules.values():
            for n, f in m.functions.items():
                yield m, None, f
            for c in m.classes.values():
                for n, f in c.methods.items():
                    yield m, c, f
