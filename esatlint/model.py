"""Name, attribute, call and unpacking facts of a source tree, read from its syntax trees."""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__spec__", "__package__"}
OBJECT = set(dir(object)) | {"__dict__", "__name__", "__qualname__"}


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


class Scope:
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.names = set()
        self.loads = []          # (name, node)
        self.globals = set()
        self.children = []

    def lookup(self, name):
        s, first = self, True
        while s is not None:
            if (first or s.kind != "class") and name in s.names:
                return s
            s, first = s.parent, False
        return None


def params(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def scopes(tree):
    """root scope of a module; star: a wildcard import makes names unknowable"""
    root = Scope(tree, None, "module")
    star = [False]

    def visit(n, s):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.names.add(n.name)
            for d in n.decorator_list:
                visit(d, s)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, s)
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    visit(a.annotation, s)
            if n.returns is not None:
                visit(n.returns, s)
            f = Scope(n, s, "func")
            s.children.append(f)
            f.names |= set(params(n.args))
            for b in n.body:
                visit(b, f)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, s)
            f = Scope(n, s, "func")
            s.children.append(f)
            f.names |= set(params(n.args))
            visit(n.body, f)
            return
        if isinstance(n, ast.ClassDef):
            s.names.add(n.name)
            for b in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                visit(b, s)
            f = Scope(n, s, "class")
            s.children.append(f)
            for b in n.body:
                visit(b, f)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            f = Scope(n, s, "func")
            s.children.append(f)
            for i, g in enumerate(n.generators):
                visit(g.iter, s if i == 0 else f)
                f.names |= set(targets(g.target))
                visit(g.target, f)
                for c in g.ifs:
                    visit(c, f)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                visit(e, f)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                s.names.add((a.asname or a.name).split(".")[0] if not a.asname else a.asname)
            return
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "*":
                    star[0] = True
                else:
                    s.names.add(a.asname or a.name)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            s.globals |= set(n.names)
            if isinstance(n, ast.Global):
                root.names |= set(n.names)
            return
        if isinstance(n, ast.ExceptHandler):
            if n.name:
                s.names.add(n.name)
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Store):
                t = s
                # a walrus in a comprehension binds in the enclosing function
                (t.names if n.id not in s.globals else root.names).add(n.id)
            elif isinstance(n.ctx, ast.Load):
                s.loads.append((n.id, n))
            return
        if isinstance(n, ast.NamedExpr):
            t = s
            while isinstance(t.node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                t = t.parent
            t.names.add(n.target.id)
            visit(n.value, s)
            return
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            s.names.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            s.names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c, s)
    for b in tree.body:
        visit(b, root)
    return root, star[0]


class Facts:
    def __init__(self, tree):
        self.tree = tree
        self.classes = {}                       # name -> ClassInfo (unique names only)
        dup = set()
        for m in tree.modules.values():
            for n, c in m.classes.items():
                if n in self.classes:
                    dup.add(n)
                self.classes[n] = c
        for n in dup:
            self.classes.pop(n)
        self.stored = set()                     # attribute names stored on anything but self
        self.attrs = {}
        for m in tree.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                    self.stored.add(x.attr)
        for n, c in self.classes.items():
            self.attrs[n] = self._attrs(c)
        self.ftypes = {n: {} for n in self.classes}
        for _ in range(3):
            for n, c in self.classes.items():
                self.ftypes[n] = self._ftypes(c)

    def _attrs(self, c):
        """attribute names instances can have; None when they cannot be enumerated"""
        out = set(c.methods) | set(c.attrs)
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.add(s.target.id)
            elif isinstance(s, ast.ClassDef):
                out.add(s.name)
        for b in c.node.bases:
            nm = b.id if isinstance(b, ast.Name) else None
            if nm == "object":
                continue
            if nm in self.classes:
                o = self._attrs(self.classes[nm])
                if o is None:
                    return None
                out |= o
            else:
                return None
        if "__getattr__" in c.methods or "__getattribute__" in c.methods or c.node.keywords:
            return None
        for f in c.methods.values():
            self_names = {f.args.args[0].arg} if f.args.args else set()
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in self_names:
                    out.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars"):
                    return None
                if isinstance(x, ast.Attribute) and x.attr == "__dict__" and not isinstance(x.ctx, ast.Load):
                    return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "update" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "__dict__":
                    return None
        return out

    # ------------------------------------------------------------ simple types
    def ann_class(self, a):
        if isinstance(a, ast.Name):
            return a.id if a.id in self.classes else None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return a.value if a.value in self.classes else None
        return None

    def resolve_class(self, m, name):
        """class object a name of a module refers to"""
        if name in m.classes:
            return m.classes[name]
        i = m.imports.get(name)
        if i and i[0] == "from":
            t = self.tree.resolve_module(i[1])
            if t is not None and i[2] in t.classes:
                return t.classes[i[2]]
        return None

    def type_of(self, m, e, env, cls=None):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                c = self.resolve_class(m, f.id)
                return c.name if c is not None and c.name in self.classes else None
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr == "load":
                c = self.resolve_class(m, f.value.id)
                return c.name if c is not None and c.name in self.classes else None
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy") and isinstance(f.value, ast.Name) and f.value.id == "copy" and len(e.args) == 1:
                return self.type_of(m, e.args[0], env, cls)
            return None
        if isinstance(e, ast.Attribute):
            t = self.type_of(m, e.value, env, cls)
            if t is not None:
                return self.ftypes.get(t, {}).get(e.attr)
        return None

    def env_of(self, m, f, cls=None, static=False):
        """variable -> class name where every assignment agrees"""
        env, bad = {}, set()

        def put(n, t):
            if t is None or env.get(n, t) != t:
                bad.add(n)
            else:
                env[n] = t
        a = f.args
        ps = a.posonlyargs + a.args
        for i, p in enumerate(ps + a.kwonlyargs):
            if i == 0 and cls is not None and not static:
                put(p.arg, cls)
            else:
                put(p.arg, self.ann_class(p.annotation) if p.annotation is not None else None)
        if a.vararg:
            bad.add(a.vararg.arg)
        if a.kwarg:
            bad.add(a.kwarg.arg)
        for _ in range(2):
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    if isinstance(x.value, ast.Constant) and x.value.value is None:
                        continue
                    put(x.targets[0].id, self.type_of(m, x.value, {k: v for k, v in env.items() if k not in bad}, cls))
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    pass
            simple = {id(x.targets[0]) for x in ast.walk(f) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)}
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in simple:
                    bad.add(x.id)
        return {k: v for k, v in env.items() if k not in bad}

    def _ftypes(self, c):
        out, bad = {}, set()
        for f in c.methods.values():
            decs = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
            if "staticmethod" in decs or "classmethod" in decs:
                continue
            env = self.env_of(c.module, f, c.name)
            for x in ast.walk(f):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == "self":
                                if y is t:
                                    if isinstance(x.value, ast.Constant) and x.value.value is None:
                                        continue
                                    ty = self.type_of(c.module, x.value, env, c.name)
                                    if ty is None or out.get(y.attr, ty) != ty:
                                        bad.add(y.attr)
                                    else:
                                        out[y.attr] = ty
                                else:
                                    bad.add(y.attr)
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and isinstance(x.target, ast.Attribute):
                    bad.add(x.target.attr)
        for k in self.stored:
            bad.add(k)
        return {k: v for k, v in out.items() if k not in bad}

    # ------------------------------------------------------------ calls
    def functions(self):
        """(module, class name or None, def, decorators) of every function, nested ones included with their owner"""
        for m, c, f in self.tree.all_functions():
            yield m, (c.name if c is not None and c.name in self.classes else None), f

    def resolve_call(self, m, call, env, cls, local=()):
        """-> (qualified name, def node, arguments to skip) or None"""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in local:
                return None
            if f.id in m.functions:
                return f.id, m.functions[f.id], 0
            c = self.resolve_class(m, f.id)
            if c is not None:
                i = c.methods.get("__init__")
                return (c.name + ".__init__", i, 1) if i is not None and not c.node.bases else None
            i = m.imports.get(f.id)
            if i and i[0] == "from":
                t = self.tree.resolve_module(i[1])
                if t is not None and i[2] in t.functions:
                    return i[2], t.functions[i[2]], 0
            return None
        if isinstance(f, ast.Attribute):
            c, bound = None, True
            if isinstance(f.value, ast.Name) and f.value.id not in local and f.value.id not in env:
                k = self.resolve_class(m, f.value.id)
                if k is not None:
                    c, bound = k, False
            if c is None:
                t = self.type_of(m, f.value, env, cls)
                c = self.classes.get(t) if t else None
            if c is None or f.attr not in c.methods or c.node.bases:
                return None
            d = c.methods[f.attr]
            decs = {x.id for x in d.decorator_list if isinstance(x, ast.Name)}
            if d.decorator_list and not decs <= {"staticmethod", "classmethod"}:
                return None
            skip = 0 if "staticmethod" in decs else (1 if bound or "classmethod" in decs else 0)
            return c.name + "." + f.attr, d, skip
        return None


def bind_errors(call, d, skip):
    """why a call cannot bind to a definition; [] when it binds or cannot be decided"""
    a = d.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    konly = [x.arg for x in a.kwonlyargs]
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    out = []
    if npos > len(pos) and a.vararg is None:
        out.append("%d positional arguments, %d accepted" % (npos, len(pos)))
    given = set(pos[:npos]) if not any(isinstance(x, ast.Starred) for x in call.args) else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and k.arg in pos:
            out.append("argument %r given twice" % k.arg)
        elif k.arg not in pos and k.arg not in konly and a.kwarg is None:
            out.append("no parameter named %r" % k.arg)
        given.add(k.arg)
    if not star:
        nd = len(a.defaults)
        req = [x.arg for x in a.posonlyargs + a.args]
        req = req[:len(req) - nd] if nd else req
        for p in req[skip:] if skip else req:
            if p not in given:
                out.append("required parameter %r is not given" % p)
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if dv is None and p.arg not in given:
                out.append("required parameter %r is not given" % p.arg)
    return out
