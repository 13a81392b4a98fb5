"""C29: names, attributes, calls and unpacked tuples agree with their definitions."""
import ast

from .model import Facts, scopes, bind_errors, BUILTINS, OBJECT, targets

_FACTS = {}


def facts(tree):
    f = _FACTS.get(id(tree))
    if f is None:
        f = _FACTS[id(tree)] = (Facts(tree), tree)
    return f[0]


def finding(m, node, where, text, rule):
    return {"entry": "%s:%s" % (m.name, where), "key": "%s:%s#%s:%s" % (m.name, where, rule, text.split(" ")[0]),
            "text": [text], "loc": "%s:%s" % (m.path, getattr(node, "lineno", "?"))}


def owners(tree):
    """(module, class or None, outermost function) of every function and method"""
    for m, c, f in tree.all_functions():
        yield m, c, f


def where(c, f):
    return (c.name + "." if c is not None else "") + f.name


def decorators(f):
    return {d.id for d in f.decorator_list if isinstance(d, ast.Name)}


# ---------------------------------------------------------------- names
def names(repo, ref):
    n, out = 0, []
    for m in repo.modules.values():
        root, star = scopes(m.tree)
        if star:
            continue
        todo = [(root, "")]
        while todo:
            s, w = todo.pop()
            for nm, node in s.loads:
                n += 1
                if nm not in BUILTINS and s.lookup(nm) is None:
                    out.append(finding(m, node, w or "<module>", "%s is not defined anywhere it could be read from" % nm, "name"))
            for c in s.children:
                nm = getattr(c.node, "name", None)
                todo.append((c, (w + "." if w else "") + nm if nm else w))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- locals that no path has assigned
class Flow:
    """names that can have been assigned when a statement runs (may analysis)"""

    def __init__(self, f):
        self.local = set()
        glob = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
        self.collect(f.body)
        self.local -= glob
        self.bad = []
        self.n = 0
        a = f.args
        pars = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        self.local -= pars
        self.block(f.body, set())

    def collect(self, body):
        for s in body:
            self.coll(s)

    def coll(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.local.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.local.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.local.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.local.add(a.asname or a.name.split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.local.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.coll(c)

    def read(self, e, env):
        """loads of an expression evaluated here"""
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set()
            for g in e.generators:
                inner |= set(targets(g.target))
            sub = env | inner
            for i, g in enumerate(e.generators):
                self.read(g.iter, env if i == 0 else sub)
                for c in g.ifs:
                    self.read(c, sub)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.read(x, sub)
            return
        if isinstance(e, ast.NamedExpr):
            self.read(e.value, env)
            env.add(e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local:
                self.n += 1
                if e.id not in env:
                    self.bad.append(e)
            return
        for c in ast.iter_child_nodes(e):
            self.read(c, env)

    def store(self, t, env):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env.add(x.id)

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            env.add(s.name)
        elif isinstance(s, ast.Assign):
            self.read(s.value, env)
            for t in s.targets:
                self.read(t, env)
                self.store(t, env)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), env)
            else:
                self.read(s.target, env)
            self.read(s.value, env)
            self.store(s.target, env)
        elif isinstance(s, ast.AnnAssign):
            self.read(s.value, env)
            if s.value is not None:
                self.read(s.target, env)
                self.store(s.target, env)
        elif isinstance(s, ast.If):
            self.read(s.test, env)
            a, b = set(env), set(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            env |= a | b
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                pre = set(env)
            else:
                self.read(s.iter, env)
                self.store(s.target, env)
            # anything the body assigns can have been assigned by an earlier iteration
            mark = (len(self.bad), self.n)
            once = set(env)
            if isinstance(s, ast.While):
                self.read(s.test, once)
            self.block(s.body, once)
            del self.bad[mark[0]:]
            self.n = mark[1]
            # a first iteration sees only what came before; report reads nothing before them assigns in any iteration order
            first = set(env)
            if isinstance(s, ast.While):
                self.read(s.test, first)
            self.block(s.body, first)
            env |= once | first
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            self.block(s.body, env)
            after = set(env)
            for h in s.handlers:
                e = set(env)
                if h.name:
                    e.add(h.name)
                self.read(h.type, e)
                self.block(h.body, e)
                after |= e
            self.block(s.orelse, after)
            env |= after
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, env)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, env)
            self.block(s.body, env)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                env.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.Match):
            self.read(s.subject, env)
            for c in s.cases:
                e = set(env)
                for x in ast.walk(c.pattern):
                    for k in ("name", "rest"):
                        if getattr(x, k, None):
                            e.add(getattr(x, k))
                self.read(c.guard, e)
                self.block(c.body, e)
                env |= e
        else:
            for c in ast.iter_child_nodes(s):
                self.read(c, env)


def unassigned(repo, ref):
    n, out = 0, []
    for m, c, f in owners(repo):
        for g in [x for x in ast.walk(f) if isinstance(x, ast.FunctionDef)]:
            fl = Flow(g)
            n += fl.n
            for e in fl.bad:
                out.append(finding(m, e, where(c, f), "%s is read before anything assigns it" % e.id, "unassigned"))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- attributes
def guarded_attrs(f):
    """attribute names tested with hasattr / getattr in the function"""
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
            out.add(x.args[1].value)
        if isinstance(x, ast.ExceptHandler) and x.type is not None and "AttributeError" in ast.unparse(x.type):
            return None
    return out


def mangled(cls, attr):
    if attr.startswith("__") and not attr.endswith("__"):
        return attr
    return attr


def attributes(repo, ref):
    F = facts(repo)
    n, out = 0, []
    for m, c, f in owners(repo):
        cls = c.name if c is not None and c.name in F.classes else None
        decs = decorators(f)
        env = F.env_of(m, f, cls if "classmethod" not in decs else None, "staticmethod" in decs)
        ok = guarded_attrs(f)
        if ok is None:
            continue
        for x in ast.walk(f):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            t = F.type_of(m, x.value, env, cls)
            if t is None or F.attrs.get(t) is None:
                continue
            n += 1
            if x.attr not in F.attrs[t] and x.attr not in OBJECT and x.attr not in ok and x.attr not in F.stored:
                out.append(finding(m, x, where(c, f), "%s.%s: %s objects never have this attribute" % (ast.unparse(x.value), x.attr, t), "attribute"))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- calls
def local_names(f):
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.FunctionDef) and x is not f:
            out.add(x.name)
    return out


def each_call(repo):
    F = facts(repo)
    for m, c, f in owners(repo):
        cls = c.name if c is not None and c.name in F.classes else None
        decs = decorators(f)
        env = F.env_of(m, f, cls if "classmethod" not in decs else None, "staticmethod" in decs)
        loc = local_names(f)
        for x in ast.walk(f):
            if isinstance(x, ast.Call):
                yield F, m, c, f, cls, env, loc, x


def calls(repo, ref):
    n, out = 0, []
    for F, m, c, f, cls, env, loc, x in each_call(repo):
        r = F.resolve_call(m, x, env, cls, loc)
        if r is None or r[1] is None:
            continue
        n += 1
        for e in bind_errors(x, r[1], r[2]):
            out.append(finding(m, x, where(c, f), "%s: %s" % (r[0], e), "call"))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- pools
POOL = {"starmap": True, "starmap_async": True, "map": False, "imap": False, "imap_unordered": False, "map_async": False, "apply_async": None, "apply": None}


def task_tuples(f, name):
    """the tuples a task list is made of: literal lists, comprehensions and appended items; None when unknown"""
    out = []
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
            v = x.value
            if isinstance(v, ast.List):
                out += v.elts
            elif isinstance(v, (ast.ListComp, ast.GeneratorExp)):
                out.append(v.elt)
            else:
                return None
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
            if x.func.attr == "append" and x.args:
                out.append(x.args[0])
            elif x.func.attr in ("extend", "insert"):
                return None
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
            return None
    r = []
    for e in out:
        if isinstance(e, ast.Name):
            d = [x.value for x in ast.walk(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            if len(d) != 1:
                return None
            e = d[0]
        r.append(e)
    return r


def worker_of(F, m, e, env, cls, loc):
    """(qualified name, def, skip) of a function passed to a pool"""
    probe = ast.Call(func=e, args=[], keywords=[])
    return F.resolve_call(m, probe, env, cls, loc)


def unpack_count(d, skip):
    """length of the tuple a one-argument worker unpacks, and the names it gives the items"""
    ps = [a.arg for a in d.args.args][skip:]
    if len(ps) != 1:
        return None
    for x in ast.walk(d):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == ps[0] and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)):
            t = x.targets[0]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                return None
            return [ast.unparse(e) for e in t.elts]
    return None


def pools(repo, ref):
    n, out = 0, []
    for F, m, c, f, cls, env, loc, x in each_call(repo):
        if not isinstance(x.func, ast.Attribute) or x.func.attr not in POOL or len(x.args) < 1:
            continue
        w = worker_of(F, m, x.args[0], env, cls, loc)
        if w is None or w[1] is None:
            continue
        star = POOL[x.func.attr]
        if star is None:
            a = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == "args"), None)
            star = True
            if isinstance(a, ast.Name):
                its = [y.iter for y in ast.walk(f) if isinstance(y, ast.For) and isinstance(y.target, ast.Name) and y.target.id == a.id]
                tup = task_tuples(f, its[0].id) if len(its) == 1 and isinstance(its[0], ast.Name) else None
            else:
                tup = [a] if a is not None else None
        else:
            if len(x.args) < 2:
                continue
            a = x.args[1]
            if isinstance(a, ast.Name):
                tup = task_tuples(f, a.id)
            elif isinstance(a, (ast.ListComp, ast.GeneratorExp)):
                tup = [a.elt]
            elif isinstance(a, ast.List):
                tup = a.elts
            else:
                tup = None
        if not tup:
            continue
        for t in tup:
            if not isinstance(t, ast.Tuple) or any(isinstance(e, ast.Starred) for e in t.elts):
                continue
            n += 1
            if star:
                for e in bind_errors(ast.Call(func=x.args[0], args=t.elts, keywords=[]), w[1], w[2]):
                    out.append(finding(m, t, where(c, f), "%s: task tuple does not fit the worker: %s" % (w[0], e), "task"))
                ps = [a.arg for a in w[1].args.posonlyargs + w[1].args.args][w[2]:]
            else:
                ps = unpack_count(w[1], w[2])
                if ps is not None and len(ps) != len(t.elts):
                    out.append(finding(m, t, where(c, f), "%s: unpacks %d items, the task has %d" % (w[0], len(ps), len(t.elts)), "task"))
                    ps = None
            if ps:
                got = [role(e) for e in t.elts]
                sw = swapped(got, ps)
                if sw:
                    out.append(finding(m, t, where(c, f), "%s: task items %s and %s are passed for each other" % (w[0], sw[0], sw[1]), "task"))
        # what the worker returns is unpacked in the order it was returned
        rets = returns_of(w[1])
        if rets is None or POOL[x.func.attr] is None:
            continue
        for t in unpacked(f, x):
            n += 1
            for e in rets:
                if len(e) != len(t.elts):
                    out.append(finding(m, t, where(c, f), "%s returns %d values, %d are unpacked" % (w[0], len(e), len(t.elts)), "task"))
                    break
                sw = swapped([role(y) for y in t.elts], [role(y) for y in e])
                if sw:
                    out.append(finding(m, t, where(c, f), "%s: %s and %s are unpacked in the wrong order" % (w[0], sw[0], sw[1]), "task"))
                    break
    return {"sites": n, "ok": n - len(out)}, out


def unpacked(f, call):
    """the tuple patterns the single results of a pool call are unpacked into"""
    names = set()
    for y in ast.walk(f):
        if isinstance(y, ast.Assign) and y.value is call and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name):
            names.add(y.targets[0].id)
    for y in ast.walk(f):
        if isinstance(y, (ast.For, ast.comprehension)) and (y.iter is call or isinstance(y.iter, ast.Name) and y.iter.id in names):
            if isinstance(y.target, ast.Tuple):
                yield y.target
            elif isinstance(y.target, ast.Name) and isinstance(y, ast.For):
                for z in ast.walk(y):
                    if isinstance(z, ast.Assign) and isinstance(z.value, ast.Name) and z.value.id == y.target.id and isinstance(z.targets[0], ast.Tuple):
                        if not any(isinstance(e, ast.Starred) for e in z.targets[0].elts):
                            yield z.targets[0]


def role(e):
    """the name a value goes by"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def swapped(got, want):
    """two values that carry each other's names"""
    for i, g in enumerate(got[:len(want)]):
        if g is None or g == want[i] or g not in want:
            continue
        j = want.index(g)
        if j < len(got) and j != i and got[j] == want[i]:
            return g, got[j]
    return None


def crossed(repo, ref):
    """positional arguments that carry the names of each other's parameters"""
    n, out = 0, []
    for F, m, c, f, cls, env, loc, x in each_call(repo):
        r = F.resolve_call(m, x, env, cls, loc)
        if r is None or r[1] is None or any(isinstance(a, ast.Starred) for a in x.args):
            continue
        ps = [a.arg for a in r[1].args.posonlyargs + r[1].args.args][r[2]:]
        got = [role(a) for a in x.args] + [None] * (len(ps) - len(x.args))
        for k in x.keywords:
            if k.arg in ps:
                got[ps.index(k.arg)] = role(k.value)
        n += 1
        sw = swapped(got, ps)
        if sw and r[1].name != f.name:
            out.append(finding(m, x, where(c, f), "%s: %s and %s are passed for each other" % (r[0], sw[0], sw[1]), "order"))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- returned tuples
def returns_of(d):
    """tuples a function returns: list of element lists; None when something else can be returned too"""
    out = []
    todo = list(d.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.value.elts):
                out.append(s.value.elts)
            else:
                return None
        if isinstance(s, (ast.Yield, ast.YieldFrom)):
            return None
        todo += list(ast.iter_child_nodes(s))
    return out or None


def tuples(repo, ref):
    n, out = 0, []
    F = facts(repo)
    for m, c, f in owners(repo):
        cls = c.name if c is not None and c.name in F.classes else None
        decs = decorators(f)
        env = F.env_of(m, f, cls if "classmethod" not in decs else None, "staticmethod" in decs)
        loc = local_names(f)
        for x in ast.walk(f):
            if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)) and isinstance(x.value, ast.Call)):
                continue
            if any(isinstance(e, ast.Starred) for e in x.targets[0].elts):
                continue
            r = F.resolve_call(m, x.value, env, cls, loc)
            if r is None or r[1] is None or r[0].endswith(".__init__"):
                continue
            rets = returns_of(r[1])
            if rets is None:
                continue
            n += 1
            k = len(x.targets[0].elts)
            lens = {len(e) for e in rets}
            if k not in lens:
                out.append(finding(m, x, where(c, f), "%s returns %s values, %d are unpacked" % (r[0], sorted(lens), k), "tuple"))
                continue
            for e in rets:
                if len(e) != k:
                    continue
                sw = swapped([role(t) for t in x.targets[0].elts], [role(v) for v in e])
                if sw:
                    out.append(finding(m, x, where(c, f), "%s: %s and %s are unpacked in the wrong order" % (r[0], sw[0], sw[1]), "tuple"))
                    break
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- imports
def imports(repo, ref):
    n, out = 0, []
    for m in repo.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ImportFrom) or x.level:
                continue
            t = repo.resolve_module(x.module or "")
            if t is None:
                continue
            have = set(t.functions) | set(t.classes) | set(t.globals) | set(t.imports)
            for y in t.tree.body:
                for z in ast.walk(y):
                    if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store):
                        have.add(z.id)
            for a in x.names:
                if a.name == "*":
                    continue
                n += 1
                if a.name not in have and repo.resolve_module((x.module or "") + "." + a.name) is None:
                    out.append(finding(m, x, "<module>", "%s is not defined in %s" % (a.name, x.module), "import"))
    return {"sites": n, "ok": n - len(out)}, out


ALL = [("names defined", names), ("locals assigned before use", unassigned), ("attributes defined", attributes), ("calls bind", calls),
       ("pool tasks fit their worker", pools), ("arguments not crossed", crossed), ("returned tuples unpacked in order", tuples), ("imports exist", imports)]
