"""Development aid: applies random behaviour-preserving edits to the reference model and reports every disagreement the comparison sees."""
import ast, copy, os, random, sys, time, collections, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
from esatlint import shape, rules, core, terms as T

PURE_CALLS = {"len", "range", "int", "float", "str", "abs", "min", "max", "sum", "round", "sorted", "list", "tuple", "isinstance"}
NPURE = {"matmul", "sum", "square", "divide", "multiply", "subtract", "sqrt", "abs", "max", "min", "mean", "zeros", "ones", "zeros_like", "round", "array", "isnan", "any", "all",
         "power", "shape", "corrcoef", "exp", "log", "argmax", "argmin", "reshape", "astype", "copy", "T", "std", "percentile", "hstack", "vstack", "where", "add", "outer", "dot"}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and f.attr in NPURE:
                continue
            return False
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.NamedExpr, ast.Starred, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return False
    return True


def stored(n):
    out = set()
    for x in ast.walk(n) if not isinstance(n, list) else (y for s in n for y in ast.walk(s)):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
            out.add("!def")
    return out


def loaded(n):
    out = set()
    for x in (ast.walk(n) if not isinstance(n, list) else (y for s in n for y in ast.walk(s))):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add(x.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.add(x.target.id)
    return out


def allnames(f):
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} | {a.arg for a in f.args.args + f.args.kwonlyargs}


def fresh(f, r, base="tmp"):
    n = allnames(f)
    i = r.randrange(100)
    while "%s_%d" % (base, i) in n:
        i += 1
    return "%s_%d" % (base, i)


def blocks(f):
    """(owner, fieldname, list) of statement lists, not inside nested functions"""
    out = []

    def go(n):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, fld, b))
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
        for h in getattr(n, "handlers", []) or []:
            go(h)
    go(f)
    return out


def has_jump(b, kinds=(ast.Return, ast.Break, ast.Continue)):
    for s in b:
        for x in ast.walk(s):
            if isinstance(x, kinds):
                return True
    return False


def own_jump(b, kinds):
    """break/continue belonging to this loop body"""
    def go(n):
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
            return any(go(s) for s in getattr(n, "orelse", []))
        return any(go(c) for c in ast.iter_child_nodes(n))
    return any(go(s) for s in b)


def in_nested(f):
    s = set()
    for x in ast.walk(f):
        if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)):
            s |= {id(y) for y in ast.walk(x)}
    return s


# ---------------------------------------------------------------- edits; each returns True when applied
def e_rename(m, c, f, r):
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for x in ast.walk(f) if x is not f):
        return False
    args = {a.arg for a in f.args.args + f.args.kwonlyargs}
    cand = sorted(n for n in stored(f.body) if n not in args and n != "!def" and n != "_")
    cand = [n for n in cand if "locals" not in loaded(f)]
    if not cand:
        return False
    n = r.choice(cand)
    new = fresh(f, r, "v")
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id == n:
            x.id = new
        elif isinstance(x, ast.ExceptHandler) and x.name == n:
            x.name = new
    return True


def e_temp(m, c, f, r):
    """a pure sub-expression of a simple statement is computed first"""
    sts = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and getattr(s, "value", None) is not None]
    r.shuffle(sts)
    for b, i, s in sts:
        bad = set()
        for x in ast.walk(s.value):
            if isinstance(x, (ast.JoinedStr, ast.BoolOp, ast.IfExp, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.Lambda)) or (isinstance(x, ast.Call) and not pure(x)):
                bad |= {id(y) for y in ast.walk(x)} if not isinstance(x, ast.Call) else set()
        if not pure(s.value) and not all(not isinstance(x, ast.Call) for x in ast.walk(s.value)):
            # only arguments of a single outer impure call
            if not (isinstance(s.value, ast.Call)):
                continue
            subs = [k for k in s.value.args + [kw.value for kw in s.value.keywords] if not isinstance(k, (ast.Starred, ast.Constant)) and pure(k)]
            subs = subs[:1]
        else:
            subs = [x for x in ast.walk(s.value) if isinstance(x, (ast.BinOp, ast.Call, ast.Attribute, ast.Subscript, ast.Compare)) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load) and id(x) not in bad]
            calls = {id(x.func) for x in ast.walk(s.value) if isinstance(x, ast.Call)}
            subs = [x for x in subs if id(x) not in calls and not (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("np", "pd", "os", "math", "copy", "datetime", "plt", "go", "px", "stats"))]
        subs = [x for x in subs if x is not s.value or True]
        if not subs:
            continue
        e = r.choice(subs)
        t = fresh(f, r)
        new = copy.deepcopy(e)
        e.__class__ = ast.Name
        keep = {k: e.__dict__[k] for k in ("lineno", "col_offset", "end_lineno", "end_col_offset") if k in e.__dict__}
        e.__dict__.clear()
        e.__dict__.update(id=t, ctx=ast.Load(), **keep)
        b.insert(i, ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], new), s))
        return True
    return False


def e_invert(m, c, f, r):
    ifs = [x for x in ast.walk(f) if isinstance(x, ast.If) and x.orelse]
    if not ifs:
        return False
    x = r.choice(ifs)
    x.test = negate(x.test)
    x.body, x.orelse = x.orelse, x.body
    return True


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        o = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(t.ops[0]))
        if o:
            return ast.Compare(t.left, [o()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def e_ifexp(m, c, f, r):
    """x = a if c else b   ->   if/else"""
    sts = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)]
    if not sts:
        return False
    b, i, s = r.choice(sts)
    v = s.value
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    s1.value, s2.value = copy.deepcopy(v.body), copy.deepcopy(v.orelse)
    b[i] = ast.copy_location(ast.If(v.test, [s1], [s2]), s)
    return True


def e_toifexp(m, c, f, r):
    sts = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1
           and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], (ast.Name, ast.Attribute))]
    if not sts:
        return False
    b, i, s = r.choice(sts)
    b[i] = ast.copy_location(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)), s)
    return True


def e_earlyret(m, c, f, r):
    """if c: ... return / raise;  rest    <->   else branch"""
    sts = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue))]
    if not sts:
        return False
    b, i, s = r.choice(sts)
    s.orelse = b[i + 1:]
    del b[i + 1:]
    return True


def e_while(m, c, f, r):
    """for i in range(..)  ->  while"""
    nest = in_nested(f)
    cand = []
    for o, fl, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) \
                    and not s.orelse and not own_jump(s.body, (ast.Continue,)) and s.target.id not in stored(s.body) and pure(s.iter):
                v = s.target.id
                inside = {id(x) for x in ast.walk(s)}
                if any(isinstance(x, ast.Name) and x.id == v and id(x) not in inside for x in ast.walk(f)):
                    continue
                cand.append((b, i, s))
    if not cand:
        return False
    b, i, s = r.choice(cand)
    lo, hi = (s.iter.args if len(s.iter.args) == 2 else [ast.Constant(0), s.iter.args[0]])
    n = fresh(f, r, "stop")
    v = s.target.id
    inc = ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))
    w = ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(n, ast.Load())]), s.body + [inc], [])
    b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], hi), ast.Assign([ast.Name(v, ast.Store())], lo), w]
    return True


def e_index(m, c, f, r):
    """for x in name -> for k in range(len(name))"""
    cand = []
    for o, fl, b in blocks(f):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name,)) and not s.orelse and s.iter.id not in stored(s.body):
                # only lists built locally
                if any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == s.iter.id and isinstance(x.value, (ast.List, ast.ListComp)) for x in ast.walk(f)):
                    cand.append(s)
    if not cand:
        return False
    s = r.choice(cand)
    k = fresh(f, r, "k")
    s.body.insert(0, ast.Assign([s.target], ast.Subscript(ast.Name(s.iter.id, ast.Load()), ast.Name(k, ast.Load()), ast.Load())))
    s.target = ast.Name(k, ast.Store())
    s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [s.iter], [])], [])
    return True


def e_enum(m, c, f, r):
    """for i in range(n) -> for i, _ in enumerate(range(n)); start offset"""
    cand = [s for s in ast.walk(f) if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name)]
    if not cand:
        return False
    s = r.choice(cand)
    k = fresh(f, r, "pos")
    v = s.target.id
    s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Constant(1), ast.BinOp(s.iter.args[0], ast.Add(), ast.Constant(1))], [])
    s.body.insert(0, ast.Assign([ast.Name(v, ast.Store())], ast.BinOp(ast.Name(k, ast.Load()), ast.Sub(), ast.Constant(1))))
    s.target = ast.Name(k, ast.Store())
    return True


def e_comp(m, c, f, r):
    """x = [e for v in it if c]  ->  loop with append"""
    cand = []
    for o, fl, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name):
                g = s.value.generators[0]
                names = stored(g.target) if not isinstance(g.target, ast.Name) else {g.target.id}
                used = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id in names]
                inside = {id(x) for x in ast.walk(s)}
                if any(id(x) not in inside for x in used) or s.targets[0].id in loaded(s.value):
                    continue
                cand.append((b, i, s, g))
    if not cand:
        return False
    b, i, s, g = r.choice(cand)
    t = s.targets[0].id
    if isinstance(s.value, ast.ListComp):
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
        init = ast.List([], ast.Load())
    else:
        body = [ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), s.value.key, ast.Store())], s.value.value)]
        init = ast.Dict([], [])
    for cnd in reversed(g.ifs):
        body = [ast.If(cnd, body, [])]
    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, [], None)]
    return True


def e_tocomp(m, c, f, r):
    """x = []; for v in it: x.append(e)   ->   comprehension"""
    cand = []
    for o, fl, b in blocks(f):
        for i in range(len(b) - 1):
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(l, ast.For) and len(l.body) == 1 and not l.orelse:
                t = s.targets[0].id
                e = l.body[0]
                cond = None
                if isinstance(e, ast.If) and not e.orelse and len(e.body) == 1:
                    cond, e = e.test, e.body[0]
                if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == "append" and isinstance(e.value.func.value, ast.Name) \
                        and e.value.func.value.id == t and t not in loaded(e.value.args[0]) and (cond is None or t not in loaded(cond)):
                    cand.append((b, i, t, l, e.value.args[0], cond))
    if not cand:
        return False
    b, i, t, l, e, cond = r.choice(cand)
    b[i:i + 2] = [ast.Assign([ast.Name(t, ast.Store())], ast.ListComp(e, [ast.comprehension(l.target, l.iter, [cond] if cond is not None else [], 0)]))]
    return True


COUNT = [0]


def e_extract(m, c, f, r):
    """a run of statements becomes a helper"""
    bl = blocks(f)
    r.shuffle(bl)
    for o, fl, b in bl:
        n = len(b)
        if n < 2:
            continue
        for _ in range(6):
            i = r.randrange(n)
            j = min(n, i + r.randint(1, 6))
            if i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                i = 1
            run = b[i:j]
            if not run or has_jump(run, (ast.Return, ast.Yield, ast.Global)) or own_jump(run, (ast.Break, ast.Continue)) or "!def" in stored(run):
                continue
            if any(isinstance(x, (ast.Name,)) and x.id in ("locals", "super", "__class__") for s in run for x in ast.walk(s)):
                continue
            if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for s in run for x in ast.walk(s)) and c is None:
                continue
            w = stored(run)
            if any(isinstance(x, ast.Lambda) for s in run for x in ast.walk(s)):
                continue
            inside = {id(x) for s in run for x in ast.walk(s)}
            args = [a.arg for a in f.args.args + f.args.kwonlyargs]
            local = stored(f.body) | set(args)
            before = set(args)
            # variables certainly or possibly assigned outside the run
            outside_store = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside} | set(args)
            comp = {y.id for s in run for x in ast.walk(s) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            ins = sorted((loaded(run) & local & outside_store) - {"self"} - (comp - (set(args))))
            # read before written inside: conservative, pass every variable that is also stored outside
            late = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
            loops = [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While)) and any(y is run[0] for y in ast.walk(x))]
            if loops:
                late |= loaded(run)
            outs = sorted((w & late) - comp)
            # values must be definitely assigned in the run, or passed in
            if any(v in w and v not in definite(run) and v not in outside_store for v in outs):
                continue
            # inputs must be assigned for sure before: require the name to be a parameter or stored earlier in the same block or enclosing blocks linearly
            early = set(args) | prior(f, o, fl, i)
            if not set(ins) <= early:
                # drop the inputs that the run itself defines first
                ins2 = [v for v in ins if v in early]
                if any(v not in definite(run) for v in ins if v not in early):
                    continue
                if any(v not in first_written(run) for v in ins if v not in early):
                    continue
                ins = ins2
            if any(v not in definite(run) and v not in ins for v in outs):
                if not all(v in early for v in outs if v not in definite(run)):
                    continue
                ins = sorted(set(ins) | {v for v in outs if v not in definite(run)})
            method = c is not None and any(isinstance(x, ast.Name) and x.id == "self" for s in run for x in ast.walk(s))
            if "self" in args and not method and c is not None:
                pass
            COUNT[0] += 1
            name = "_helper_%d" % COUNT[0]
            body = list(run)
            if outs:
                body.append(ast.Return(ast.Tuple([ast.Name(v, ast.Load()) for v in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
            params = (["self"] if method else []) + ins
            h = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body, [], None, type_params=[])
            h.lineno = f.lineno
            fn = ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()) if method else ast.Name(name, ast.Load())
            call = ast.Call(fn, [ast.Name(p, ast.Load()) for p in ins], [])
            if outs:
                tgt = ast.Tuple([ast.Name(v, ast.Store()) for v in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
                new = ast.Assign([tgt], call)
            else:
                new = ast.Expr(call)
            b[i:j] = [new]
            return ("helper", h, method)
    return False


def definite(run):
    """names certainly assigned by the statements"""
    out = set()
    for s in run:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
        elif isinstance(s, ast.If):
            out |= definite(s.body) & definite(s.orelse)
        elif isinstance(s, ast.With):
            out |= definite(s.body)
            out |= {x.id for it in s.items if it.optional_vars is not None for x in ast.walk(it.optional_vars) if isinstance(x, ast.Name)}
    return out


def first_written(run):
    """names assigned (unconditionally) before any read in the run"""
    out, read = set(), set()
    for s in run:
        read |= loaded(s) - out if not isinstance(s, (ast.Assign,)) else (loaded(s.value) | loaded(s)) - out
        if isinstance(s, ast.Assign):
            out |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - read
        elif isinstance(s, ast.With):
            out |= {x.id for it in s.items if it.optional_vars is not None for x in ast.walk(it.optional_vars) if isinstance(x, ast.Name)} - read
    return out


def prior(f, o, fl, i):
    """names certainly assigned before statement i of the block"""
    out = set()

    def go(n, acc):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            a = set(acc)
            if fld == "body" and isinstance(n, ast.For):
                a |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            if fld == "body" and isinstance(n, ast.With):
                a |= {x.id for it in n.items if it.optional_vars is not None for x in ast.walk(it.optional_vars) if isinstance(x, ast.Name)}
            for k, s in enumerate(b):
                if n is o and fld == fl and k == i:
                    out.update(a)
                    return
                go(s, a)
                a |= definite([s])
        for h in getattr(n, "handlers", []) or []:
            go(h, acc)
    go(f, set())
    return out


def e_reorder(m, c, f, r):
    cand = []
    for o, fl, b in blocks(f):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and all(isinstance(t, ast.Name) for t in z.targets) and pure(z.value) for z in (x, y)):
                if stored(x) & (stored(y) | loaded(y)) or stored(y) & loaded(x):
                    continue
                cand.append((b, i))
    if not cand:
        return False
    b, i = r.choice(cand)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def e_flip(m, c, f, r):
    cand = [x for x in ast.walk(f) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in FL and not isinstance(x.left, ast.Constant)]
    if not cand:
        return False
    x = r.choice(cand)
    x.left, x.comparators, x.ops = x.comparators[0], [x.left], [FL[type(x.ops[0])]()]
    return True


FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def e_np(m, c, f, r):
    def npf(x, n):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np" and x.func.attr in n
    cand = [x for x in ast.walk(f) if npf(x, ("matmul", "multiply", "divide", "subtract", "square", "dot")) and not x.keywords and not any(isinstance(a, (ast.List, ast.Starred)) for a in x.args)]
    if not cand:
        return False
    x = r.choice(cand)
    a = x.func.attr
    if a == "dot":
        x.func.attr = "matmul"
        return True
    if a == "square":
        if r.random() < .5:
            new = ast.BinOp(x.args[0], ast.Pow(), ast.Constant(2))
        else:
            new = ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "power", ast.Load()), [x.args[0], ast.Constant(2)], [])
    else:
        new = ast.BinOp(x.args[0], {"matmul": ast.MatMult, "multiply": ast.Mult, "divide": ast.Div, "subtract": ast.Sub}[a](), x.args[1])
    keep = {k: x.__dict__[k] for k in ("lineno", "col_offset", "end_lineno", "end_col_offset") if k in x.__dict__}
    x.__class__ = new.__class__
    x.__dict__.clear()
    x.__dict__.update(new.__dict__, **keep)
    return True


def e_sum(m, c, f, r):
    cand = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np"
            and x.func.attr in ("sum", "mean", "max", "min", "round") and x.args and isinstance(x.args[0], (ast.Name, ast.Attribute)) and len(x.args) == 1]
    cand = [x for x in cand if isinstance(x.args[0], ast.Attribute) or x.args[0].id in ("residuals", "weighted_residuals", "WH", "W", "H", "V", "U")]
    if not cand:
        return False
    x = r.choice(cand)
    x.func = ast.Attribute(x.args[0], x.func.attr, ast.Load())
    x.args = []
    return True


def e_fstr(m, c, f, r):
    cand = [x for x in ast.walk(f) if isinstance(x, ast.JoinedStr) and all(isinstance(v, ast.Constant) or (v.conversion == -1 and v.format_spec is None) for v in x.values)]
    if not cand:
        return False
    x = r.choice(cand)
    if r.random() < .5:
        s = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in x.values)
        new = ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), [v.value for v in x.values if not isinstance(v, ast.Constant)], [])
    else:
        ps = [v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], []) for v in x.values]
        if not ps:
            return False
        new = ps[0]
        for p in ps[1:]:
            new = ast.BinOp(new, ast.Add(), p)
    x.__class__ = new.__class__
    keep = {k: x.__dict__[k] for k in ("lineno", "col_offset", "end_lineno", "end_col_offset") if k in x.__dict__}
    x.__dict__.clear()
    x.__dict__.update(new.__dict__, **keep)
    return True


def e_kw(m, c, f, r):
    cand = [x for x in ast.walk(f) if isinstance(x, ast.Call) and len(x.keywords) > 1 and all(k.arg for k in x.keywords) and all(pure(k.value) for k in x.keywords)]
    if not cand:
        return False
    x = r.choice(cand)
    r.shuffle(x.keywords)
    return True


def e_aug(m, c, f, r):
    cand = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant)]
    if not cand:
        return False
    b, i, s = r.choice(cand)
    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return True


def e_noop(m, c, f, r):
    o, fl, b = r.choice(blocks(f))
    i = r.randrange(len(b) + 1)
    if i == 0 and fl == "body" and o is f:
        i = 1
    k = r.randrange(4)
    if k == 0:
        b.insert(i, ast.Pass())
    elif k == 1:
        b.insert(i, ast.Assign([ast.Name(fresh(f, r, "unused"), ast.Store())], ast.Constant(0)))
    elif k == 2:
        b.insert(i, ast.Expr(ast.Constant("note")))
    else:
        b.insert(i, ast.If(ast.Constant(False), [ast.Pass()], []))
    if b[max(i - 1, 0)].__class__ in (ast.Return, ast.Raise, ast.Break, ast.Continue):
        pass
    return True


def e_nest(m, c, f, r):
    """if a and b: X -> nested; nested -> and"""
    cand = [x for x in ast.walk(f) if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And)]
    c2 = [x for x in ast.walk(f) if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse]
    if c2 and (not cand or r.random() < .5):
        x = r.choice(c2)
        x.test = ast.BoolOp(ast.And(), [x.test, x.body[0].test])
        x.body = x.body[0].body
        return True
    if not cand:
        return False
    x = r.choice(cand)
    v = x.test.values
    rest = v[1:]
    x.test = v[0]
    x.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), x.body, [])]
    return True


def e_unpack(m, c, f, r):
    cand = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call)
            and all(isinstance(e, ast.Name) for e in s.targets[0].elts)]
    if not cand:
        return False
    b, i, s = r.choice(cand)
    t = fresh(f, r, "res")
    new = [ast.Assign([ast.Name(t, ast.Store())], s.value)]
    for k, e in enumerate(s.targets[0].elts):
        new.append(ast.Assign([e], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(k), ast.Load())))
    b[i:i + 1] = new
    return True


def e_hoist(m, c, f, r):
    """a parameter expression read several times is computed once at the top"""
    args = [a.arg for a in f.args.args if a.arg not in stored(f.body) and a.arg != "self"]
    if not args:
        return False
    cand = collections.Counter()
    for x in ast.walk(f):
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "shape" and isinstance(x.value.value, ast.Name) and x.value.value.id in args and isinstance(x.slice, ast.Constant):
            cand[ast.unparse(x)] += 1
    cand = [k for k, v in cand.items() if v >= 1]
    if not cand:
        return False
    # only when the first use is unconditional: straight-line top level statement before any branch
    return False


def e_constant(m, c, f, r):
    """a literal moves into a module constant"""
    inargs = {id(y) for y in ast.walk(f.args)}
    deco = {id(y) for d in f.decorator_list for y in ast.walk(d)}
    fs = {id(y) for x in ast.walk(f) if isinstance(x, (ast.JoinedStr, ast.FormattedValue)) for y in ast.walk(x)}
    cand = [x for x in ast.walk(f) if isinstance(x, ast.Constant) and isinstance(x.value, (int, float, str)) and not isinstance(x.value, bool) and id(x) not in inargs and id(x) not in fs and id(x) not in deco]
    docs = {id(b[0].value) for _, _, b in blocks(f) if isinstance(b[0], ast.Expr)}
    docs |= {id(s.value) for _, _, b in blocks(f) for s in b if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)}
    cand = [x for x in cand if id(x) not in docs]
    if not cand:
        return False
    x = r.choice(cand)
    n = "_CONST_%d" % r.randrange(1000)
    v = x.value
    keep = {k: x.__dict__[k] for k in ("lineno", "col_offset", "end_lineno", "end_col_offset") if k in x.__dict__}
    x.__class__ = ast.Name
    x.__dict__.clear()
    x.__dict__.update(id=n, ctx=ast.Load(), **keep)
    return ("const", n, v)


def e_retvar(m, c, f, r):
    cand = [(b, i, s) for _, _, b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant))]
    if not cand:
        return False
    b, i, s = r.choice(cand)
    t = fresh(f, r, "result")
    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
    return True


def e_zip(m, c, f, r):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    cand = []
    for s in ast.walk(f):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)) \
                and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
            d = ast.unparse(s.iter.func.value)
            if any(isinstance(x, ast.Assign) and any(ast.unparse(t).startswith(d) for t in x.targets) for y in s.body for x in ast.walk(y)):
                continue
            cand.append(s)
    if not cand:
        return False
    s = r.choice(cand)
    d = s.iter.func.value
    k, v = s.target.elts
    s.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
    s.target = k
    s.iter = d
    return True


EDITS = [e_rename, e_temp, e_temp, e_invert, e_ifexp, e_toifexp, e_earlyret, e_while, e_while, e_index, e_enum, e_comp, e_tocomp, e_extract, e_extract, e_extract, e_extract, e_reorder, e_flip, e_np, e_sum,
         e_fstr, e_kw, e_aug, e_noop, e_nest, e_unpack, e_constant, e_retvar, e_zip]


def edit(r, k):
    """applies k random edits to one function in place; returns (function, description, undo)"""
    for _ in range(30):
        m, c, f = r.choice([x for x in M.tree.all_functions()])
        names = []
        old = copy.deepcopy(f)
        before = ast.unparse(f)
        added = []
        for _ in range(k * 4):
            e = r.choice(EDITS)
            ok = e(m, c, f, r)
            if ok:
                names.append(e.__name__[2:])
                if isinstance(ok, tuple):
                    if ok[0] == "helper":
                        host = (c.node if ok[2] else m.tree)
                        added.append((host, ok[1]))
                        host.body.insert(len(host.body) if not ok[2] else len(host.body), ok[1])
                    else:
                        s = ast.Assign([ast.Name(ok[1], ast.Store())], ast.Constant(ok[2]))
                        i = 0
                        m.tree.body.insert(next((i for i, z in enumerate(m.tree.body) if isinstance(z, (ast.FunctionDef, ast.ClassDef))), 0), s)
                        added.append((m.tree, s))
            if len(names) >= k:
                break
        if not names:
            continue
        for z in [f] + [a for _, a in added]:
            ast.fix_missing_locations(z)
        return m, c, f, old, before, names, added
    return None


def run(seed):
    COUNT[0] = 0
    r = random.Random(seed)
    import esatlint.loader as L
    k = r.choice([1, 1, 2, 3, 5])
    try:
        x = edit(r, k)
    except Exception as ex:
        return ["?"], "?", "bad-edit", [("", "", repr(ex))], "", ""
    if x is None:
        return None
    m, c, f, old, before, names, added = x
    q = core.qualname(m, c, f)
    try:
        ast.unparse(m.tree)
    except ValueError as ex:
        f.__dict__.clear()
        f.__dict__.update(old.__dict__)
        for host, a in added:
            host.body.remove(a)
        return names, q, "bad-edit", [(q, "", str(ex))], before, ""
    after = ast.unparse(f) + "".join("\n" + ast.unparse(a) for _, a in added)
    src = ast.unparse(m.tree)
    # undo, then analyse a tree with the edited source
    f.__dict__.clear()
    f.__dict__.update(old.__dict__)
    for host, a in added:
        host.body.remove(a)
    if os.environ.get("DUMP"):
        import shutil
        shutil.rmtree(os.environ["DUMP"], ignore_errors=True)
        shutil.copytree(core.REF, os.environ["DUMP"])
        open(os.path.join(os.environ["DUMP"], m.path), "w").write(src)
        return None
    try:
        t2 = M.Tree(core.REF)
        t2.replace_source(m.name, src)
    except SyntaxError as ex:
        return names, q, "bad-edit", [(q, "", str(ex))], before, after
    res, det = [], []
    ch = shape.Change(M.rtree, t2)
    try:
        for e, (s, why, inl) in M.REFS.items():
            if s is None or q not in inl:
                continue
            sa, w2, _ = core.analyse(t2, e, M.sigs, 60)
            if sa is None:
                res.append("unanalysed"); det.append((e, "", w2)); continue
            o, ok, fs = core.compare_entry(e, sa, s, M.KF)
            for z in fs:
                pt = z.kind != "definite" and ch.entry(e, set(sa.inlined) | set(s.inlined))
                res.append("definite" if pt else z.kind); det.append((e, z.observable, z.text))
        if RULES:
            for pr, rs in rules.RULES.items():
                for nm, fn in rs:
                    for z in fn(t2, M.rtree)[1]:
                        res.append("definite"); det.append(("rule " + pr, nm, z["text"]))
    except Exception as ex:
        import traceback
        res.append("crash"); det.append((q, "", traceback.format_exc()[-600:]))
    v = "definite" if "definite" in res else ("crash" if "crash" in res else ("mixed" if "mixed" in res else ("unknown" if "unknown" in res else ("unanalysed" if "unanalysed" in res else "equal"))))
    return names, q, v, det, before, after


RULES = "--rules" in sys.argv
if __name__ == "__main__":
    n = int(sys.argv[1]); base = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    show = sys.argv[3].split(",") if len(sys.argv) > 3 else ["definite", "mixed", "unknown", "crash", "unanalysed", "bad-edit"]
    t = time.time()
    M.init()
    cnt = collections.Counter()
    import difflib
    with mp.Pool(7, maxtasksperchild=4) as p:
        for i, x in enumerate(p.imap(run, range(base, base + n), chunksize=1)):
            if x is None:
                continue
            names, q, v, det, b, a = x
            cnt[v] += 1
            for nm in set(names):
                cnt[(nm, v)] += 1
            if v in show:
                print("##", v, base + i, q, "+".join(names))
                for e, o, tx in det[:2]:
                    print("      ", e, o, str(tx)[:500])
                if v in ("definite", "mixed", "crash", "bad-edit"):
                    print("\n".join("        " + l for l in difflib.unified_diff(b.split("\n"), a.split("\n"), n=0, lineterm="")))
                sys.stdout.flush()
    for k, v in sorted(cnt.items(), key=str):
        print(k, v)
    print(time.time() - t)
