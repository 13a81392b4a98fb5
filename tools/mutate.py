"""Development aid: plants random small changes in the reference model and reports how the comparison classifies them."""
import ast, copy, os, random, sys, time, collections, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from esatlint import shape, core, terms as T
from esatlint.loader import Tree

tree = Tree(core.REF)
rtree = Tree(core.REF)
sigs = core.signatures(rtree)
LOG = ("logger", "logging", "print", "tqdm", "fig")


def functions():
    return [(m, c, f) for m, c, f in tree.all_functions() if not f.name.startswith("plot") and "cli" not in m.name]


def names_of(f):
    return sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args if a.arg != "self"})


def sites(f, cls):
    out = []
    attrs = sorted({x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"})
    nm = names_of(f)
    skip = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Call):
            s = ast.unparse(x.func)
            if s.split(".")[0] in LOG or "update_layout" in s or "add_trace" in s or s.startswith("go."):
                skip |= {id(y) for y in ast.walk(x)}
        if isinstance(x, ast.Raise):
            skip |= {id(y) for y in ast.walk(x)}
    for a in [f.args]:
        skip |= {id(y) for y in ast.walk(a)}
    for x in ast.walk(f):
        if id(x) in skip:
            continue
        if isinstance(x, ast.Constant):
            if isinstance(x.value, bool):
                out.append(("bool", x))
            elif isinstance(x.value, (int, float)):
                out.append(("const", x))
        elif isinstance(x, ast.Compare) and len(x.ops) == 1:
            out.append(("cmp", x))
        elif isinstance(x, ast.BinOp) and type(x.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            out.append(("bin", x))
        elif isinstance(x, ast.BoolOp):
            out.append(("boolop", x))
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self" and len(attrs) > 1:
            out.append(("attr", x))
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in nm and len(nm) > 1:
            out.append(("name", x))
        elif isinstance(x, ast.If):
            out.append(("negif", x))
        elif isinstance(x, ast.Call):
            if len(x.args) >= 2:
                out.append(("swapargs", x))
            if x.keywords:
                out.append(("dropkw", x))
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("copy",) or ast.unparse(x.func) in ("copy.copy", "copy.deepcopy", "np.copy"):
                out.append(("dropcopy", x)); out.append(("dropcopy", x))
            if isinstance(x.func, ast.Attribute) and x.func.attr in SW:
                out.append(("func", x))
        if hasattr(x, "body") and isinstance(x.body, list):
            for i, s in enumerate(x.body):
                if id(s) in skip or (isinstance(s, ast.Expr) and id(s.value) in skip):
                    continue
                if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)) or isinstance(s, (ast.Break, ast.Continue)):
                    out.append(("dropstmt", (x, i)))
                if isinstance(s, ast.If) and not s.orelse:
                    out.append(("dropif", (x, i)))
    return out, attrs, nm


SW = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "mean": "sum", "sum": "mean", "append": "append", "any": "all", "all": "any", "idxmax": "idxmin", "where": "where"}


def mutate(r):
    """apply in place; returns (description, undo)"""
    for _ in range(50):
        m, c, f = r.choice(functions())
        ss, attrs, nm = sites(f, c)
        if not ss:
            continue
        kinds = sorted({k for k, _ in ss})
        k = r.choice(kinds)
        _, x = r.choice([s for s in ss if s[0] == k])
        save = None
        if k in ("dropstmt", "dropif"):
            par, i = x
            old = list(par.body)
            d = "%s" % ast.unparse(par.body[i]).split("\n")[0][:100]
            par.body[i] = ast.copy_location(ast.Pass(), par.body[i])
            def undo(par=par, old=old):
                par.body[:] = old
        else:
            before = ast.unparse(x).split("\n")[0][:90]
            old = dict(x.__dict__)
            def undo(x=x, old=old, cls=x.__class__):
                x.__class__ = cls
                x.__dict__.clear(); x.__dict__.update(old)
            if k == "const":
                x.value = r.choice([x.value + 1, x.value - 1 if x.value else 2, x.value * 2 + 1])
                if x.value in (0, 1) and old["value"] in (0, 1):
                    pass
            elif k == "bool":
                x.value = not x.value
            elif k == "cmp":
                o = x.ops[0]
                t = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                     ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}[type(o)]
                x.ops = [r.choice(t)()]
            elif k == "bin":
                x.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(x.op)]()
            elif k == "boolop":
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            elif k == "attr":
                x.attr = r.choice([a for a in attrs if a != x.attr])
            elif k == "name":
                x.id = r.choice([a for a in nm if a != x.id])
            elif k == "negif":
                x.test = ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x.test)
            elif k == "swapargs":
                x.args = [x.args[1], x.args[0]] + x.args[2:]
            elif k == "dropkw":
                i = r.randrange(len(x.keywords))
                x.keywords = x.keywords[:i] + x.keywords[i + 1:]
            elif k == "dropcopy":
                e = x.func.value if isinstance(x.func, ast.Attribute) and x.func.attr == "copy" and ast.unparse(x.func) not in ("copy.copy", "np.copy") else (x.args or [x])[0]
                if e is x:
                    continue
                x.__class__ = e.__class__
                x.__dict__.clear(); x.__dict__.update(e.__dict__)
            elif k == "func":
                if SW[x.func.attr] == x.func.attr:
                    continue
                fo = x.func
                x.func = ast.copy_location(ast.Attribute(fo.value, SW[fo.attr], fo.ctx), fo)
            after = ast.unparse(x).split("\n")[0][:90]
            if after == before:
                undo()
                continue
            d = "%s -> %s" % (before, after)
        q = core.qualname(m, c, f)
        return k, q, "%s:%s %s" % (q, getattr(x if not isinstance(x, tuple) else x[0], "lineno", 0), d), undo
    return None


def known_fields(tree):
    out = set()
    for m in tree.modules.values():
        for c in m.classes.values():
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    out.add(x.attr)
    return frozenset(out)


KF = known_fields(rtree)
REFS = {}


def init():
    t = time.time()
    for q in core.entries(rtree):
        s, why, it = core.analyse(rtree, q, sigs)
        REFS[q] = (s, why)
        REFS[q] += (callees(q),)


def callees(q):
    """functions reachable by name from q (names only)"""
    m, c, f = rtree.find(q)
    seen = {f}
    todo = [f]
    byname = {}
    if not hasattr(callees, "idx"):
        callees.idx = {}
        for m2, c2, f2 in rtree.all_functions():
            callees.idx.setdefault(f2.name, []).append((core.qualname(m2, c2, f2), f2))
    out = {q}
    while todo:
        g = todo.pop()
        for x in ast.walk(g):
            n = x.attr if isinstance(x, ast.Attribute) else (x.id if isinstance(x, ast.Name) else None)
            for q2, f2 in callees.idx.get(n, []):
                if f2 not in seen:
                    seen.add(f2)
                    todo.append(f2)
                    out.add(q2)
    return out


def run(seed):
    r = random.Random(seed)
    mu = mutate(r)
    if mu is None:
        return None
    k, q, d, undo = mu
    for m in tree.modules.values():
        for c in m.classes.values():
            c._fields = None
    res, det = [], []
    ch = shape.Change(rtree, tree)
    try:
        for e, (s, why, inl) in REFS.items():
            if s is None or q not in inl:
                continue
            sa, w2, _ = core.analyse(tree, e, sigs, 30)
            if sa is None:
                res.append("unanalysed"); det.append((e, "", w2)); continue
            o, ok, fs = core.compare_entry(e, sa, s, KF)
            for x in fs:
                pt = x.kind != "definite" and ch.entry(e, set(sa.inlined) | set(s.inlined))
                res.append("point" if pt else x.kind); det.append((e, x.observable, x.text))
    except Exception as ex:
        import traceback
        res.append("crash"); det.append((q, "", traceback.format_exc()[-600:]))
    undo()
    v = "definite" if "definite" in res else ("point" if "point" in res else ("crash" if "crash" in res else ("mixed" if "mixed" in res else ("unknown" if "unknown" in res else ("unanalysed" if "unanalysed" in res else "equal")))))
    det.append(("shape", "", str([(a, b) for a, b in ch.status.items() if b])))
    return k, d, v, det


if __name__ == "__main__":
    n = int(sys.argv[1]); base = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    show = sys.argv[3].split(",") if len(sys.argv) > 3 else ["equal", "unknown", "crash", "mixed", "unanalysed"]
    t = time.time()
    init()
    print("init", time.time() - t, "undecided refs", [(q, w) for q, (s, w, i) in REFS.items() if s is None])
    cnt = collections.Counter()
    with mp.Pool(8, maxtasksperchild=6) as p:
        for x in p.imap_unordered(run, range(base, base + n), chunksize=4):
            if x is None:
                continue
            k, d, v, det = x
            cnt[(k, v)] += 1
            cnt[("ALL", v)] += 1
            if v in show:
                print("%-9s %-9s %s" % (v, k, d))
                if v not in ("equal",):
                    for e, o, tx in det[:1] + det[-1:]:
                        print("      ", e, o, str(tx)[:700])
    for k, v in sorted(cnt.items()):
        print(k, v)
    print(time.time() - t)
