"""Models of the builtins and library calls the tree uses.

Anything that is not listed is an uninterpreted pure function of its arguments
(the same term for the same arguments), except that a method call whose result is
discarded is taken to change its receiver."""
import ast
from . import terms as T
from .terms import N, C, NONE_, TRUE, FALSE, ZERO, ONE
from .interp import (Ref, Tup, FuncV, ClassV, ModV, Ext, MethV, RangeV, ListC, DictC, ObjC, ViewC, MUTATORS, IGNORED_CALLS, IO_CALLS,
                     IO_METHODS, LOG_NAMES, REDUCERS, RED_ALIAS, Unsupported, dict_from_pairs, mk_concat)

BIN = {"np.multiply": "Mult", "np.divide": "Div", "np.true_divide": "Div", "np.add": "Add", "np.subtract": "Sub", "np.power": "Pow",
       "np.matmul": "MatMult", "np.dot": "MatMult", "np.mod": "Mod", "np.floor_divide": "FloorDiv", "operator.add": "Add", "operator.mul": "Mult"}
CMP = {"np.greater": "Gt", "np.less": "Lt", "np.greater_equal": "GtE", "np.less_equal": "LtE", "np.equal": "Eq", "np.not_equal": "NotEq"}
POSNAMES = {
    "np.percentile": ["a", "q", "axis"], "np.quantile": ["a", "q", "axis"], "np.zeros": ["shape", "dtype"], "np.ones": ["shape", "dtype"],
    "np.full": ["shape", "fill_value", "dtype"], "np.corrcoef": ["x", "y"], "np.array": ["object", "dtype"], "np.asarray": ["a", "dtype"],
    "np.cumsum": ["a", "axis"], "np.diff": ["a", "n", "axis"], "np.round": ["a", "decimals"], "round": ["number", "ndigits"],
    "np.argsort": ["a", "axis"], "np.sort": ["a", "axis"], "np.delete": ["arr", "obj", "axis"], "np.repeat": ["a", "repeats", "axis"],
    "np.concatenate": ["arrays", "axis"], "np.linspace": ["start", "stop", "num"], "pd.DataFrame": ["data", "index", "columns"],
    "os.mkdir": ["path"], "os.makedirs": ["name"], "np.allclose": ["a", "b"], "np.isclose": ["a", "b"], "np.unique": ["ar"],
    "np.random.default_rng": ["seed"], "pd.Series": ["data", "index"], "np.append": ["arr", "values", "axis"], "np.clip": ["a", "a_min", "a_max"],
}
METHPOS = {".integers": ["low", "high", "size"], ".normal": ["loc", "scale", "size"], ".uniform": ["low", "high", "size"],
           ".choice": ["a", "size", "replace", "p"], ".standard_normal": ["size"], ".random": ["size"], ".reset_index": ["level"],
           ".to_csv": ["path_or_buf"], ".round": ["decimals"], ".astype": ["dtype"], ".reshape": None, ".quantile": ["q"], ".get": ["key", "default"]}

RNG_METHODS = {"integers", "normal", "uniform", "choice", "standard_normal", "random", "shuffle", "permutation", "permuted", "poisson",
               "exponential", "lognormal", "gamma", "beta", "binomial", "multivariate_normal", "rand", "randn", "randint"}


def normkw(it, name, args, kwargs, table, st):
    """positional arguments as keywords where the signature is known"""
    names = table.get(name)
    fa = [it.freeze(a, st) for a in args]
    fk = {k: it.freeze(v, st) for k, v in kwargs.items()}
    if names:
        for i, a in enumerate(fa):
            if i < len(names) and names[i] not in fk and not a.op == "star":
                fk[names[i]] = a
            else:
                return [*fa] + [N("kw", k, v) for k, v in sorted(fk.items())]
        return [N("kw", k, v) for k, v in sorted(fk.items())]
    return fa + [N("kw", k, v) for k, v in sorted(fk.items())]


def axis_of(fk, fa, i):
    if "axis" in fk:
        return fk["axis"]
    if len(fa) > i:
        return fa[i]
    return NONE_


def reduce_call(it, kind, x, axis, extra):
    kind = RED_ALIAS.get(kind, kind)
    if extra:
        return N("reducex", kind, x, axis, *extra)
    r = T.mk_reduce(kind, x, axis)
    return r


def call_ext(it, name, args, kwargs, st, e, fr, stmt=False):
    if name == "print" and it.reports is fr.module and args:
        it.report_values(args, e, fr, st)
    if name in IGNORED_CALLS or name.split(".")[0] in ("logger", "logging"):
        return NONE_
    fa = None

    def F():
        nonlocal fa
        if fa is None:
            fa = [it.freeze(a, st) for a in args]
        return fa
    fk = {k: it.freeze(v, st) for k, v in kwargs.items()}

    # ---- builtins
    if name == "len" and len(args) == 1:
        a = args[0]
        if isinstance(a, RangeV):
            return a.n
        if isinstance(a, Tup):
            return C(len(a.v))
        if isinstance(a, Ref):
            c = it.content(st, a)
            if isinstance(c, (ListC,)):
                return C(len(c.v))
            if isinstance(c, DictC) and all(T.is_const(k) for k in c.d):
                return C(len(c.d))
        return T.mk_len(F()[0])
    if name == "range":
        f = F()
        lo, hi, step = (ZERO, f[0], ONE) if len(f) == 1 else (f[0], f[1], f[2] if len(f) > 2 else ONE)
        if step is ONE:
            return RangeV(T.sub(hi, lo), lambda iv, s: T.add(iv, lo), ("range", lo, hi, step))
        if T.is_num(step) and T.num(step) == -1:
            return RangeV(T.sub(lo, hi), lambda iv, s: T.sub(lo, iv), ("range", lo, hi, step))
        return RangeV(N("call", "rangelen", lo, hi, step), lambda iv, s: T.add(lo, T.mul(iv, step)), ("range", lo, hi, step))
    if name == "enumerate":
        r = it.iterate(args[0], st)
        start = fk.get("start", F()[1] if len(args) > 1 else ZERO)
        if isinstance(r, list):
            return Tup([Tup([T.add(start, C(i)), t(st)]) for i, t in enumerate(r)])
        return RangeV(r.n, lambda iv, s: Tup([T.add(start, iv), r.elem(iv, s)]))
    if name == "zip" and args and not fk:
        rs = [it.iterate(a, st) for a in args]
        if all(isinstance(r, list) for r in rs):
            return Tup([Tup([t(st) for t in ts]) for ts in zip(*rs)])
        rs = [list_range(it, r, a, st) for r, a in zip(rs, args)]
        n = rs[0].n
        for r in rs[1:]:
            if r.n is not n:
                n = T.mk_minmax("minn", (n, r.n))
        return RangeV(n, lambda iv, s: Tup([r.elem(iv, s) for r in rs]))
    if name in ("tqdm", "tqdm.tqdm", "tqdm.auto.tqdm", "trange", "tqdm.trange", "tqdm.notebook.tqdm") or name.endswith(".tqdm") or name.endswith(".trange"):
        if name.endswith("trange"):
            return call_ext(it, "range", args[:1], {}, st, e, fr)
        return args[0] if args else (kwargs.get("iterable") or N("call", "tqdm"))
    if name == "reversed" and len(args) == 1:
        r = it.iterate(args[0], st)
        if isinstance(r, list):
            return Tup([t(st) for t in reversed(r)])
        return RangeV(r.n, lambda iv, s: r.elem(T.sub(T.sub(r.n, ONE), iv), s))
    if name in ("list", "tuple") and len(args) <= 1:
        if not args:
            return it.new_cell(st, ListC([]), ty="list") if name == "list" else Tup([])
        a = args[0]
        r = None
        if isinstance(a, (RangeV, Tup)) or (isinstance(a, Ref) and isinstance(it.content(st, a), (ListC, DictC))):
            r = it.iterate(a, st)
        if isinstance(r, list):
            vals = [t(st) for t in r]
            return it.new_cell(st, ListC(vals), ty="list") if name == "list" else Tup(vals)
        if isinstance(r, RangeV):
            iv = T.fresh("iv", "X%d" % it.loopdepth)
            return it.new_cell(st, T.mk_map(r.n, iv, it.freeze(r.elem(iv, st), st)), ty="list")
        f = F()[0]
        if f.op == "call" and f.args[0] in (".items", ".values", ".keys") and len(f.args) == 2:
            r = it.iter_node(f, None, st)
            if isinstance(r, RangeV):
                iv = T.fresh("iv", "X%d" % it.loopdepth)
                return it.new_cell(st, T.mk_map(r.n, iv, it.freeze(r.elem(iv, st), st)), ty="list")
        if T.is_listlike(f):
            return it.new_cell(st, f, ty="list")
        if f.op == "tuple":
            return it.new_cell(st, ListC(f.args), ty="list") if name == "list" else f
        return it.new_cell(st, N("call", "list", f), ty="list")
    if name == "dict":
        if not args:
            d = {C(k): v for k, v in kwargs.items() if k != "**"}
            return it.new_cell(st, DictC(d), ty="dict")
        f = F()[0]
        if not fk:
            if it.ty(args[0], st) == "dict":
                return it.new_cell(st, f, ty="dict")
            return it.new_cell(st, dict_from_pairs(f), ty="dict")
        return it.new_cell(st, N("dictu", f, N("dict", *[x for k, v in sorted(fk.items()) for x in (C(k), v)])), ty="dict")
    if name == "set":
        return it.new_cell(st, N("setof", F()[0]) if args else N("set"))
    if name in ("min", "max") and len(args) > 1 and not fk:
        return T.mk_choose(name, *F()) if len(F()) == 2 and all(x.op != "star" for x in F()) else T.mk_minmax(name + "n", F())
    if name in ("np.maximum", "np.minimum", "np.fmax", "np.fmin"):
        return T.mk_minmax("maxn" if "max" in name else "minn", F())
    if name in ("sum", "min", "max", "any", "all") and len(args) >= 1:
        x = F()[0]
        if isinstance(args[0], RangeV):
            pass
        if name == "sum" and len(args) > 1:
            return T.add(T.mk_reduce("sum", x, NONE_), F()[1])
        if fk:
            return N("call", name, x, *[N("kw", k, v) for k, v in sorted(fk.items())])
        if name in ("any", "all") and x.op == "call" and x.args[0] == "list":
            x = x.args[1]
        return T.mk_reduce(name, x, NONE_)
    if name in ("abs", "np.abs", "np.absolute", "np.fabs", "math.fabs"):
        return T.mk_abs(F()[0])
    if name == "str":
        return T.mk_fstr([F()[0]]) if args else C("")
    if name == "bool" and args:
        return T.truth(F()[0])
    if name == "float" and args:
        if T.is_num(F()[0]):
            return F()[0]
        if T.is_str(F()[0]) and F()[0].args[1].strip("+-").lower() in ("inf", "infinity", "nan"):
            return C(float(F()[0].args[1]))
        return N("call", "float", F()[0])
    if name == "int" and args:
        if T.is_int(F()[0]) and F()[0].op not in ("call",):
            return F()[0]
        if T.is_num(F()[0]):
            return C(int(T.num(F()[0])))
        if F()[0].op == "call" and F()[0].args[0] == "int":
            return F()[0]
        return N("call", "int", F()[0])
    if name == "isinstance":
        t = args[1]
        ts = t.v if isinstance(t, Tup) else [t]
        x = args[0]
        xf = F()[0]
        r = FALSE
        for q in ts:
            tn = q.info.name if isinstance(q, ClassV) else (q.name if isinstance(q, Ext) else T.show(it.freeze(q, st)))
            if isinstance(x, Ref) and isinstance(it.content(st, x), ObjC) and it.content(st, x).cls is not None and isinstance(q, ClassV) and it.content(st, x).base is None:
                r = T.mk_or(r, C(it.content(st, x).cls.name == tn))
                continue
            if T.is_const(xf):
                ct = {"num": ("int", "float"), "str": ("str",), "bool": ("bool", "int"), "none": ()}.get(xf.args[0])
                if ct is not None:
                    r = T.mk_or(r, C(tn in ct))
                    continue
            r = T.mk_or(r, N("isinst", xf, tn))
        return r
    if name == "type" and len(args) == 1:
        return N("call", "type", F()[0])
    if name == "hasattr":
        return N("hasattr", F()[0], F()[1])
    if name == "getattr" and len(args) >= 2 and T.is_str(F()[1]):
        if len(args) == 2:
            return it.get_attr(args[0], F()[1].args[1], st)
        return N("call", "getattr", *F())
    if name == "setattr" and len(args) == 3 and T.is_str(F()[1]):
        it.set_attr(args[0], F()[1].args[1], it.box(args[2], st), st)
        return NONE_
    if name == "map" and len(args) == 2:
        r = list_range(it, it.iterate(args[1], st), args[1], st)
        iv = T.fresh("iv", "X%d" % it.loopdepth)
        s2 = st.copy()
        v = it.apply(args[0], [r.elem(iv, s2)], {}, s2, e, fr)
        return it.new_cell(st, T.mk_map(r.n, iv, it.freeze(v, s2)), ty="list")
    if name == "filter" and len(args) == 2:
        r = list_range(it, it.iterate(args[1], st), args[1], st)
        iv = T.fresh("iv", "X%d" % it.loopdepth)
        s2 = st.copy()
        el = r.elem(iv, s2)
        c = T.truth(it.freeze(it.apply(args[0], [el], {}, s2, e, fr), s2))
        return it.new_cell(st, T.mk_fmap(r.n, iv, c, it.freeze(el, s2)), ty="list")
    if name == "sorted" and len(args) == 1:
        items = [N("kw", k, v) for k, v in sorted(fk.items()) if not (k == "reverse" and v is FALSE)]
        return it.new_cell(st, T.mk_sorted(F()[0], items), ty="list")
    if name in ("sys.exit", "exit", "quit", "os._exit"):
        st.eff = st.eff + ((st.gate, N("exit"), it.loc(e, fr)),)
        return NONE_
    if name in ("copy.copy", "copy.deepcopy") and args:
        return clone(it, args[0], st)

    # ---- numpy
    if name in BIN and len(args) == 2:
        ks = {k: v for k, v in fk.items() if k not in ("dtype", "casting")}
        out = kwargs.get("out")
        if not ks or set(ks) == {"out"}:
            r = it.binop(BIN[name], F()[0], F()[1], st)
            if isinstance(out, Ref):
                it.write(st, out, r)
                return out
            return r
    if name in CMP and len(args) == 2 and not fk:
        return it.compare(CMP[name], *F())
    if name in ("np.logical_and", "np.logical_or", "np.logical_not", "operator.and_", "operator.or_") and not fk:
        f = [x if T.is_bool(x) else T.truth(x) for x in F()]
        if name.endswith("not"):
            return T.mk_not(f[0])
        return T.mk_and(*f) if "and" in name else T.mk_or(*f)
    if name in ("np.square",) and len(args) == 1 and not fk:
        return T.power(F()[0], 2)
    if name in ("np.sqrt", "math.sqrt") and len(args) == 1 and not fk:
        from fractions import Fraction
        return T.power(F()[0], Fraction(1, 2))
    if name == "np.negative" and len(args) == 1:
        return T.neg(F()[0])
    if name == "np.reciprocal" and len(args) == 1:
        return T.power(F()[0], -1)
    if name == "np.transpose" and len(args) == 1 and not fk:
        if isinstance(args[0], Ref):
            return it.new_cell(st, ViewC(args[0], "T"), ty="arr")
        return T.transpose(F()[0])
    if name == "np.where" and len(args) == 3:
        c = F()[0]
        return T.mk_ite(c if T.is_bool(c) else T.truth(c), F()[1], F()[2])
    if name.startswith("np.") and name[3:] in REDUCERS and args:
        kind = name[3:]
        extra = [N("kw", k, v) for k, v in sorted(fk.items()) if k not in ("axis", "dtype", "a") and not (k == "keepdims" and v is FALSE) and not (k == "ddof" and v is ZERO)]
        return reduce_call(it, kind, F()[0], axis_of(fk, F(), 1), extra)
    if name in ("np.array", "np.asarray", "np.copy", "np.ascontiguousarray", "np.asfortranarray", "np.asanyarray") and args:
        f = F()[0]
        ty = it.ty(args[0], st)
        dt = fk.get("dtype", F()[1] if len(args) > 1 else None)
        isarr = ty == "arr" or f.op in ("mm", "T") or (f.op not in ("list", "map", "fmap", "tuple", "lcat", "cat") and ty not in ("list", "df", "dict", "tuple"))
        r = f if isarr else N("call", "np.array", f)
        if dt is not None and dt is not NONE_:
            r = N("call", ".astype", r, N("kw", "dtype", dt))
        shares = name in ("np.asarray", "np.ascontiguousarray", "np.asanyarray") or fk.get("copy") is FALSE or fk.get("copy") is NONE_
        if shares and isinstance(args[0], Ref) and isarr:
            if dt is None or dt is NONE_:
                return args[0]
            return it.new_cell(st, ViewC(args[0], "call", (".astype", N("kw", "dtype", dt))), ty="arr")
        return it.new_cell(st, r, ty="arr")
    if name in ("np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like") and args:
        nm = {"np.zeros_like": "np.zeros", "np.ones_like": "np.ones", "np.empty_like": "np.empty", "np.full_like": "np.full"}[name]
        return it.new_cell(st, N("call", nm, N("attr", F()[0], "shape"), *F()[1:], *[N("kw", k, v) for k, v in sorted(fk.items())]), ty="arr")
    if name in ("np.zeros", "np.ones", "np.empty") and args:
        sh = fk.get("shape", F()[0])
        if sh.op == "tuple" and len(sh.args) == 1:
            sh = sh.args[0]
        items = [N("kw", k, v) for k, v in sorted(fk.items()) if k != "shape"] + F()[1:]
        return it.new_cell(st, N("call", name, sh, *items), ty="arr")
    if name == "np.nonzero" and len(args) == 1 or (name == "np.where" and len(args) == 1):
        return N("call", "np.where", F()[0])
    if name == "np.full" and args:
        sh, v = fk.get("shape", F()[0]), fk.get("fill_value", F()[1] if len(args) > 1 else None)
        if v is not None and "dtype" not in fk and len(args) < 3 and not T.is_int(v) and not T.is_const(v) or v is not None and T.is_num(v) and not T.is_int(v):
            if sh.op == "tuple" and len(sh.args) == 1:
                sh = sh.args[0]
            return it.new_cell(st, T.mul(N("call", "np.ones", N("kw", "shape", sh)), v), ty="arr")
    if name in ("np.float32", "np.float64") and len(args) == 1 and T.is_num(F()[0]):
        return F()[0]
    if name in ("np.isnan", "pd.isna", "pd.isnull", "math.isnan") and args and F()[0].op in ("list", "tuple"):
        return it.new_cell(st, N("list", *[N("call", "np.isnan", x) for x in F()[0].args]), ty="arr")
    if name in ("np.isnan", "pd.isna", "pd.isnull", "math.isnan") and args:
        return N("call", "np.isnan" if name != "math.isnan" else "np.isnan", F()[0])
    if name in ("np.float64", "np.float32", "np.int64", "np.int32") and args:
        return N("call", name, *F())
    if name in ("np.add.at", "np.put", "np.copyto", "np.fill_diagonal", "np.place", "np.putmask") and args and isinstance(args[0], Ref):
        it.write(st, args[0], N("call", name, *it.fargs(args, kwargs, st)))
        return NONE_
    if name in ("np.random.shuffle", "random.shuffle") and args and isinstance(args[0], Ref):
        it.write(st, args[0], N("call", name, *F()))
        return NONE_
    if name == "np.random.default_rng":
        seed = fk.get("seed", F()[0] if args else NONE_)
        return it.new_cell(st, N("rng", seed), ty="rng")
    if name == "np.random.RandomState" or name == "random.Random":
        return it.new_cell(st, N("rng", F()[0] if args else NONE_), ty="rng")

    # ---- processes
    if name in ("mp.Pool", "multiprocessing.Pool", "concurrent.futures.ProcessPoolExecutor") or name.endswith(".Pool"):
        return it.new_cell(st, N("pool"), ty="pool")

    # ---- input / output
    if name in IO_CALLS or name.startswith("shutil."):
        node = N("call", name, *normkw(it, name, args, kwargs, POSNAMES, st))
        mode = fk.get("mode", F()[1] if len(args) > 1 else C("r")) if name == "open" else None
        if name == "open":
            node = N("call", "open", F()[0] if args else fk.get("file", NONE_), mode)
            if T.is_str(mode) and "r" in mode.args[1] and "+" not in mode.args[1]:
                return N("file", node)
        st.eff = st.eff + ((st.gate, N("io", node), it.loc(e, fr)),)
        return N("file", node) if name == "open" else N("ret", node)
    if name in ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.isabs", "np.isfinite", "np.isinf", "np.isin", "np.array_equal"):
        return N("call", name, *it.fargs(args, kwargs, st))
    if name == "os.path.join":
        return N("call", name, *[x for a in F() for x in (a.args[1:] if a.op == "call" and a.args[0] == "os.path.join" else (a,))])
    if name == "click.echo":
        return NONE_
    if name in ("pd.DataFrame", "pd.Series") and len(args) >= 1:
        return it.new_cell(st, N("call", name, *normkw(it, name, args, kwargs, POSNAMES, st)), ty="df")
    if name.startswith("functools.partial") and args:
        return N("partial", *it.fargs(args, kwargs, st))
    return N("call", name, *normkw(it, name, args, kwargs, POSNAMES, st))


def list_range(it, r, a, st):
    if isinstance(r, RangeV):
        return r
    items = r
    n = N("list", *[it.freeze(t(st), st) for t in items])
    return RangeV(C(len(items)), lambda iv, s: (items[int(T.num(iv))](s) if T.is_num(iv) and T.num(iv) < len(items) else T.mk_getitem(n, iv)))


def clone(it, v, st):
    if isinstance(v, Ref):
        c = it.content(st, v)
        m = it.meta[v.cell]
        if isinstance(c, ListC):
            return it.new_cell(st, ListC([clone(it, x, st) for x in c.v]), ty="list")
        if isinstance(c, DictC):
            return it.new_cell(st, DictC({k: clone(it, x, st) for k, x in c.d.items()}), ty="dict")
        if isinstance(c, ObjC):
            if c.base is not None and not c.fields:
                r = it.new_cell(st, ObjC(c.cls, it.freeze(v, st), {}), ty="obj", cls=c.cls)
                return r
            return it.new_cell(st, ObjC(c.cls, c.base, {k: clone(it, x, st) for k, x in c.fields.items()}), ty="obj", cls=c.cls)
        return it.new_cell(st, it.freeze(v, st), ty=it.ty(v, st), cls=m.cls)
    if isinstance(v, Tup):
        return Tup([clone(it, x, st) for x in v.v])
    return v


def method_call(it, recv, name, args, kwargs, st, e, fr, stmt=False):
    ty = it.ty(recv, st)
    c = it.content(st, recv) if isinstance(recv, Ref) else None
    fk = {}

    def FK():
        return {k: it.freeze(v, st) for k, v in kwargs.items()}

    # ---- process pools
    if ty == "pool" or (isinstance(c, T.Node) and c.op == "pool"):
        return pool_call(it, name, args, kwargs, st, e, fr)
    # ---- random generators
    rec = it.freeze(recv, st) if not isinstance(recv, RangeV) else it.freeze(recv, st)
    if rec.op == "super":
        return NONE_
    is_rng = rec.op in ("rng", "rngnext") or ty == "rng" or (rec.op == "attr" and rec.args[1] in ("rng", "_rng", "random_state"))
    if is_rng and name in RNG_METHODS and isinstance(recv, Ref):
        kws = normkw(it, "." + name, args, kwargs, METHPOS, st)
        node = N("draw", "." + name, rec, *[k for k in kws if not (k.op == "kw" and k.args[0] == "size" and k.args[1] is NONE_)])
        it.write(st, recv, N("rngnext", node))
        it.meta[recv.cell].ty = "rng"
        if name == "shuffle" and args and isinstance(args[0], Ref):
            it.write(st, args[0], N("shuffled", node))
            return NONE_
        return node
    # ---- concrete and symbolic lists
    if name == "append" and isinstance(recv, Ref) and len(args) == 1:
        if isinstance(c, ListC):
            it.write(st, recv, ListC(c.v + (args[0],)))
            return NONE_
        if not (rec.op == "attr" and ty not in ("list", None)):
            it.write(st, recv, T.mk_lcat(rec, N("list", it.freeze(args[0], st))))
            return NONE_
    if name == "extend" and isinstance(recv, Ref) and len(args) == 1:
        a = args[0]
        ca = it.content(st, a) if isinstance(a, Ref) else None
        if isinstance(c, ListC) and isinstance(ca, ListC):
            it.write(st, recv, ListC(c.v + ca.v))
        else:
            fa = it.freeze(a, st)
            it.write(st, recv, T.mk_lcat(rec, fa))
        return NONE_
    if name == "insert" and isinstance(recv, Ref) and len(args) == 2:
        k = it.freeze(args[0], st)
        if isinstance(c, ListC) and T.is_num(k) and T.num(k) >= 0:
            k = int(T.num(k))
            it.write(st, recv, ListC(c.v[:k] + (args[1],) + c.v[k:]))
            return NONE_
        if (ty == "list" or isinstance(c, ListC)) and T.is_num(k) and T.num(k) == 0:
            it.write(st, recv, T.mk_lcat(N("list", it.freeze(args[1], st)), rec))
            return NONE_
    if name == "clear" and isinstance(recv, Ref) and not args:
        if isinstance(c, ListC):
            it.write(st, recv, ListC(()))
            return NONE_
        if isinstance(c, DictC):
            it.write(st, recv, DictC({}))
            return NONE_
    if name == "reverse" and isinstance(recv, Ref) and isinstance(c, ListC) and not args:
        it.write(st, recv, ListC(tuple(reversed(c.v))))
        return NONE_
    if name == "copy" and not args:
        return clone(it, recv, st) if isinstance(recv, (Ref, Tup)) else rec
    if name == "pop" and isinstance(recv, Ref):
        if isinstance(c, DictC) and args and it.freeze(args[0], st) in c.d:
            k = it.freeze(args[0], st)
            d = dict(c.d)
            v = d.pop(k)
            it.write(st, recv, DictC(d))
            return v
        if isinstance(c, ListC) and c.v:
            k = it.freeze(args[0], st) if args else C(-1)
            if T.is_num(k) and -len(c.v) <= T.num(k) < len(c.v):
                l = list(c.v)
                v = l.pop(int(T.num(k)))
                it.write(st, recv, ListC(l))
                return v
        fa = [it.freeze(a, st) for a in args]
        k = fa[0] if fa else C(-1)
        it.write(st, recv, N("popped", rec, k))
        return T.mk_getitem(rec, k) if len(fa) < 2 else N("call", ".get", rec, *fa)
    if name == "update" and isinstance(recv, Ref) and (ty == "dict" or isinstance(c, DictC)) and len(args) <= 1:
        if args:
            ca = it.content(st, args[0]) if isinstance(args[0], Ref) else None
            if isinstance(c, DictC) and isinstance(ca, DictC):
                d = dict(c.d)
                d.update(ca.d)
                it.write(st, recv, DictC(d))
            elif isinstance(ca, DictC):
                r = rec
                for k, v in ca.d.items():
                    r = T.mk_setitem(r, k, it.freeze(v, st))
                it.write(st, recv, r)
            else:
                it.write(st, recv, N("dictu", rec, it.freeze(args[0], st)))
        else:
            r = rec
            if isinstance(c, DictC):
                d = dict(c.d)
                d.update({C(k): v for k, v in kwargs.items()})
                it.write(st, recv, DictC(d))
            else:
                for k, v in sorted(kwargs.items()):
                    r = T.mk_setitem(r, C(k), it.freeze(v, st))
                it.write(st, recv, r)
        return NONE_
    if name in ("keys",) and not args:
        if isinstance(c, DictC):
            return Tup(list(c.d))
        return N("call", ".keys", rec)
    if name == "values" and not args:
        if isinstance(c, DictC):
            return Tup(list(c.d.values()))
        return N("call", ".values", rec)
    if name == "items" and not args:
        if isinstance(c, DictC):
            return Tup([Tup([k, v]) for k, v in c.d.items()])
        return N("call", ".items", rec)
    if name == "get" and isinstance(c, DictC) and args:
        k = it.freeze(args[0], st)
        if k in c.d:
            return c.d[k]
    # ---- pandas in-place methods
    fk = FK()
    if fk.get("inplace") is TRUE and isinstance(recv, Ref):
        kw = {k: v for k, v in kwargs.items() if k != "inplace"}
        r = method_call(it, recv, name, args, kw, st, e, fr, False)
        it.write(st, recv, it.freeze(r, st))
        return NONE_
    fk.pop("inplace", None)
    kwargs = {k: v for k, v in kwargs.items() if k != "inplace"}
    fa = [it.freeze(a, st) for a in args]
    # ---- arrays
    if name in REDUCERS and not (T.is_strlike(rec)) and ty not in ("dict", "str"):
        extra = [N("kw", k, v) for k, v in sorted(fk.items()) if k not in ("axis", "dtype") and not (k == "keepdims" and v is FALSE) and not (k == "ddof" and v is ZERO)]
        return reduce_call(it, name, rec, axis_of(fk, fa, 0), extra)
    if name == "transpose" and not args:
        return it.new_cell(st, ViewC(recv, "T"), ty="arr") if isinstance(recv, Ref) else T.transpose(rec)
    if name == "dot" and len(fa) == 1:
        return T.mm(rec, fa[0])
    if name in ("to_numpy",) and not fa and not fk:
        if isinstance(recv, Ref):
            return it.new_cell(st, ViewC(recv, "attr", "values"), ty="arr")
        return T.mk_attr(rec, "values")
    if name == "drop" and not fa and "columns" in fk and set(fk) == {"columns"}:
        args, kwargs = [], {"labels": kwargs["columns"], "axis": ONE}
    if name == "drop" and not fa and set(fk) == {"index"}:
        args, kwargs = [], {"labels": kwargs["index"], "axis": ZERO}
    if name in ("isna", "isnull"):
        return N("call", "np.isnan", rec)
    if name in ("notna", "notnull"):
        return T.mk_not(N("call", "np.isnan", rec))
    if name == "flatten" or name == "ravel":
        if isinstance(recv, Ref) and name == "ravel":
            return it.new_cell(st, ViewC(recv, "call", (".flatten",) + tuple(fa)), ty="arr")
        return it.new_cell(st, N("call", ".flatten", rec, *fa), ty="arr")
    if name == "reshape" and not kwargs:
        dims = [it.freeze(a, st) for a in args]
        dims = list(dims[0].args) if len(dims) == 1 and dims[0].op == "tuple" else dims
        if len(dims) == 2 and dims[1] is ONE and dims[0] is T.mk_len(rec):
            return T.mk_getitem(rec, N("tuple", N("slice", NONE_, NONE_, NONE_), NONE_))
    if name == "reshape":
        if len(fa) == 1 and fa[0].op == "tuple":
            fa = list(fa[0].args)
        if isinstance(recv, Ref):
            return it.new_cell(st, ViewC(recv, "call", (".reshape", N("tuple", *fa))), ty="arr")
        return N("call", ".reshape", rec, N("tuple", *fa))
    if name == "astype" and len(fa) + len(fk) >= 1:
        dt = fk.get("dtype", fa[0] if fa else NONE_)
        if fk.get("copy", fa[1] if len(fa) > 1 else None) is FALSE and isinstance(recv, Ref):
            # the same array when the type already fits: a later change in place may reach the receiver
            return it.new_cell(st, ViewC(recv, "call", (".astype", N("kw", "dtype", dt))), ty=ty or "arr")
        return it.new_cell(st, N("call", ".astype", rec, N("kw", "dtype", dt)), ty=ty or "arr")
    if name == "fill" and isinstance(recv, Ref) and len(fa) == 1:
        it.write(st, recv, N("call", "np.full", N("attr", rec, "shape"), fa[0]))
        return NONE_
    if name in ("add", "sub", "mul", "div", "divide", "multiply", "subtract", "truediv") and len(fa) == 1 and not fk and ty in ("df", "arr"):
        return it.binop({"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult"}.get(name, "Div"), rec, fa[0], st)
    # ---- strings
    if name == "format" and T.is_str(rec):
        parts = fmt_parts(rec.args[1], fa, fk)
        if parts is not None:
            return T.mk_fstr(parts)
    if name == "join" and (T.is_strlike(rec)) and len(fa) == 1 and fa[0].op == "list":
        parts = []
        for i, a in enumerate(fa[0].args):
            if i:
                parts.append(rec)
            parts.append(a)
        return T.mk_fstr(parts)
    # ---- in-place mutators of unknown containers
    if name in MUTATORS and isinstance(recv, Ref) and ty not in ("df", "str") and not (name in ("update", "add") and ty == "arr"):
        node = N("call", "." + name, rec, *it.fargs(args, kwargs, st))
        if name == "sort" and (ty == "list" or isinstance(c, ListC)):
            node = T.mk_sorted(rec, [N("kw", k, v) for k, v in sorted(fk.items()) if not (k == "reverse" and v is FALSE)])
        elif name == "setdefault":
            it.write(st, recv, N("mutated", node))
            return N("ret", node)
        it.write(st, recv, node if name == "sort" else N("mutated", node))
        return NONE_
    # ---- output
    if name in IO_METHODS and name != "show":
        node = N("call", "." + name, rec, *normkw(it, "." + name, args, kwargs, METHPOS, st))
        st.eff = st.eff + ((st.gate, N("io", node), it.loc(e, fr)),)
        return N("ret", node)
    if name == "show":
        st.eff = st.eff + ((st.gate, N("show", rec), it.loc(e, fr)),)
        return NONE_
    # ---- methods of the library on objects of unknown class
    cands = it.tree.method_names.get(name)
    node = N("call", "." + name, rec, *normkw(it, "." + name, args, kwargs, METHPOS, st))
    if cands and stmt and name not in ("update", "copy", "get"):
        st.eff = st.eff + ((st.gate, N("io", node), it.loc(e, fr)),)
    if cands and name in it.mutating_methods() and isinstance(recv, Ref):
        it.write(st, recv, N("after", node))
        return N("ret", node)
    if stmt and isinstance(recv, Ref) and ty not in ("str", "num"):
        if isinstance(c, ObjC):
            it.write(st, recv, ObjC(c.cls, N("after", node), {}))
        else:
            it.write(st, recv, N("after", node))
        return NONE_
    return node


def fmt_parts(s, fa, fk):
    import string
    out = []
    try:
        i = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(C(lit))
            if field is None:
                continue
            if field == "":
                v = fa[i]
                i += 1
            elif field.isdigit():
                v = fa[int(field)]
            else:
                v = fk[field]
            out.append(v if not spec else N("fmt", v, C(spec)))
        return out
    except (ValueError, IndexError, KeyError):
        return None


def pool_call(it, name, args, kwargs, st, e, fr):
    if name in ("close", "join", "terminate", "__enter__", "shutdown"):
        return NONE_
    if name in ("starmap", "map", "imap", "imap_unordered", "starmap_async", "map_async", "apply_async", "apply", "submit"):
        func = args[0] if args else kwargs.get("func")
        if name in ("apply_async", "apply", "submit"):
            if name == "submit":
                a = args[1:]
            else:
                q = args[1] if len(args) > 1 else kwargs.get("args")
                if q is None:
                    a = []
                elif isinstance(q, Tup):
                    a = q.v
                elif isinstance(q, Ref) and isinstance(it.content(st, q), ListC):
                    a = it.content(st, q).v
                else:
                    f = it.freeze(q, st)
                    np_ = nparams(func)
                    if f.op in ("tuple", "list"):
                        a = list(f.args)
                    elif np_ is not None:
                        a = [T.mk_getitem(f, C(i)) for i in range(np_)]
                    else:
                        a = [N("star", f)]
            s2 = st.copy()
            kwds = kwargs.get("kwds") or (args[2] if len(args) > 2 and name != "submit" else None)
            kd = {}
            if isinstance(kwds, Ref) and isinstance(it.content(st, kwds), DictC):
                kd = {k.args[1]: x for k, x in it.content(st, kwds).d.items() if T.is_str(k)}
            if name == "submit":
                kd = dict(kwargs)
            v = it.apply(func, list(a), kd, s2, e, fr)
            fz = it.freeze(v, s2)
            cb = kwargs.get("callback")
            if cb is not None and name == "apply_async" and cb is not NONE_:
                it.apply(cb, [it.box(fz, st)], {}, st, e, fr)
            return N("async", fz) if name != "apply" else fz
        seq = args[1] if len(args) > 1 else kwargs.get("iterable")
        r = list_range(it, it.iterate(seq, st), seq, st)
        iv = T.fresh("iv", "X%d" % it.loopdepth)
        s2 = st.copy()
        el = r.elem(iv, s2)
        if name.startswith("starmap"):
            if isinstance(el, Tup):
                a = el.v
            else:
                f = it.freeze(el, s2)
                if f.op == "tuple":
                    a = list(f.args)
                else:
                    np_ = nparams(func)
                    a = [T.mk_getitem(f, C(i)) for i in range(np_)] if np_ is not None else [N("star", f)]
        else:
            a = [el]
        v = it.apply(func, list(a), {}, s2, e, fr)
        m = T.mk_map(r.n, iv, it.freeze(v, s2))
        if name == "imap_unordered":
            m = N("unordered", m)
        if name.endswith("_async"):
            return N("async", m)
        return it.new_cell(st, m, ty="list")
    return N("call", "pool." + name, *it.fargs(args, kwargs, st))


def nparams(f):
    if isinstance(f, FuncV):
        a = f.node.args
        n = len(a.posonlyargs + a.args)
        return n - (1 if f.selfv is not None else 0)
    return None
