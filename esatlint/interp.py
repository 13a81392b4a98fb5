"""Abstract interpreter: turns a function of the analysed tree into a gated value
graph (terms) of what it returns, what it changes and what it does outside.

No code of the tree is executed; every branch is joined (phi = ite term), every
loop becomes one fixed-point term, calls inside the library are inlined or kept
as calls of the named entry point."""
import ast
import hashlib
import re
from fractions import Fraction
from . import terms as T
from .terms import N, C, NONE_, TRUE, FALSE, ZERO, ONE
from .loader import canon_ext

INF = N("inf")
UNDEF = N("undef")


class Unsupported(Exception):
    pass


class Ref:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cell == self.cell

    def __hash__(self):
        return hash(("ref", self.cell))

    def __repr__(self):
        return "&%s" % self.cell


class Tup:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)


class FuncV:
    __slots__ = ("node", "module", "cls", "selfv", "frame", "defaults")

    def __init__(self, node, module, cls=None, selfv=None, frame=None):
        self.node, self.module, self.cls, self.selfv, self.frame = node, module, cls, selfv, frame
        self.defaults = None

    @property
    def qual(self):
        n = getattr(self.node, "name", "<lambda>")
        return (self.cls.name + "." + n) if self.cls else n


class ClassV:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class ModV:
    __slots__ = ("module",)

    def __init__(self, m):
        self.module = m


class Ext:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n


class MethV:
    """method of a value with no repository class"""
    __slots__ = ("recv", "name", "recv_ast")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class RangeV:
    """lazily described iterable: n items, elem(iv) -> V"""
    __slots__ = ("n", "elem", "tag")

    def __init__(self, n, elem, tag=None):
        self.n, self.elem, self.tag = n, elem, tag


class ListC:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)


class DictC:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class ObjC:
    __slots__ = ("cls", "base", "fields")

    def __init__(self, cls, base, fields):
        self.cls, self.base, self.fields = cls, base, fields


class ViewC:
    __slots__ = ("ref", "op", "arg")

    def __init__(self, ref, op, arg=None):
        self.ref, self.op, self.arg = ref, op, arg


class Meta:
    __slots__ = ("ty", "cls", "origin", "parent", "init", "alts", "name")

    def __init__(self, ty=None, cls=None, origin=None, parent=None, init=None, alts=None):
        self.ty, self.cls, self.origin, self.parent, self.init, self.alts = ty, cls, origin, parent, init, alts


class State:
    __slots__ = ("frames", "store", "gate", "eff")

    def __init__(self):
        self.frames, self.store, self.gate, self.eff = {}, {}, TRUE, ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.store = dict(self.store)
        s.gate = self.gate
        s.eff = self.eff
        return s

    def assign(self, other):
        self.frames, self.store, self.gate, self.eff = other.frames, other.store, other.gate, other.eff


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse",
            "fill", "put", "popitem", "appendleft"}
IGNORED_CALLS = {"print", "plt.show", "gc.collect", "warnings.filterwarnings", "warnings.simplefilter", "clear_screen",
                 "esat_rust.clear_screen", "warnings.warn", "plt.close", "plt.figure", "logging.basicConfig", "logging.getLogger", "time.sleep"}
IO_CALLS = {"open", "os.mkdir", "os.makedirs", "os.remove", "shutil.rmtree", "os.rename", "pickle.dump", "json.dump", "np.savetxt",
            "np.save", "np.savez", "sys.exit", "exit", "quit", "os._exit", "json.dumps_"}
IO_METHODS = {"to_csv", "to_excel", "to_json", "to_pickle", "write", "writelines", "write_html", "write_image", "savefig", "mkdir", "unlink", "touch", "show", "write_text", "to_parquet"}
REPORTS = re.compile(r"^esat\.cli\.|[.:](summary|details|display_results|list_\w+|evaluate_\w+|print_\w+|describe\w*|show_\w+)$")
LOG_NAMES = {"logger", "logging", "log", "click.echo", "tqdm.write"}

REDUCERS = {"sum", "mean", "std", "var", "min", "max", "argmin", "argmax", "any", "all", "median", "prod", "amin", "amax",
            "nanmin", "nanmax", "nansum", "nanmean", "nanstd", "nanmedian", "quantile_", "idxmin", "idxmax", "nunique_"}
RED_ALIAS = {"amin": "min", "amax": "max"}

FRESH_IDENT = {"copy", "deepcopy"}


class Interp:
    def __init__(self, tree, boundary=(), class_boundary=(), max_depth=9, max_steps=400000):
        self.tree = tree
        self.boundary = set(boundary)
        self.class_boundary = set(class_boundary)
        self.max_depth = max_depth
        self.meta = {}
        self.ncell = 0
        self.lazy = {}
        self.owner = {}
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.callstack = []
        self.nframe = 0
        self.inlined = set()
        self.pending = []
        self.comp_dirty = False
        self.opaque_calls = set()
        self.glob_cache = {}
        self.ref_sigs = None       # signatures of the reference tree: parameters unknown there are dropped at default
        self.unmodelled = []
        self.leafty = {}
        self.reports = None
        self.writes = []           # (origin cell, file, line) of every store, for reports
        self.curfile = None
        self.curline = 0
        self.fieldcls = {}
        self.contcls = {}
        self.containers = set()
        self.exc_ord = {}
        self.loopdepth = 0

    # ------------------------------------------------------------ cells
    def new_cell(self, st, content, ty=None, cls=None, origin=None, parent=None, init=None, alts=None):
        self.ncell += 1
        c = self.ncell
        self.meta[c] = Meta(ty, cls, origin, parent, init, alts)
        if content is not None:
            st.store[c] = content
        return Ref(c)

    def content(self, st, ref):
        c = st.store.get(ref.cell)
        if c is None:
            m = self.meta[ref.cell]
            c = m.init
        return c

    def freeze(self, v, st, seen=()):
        """value -> term"""
        if isinstance(v, T.Node):
            return v
        if isinstance(v, Tup):
            return N("tuple", *[self.freeze(x, st, seen) for x in v.v])
        if isinstance(v, Ref):
            if v.cell in seen:
                return N("cyc")
            c = self.content(st, v)
            if isinstance(c, T.Node):
                return c
            s2 = seen + (v.cell,)
            if isinstance(c, ListC):
                return N("list", *[self.freeze(x, st, s2) for x in c.v])
            if isinstance(c, DictC):
                a = []
                for k, x in c.d.items():
                    a += [k, self.freeze(x, st, s2)]
                return canon_dict(a)
            if isinstance(c, ViewC):
                return self.view_value(c, st, s2)
            if isinstance(c, ObjC):
                if c.base is None:
                    fs = [N("kw", k, self.freeze(x, st, s2)) for k, x in sorted(c.fields.items())]
                    return N("rec", c.cls.name if c.cls else "?", *fs)
                b = c.base
                for k, x in sorted(c.fields.items()):
                    b = T.mk_setattr(b, k, self.freeze(x, st, s2))
                return b
            raise Unsupported("content %r" % (c,))
        if isinstance(v, FuncV):
            if v.selfv is not None:
                return N("func", v.qual, self.freeze(v.selfv, st, seen) if not seen else N("self_"))
            if isinstance(v.node, ast.Lambda) or v.frame is not None:
                return self.freeze_lambda(v, st)
            return N("func", v.qual)
        if isinstance(v, ClassV):
            return N("class", v.info.name)
        if isinstance(v, ModV):
            return N("mod", v.module.name)
        if isinstance(v, Ext):
            return N("ext", v.name)
        if isinstance(v, MethV):
            return N("meth", self.freeze(v.recv, st, seen), v.name)
        if isinstance(v, RangeV):
            iv = T.fresh("iv", "R%d" % self.loopdepth)
            return T.mk_map(v.n, iv, self.freeze(v.elem(iv, st), st))
        raise Unsupported("freeze %r" % (v,))

    def freeze_lambda(self, v, st):
        args = v.node.args
        names = [a.arg for a in args.args]
        if len(names) > 4 or self.depth > self.max_depth:
            return N("closure", getattr(v.node, "name", "lambda"))
        vs = tuple(T.fresh("iv", "lam%d_%d" % (self.loopdepth, i)) for i, _ in enumerate(names))
        nd = len(args.defaults)
        s2 = st.copy()
        try:
            r = self.call_func(v, list(vs[:len(names)]), {}, s2, inline=True)
            return N("lam", T.bind(vs, self.freeze(r, s2)))
        except Unsupported:
            return N("closure", getattr(v.node, "name", "lambda"))

    def view_value(self, c, st, seen=()):
        b = self.freeze(c.ref, st, seen)
        if c.op == "T":
            return T.transpose(b)
        if c.op == "slice":
            return T.mk_getitem(b, c.arg)
        if c.op == "same":
            return b
        if c.op == "call":
            return N("call", c.arg[0], b, *c.arg[1:])
        if c.op == "attr":
            return T.mk_attr(b, c.arg)
        raise Unsupported(c.op)

    def write(self, st, ref, new):
        """replace the content of the object behind ref"""
        m = self.meta[ref.cell]
        old = self.content(st, ref)
        self.writes.append((ref.cell, self.curfile, self.curline))
        if isinstance(old, ViewC):
            base = self.freeze(old.ref, st)
            if not isinstance(new, T.Node):
                new = self.freeze_content(new, st)
            if old.op == "T":
                self.write(st, old.ref, T.transpose(new))
            elif old.op == "slice":
                self.write(st, old.ref, T.mk_setitem(base, old.arg, new))
            elif old.op == "same":
                self.write(st, old.ref, new)
            elif old.op == "attr":
                self.write(st, old.ref, T.mk_setattr(base, old.arg, new))
            else:
                self.write(st, old.ref, N("unview", N("str_", old.arg[0]), base, new))
            return
        st.store[ref.cell] = new
        if m.alts:
            for cond, r in m.alts:
                oldc = self.freeze(r, st)
                newc = new if isinstance(new, T.Node) else self.freeze_content(new, st)
                self.write(st, r, T.mk_ite(cond, newc, oldc))
        if m.parent is not None:
            pref, kind, key = m.parent
            pc = self.content(st, pref)
            newc = new if isinstance(new, T.Node) else self.freeze_content(new, st)
            if kind == "item":
                if isinstance(pc, (ListC, DictC)):
                    if isinstance(pc, DictC) and key in pc.d:
                        d = dict(pc.d)
                        d[key] = newc
                        self.write(st, pref, DictC(d))
                        return
                    pc = self.freeze(pref, st)
                elif not isinstance(pc, T.Node):
                    pc = self.freeze(pref, st)
                self.write(st, pref, T.mk_setitem(pc, key, newc))
            elif kind == "attr":
                pc = self.freeze(pref, st)
                self.write(st, pref, T.mk_setattr(pc, key, newc))

    def freeze_content(self, c, st):
        if isinstance(c, T.Node):
            return c
        r = self.new_cell(st, c)
        n = self.freeze(r, st)
        st.store.pop(r.cell, None)
        return n

    def ty(self, v, st):
        if isinstance(v, Ref):
            m = self.meta[v.cell]
            if m.ty:
                return m.ty
            c = self.content(st, v)
            if isinstance(c, ListC):
                return "list"
            if isinstance(c, DictC):
                return "dict"
            if isinstance(c, ObjC):
                return "obj"
            if isinstance(c, ViewC):
                return self.ty(c.ref, st) if c.op != "attr" else None
            return self.nty(c)
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, T.Node):
            return self.nty(v)
        return "func"

    def nty(self, n, depth=0):
        o = n.op
        if o == "c":
            return {"num": "num", "str": "str", "bool": "num", "none": "none"}.get(n.args[0], "num")
        if o in ("in", "attr", "st"):
            return self.leafty.get(n)
        if T.is_listlike(n):
            return "list"
        if T.is_strlike(n):
            return "str"
        if o == "dict":
            return "dict"
        if o == "scatter":
            return (self.nty(n.args[0], depth + 1) if depth < 6 else None) or "dict"
        if o in ("len", "iv", "bv", "dim", "argmin", "argmax"):
            return "num"
        if o == "reduce" and n.args[2] is NONE_:
            return "num"
        if o == "red":
            return "num"
        if o in ("mm", "T"):
            return "arr"
        if o in ("add", "mul", "pow", "abs", "ite", "maxn", "minn", "setitem"):
            if depth > 6:
                return None
            ts = [self.nty(a, depth + 1) for a in n.args if isinstance(a, T.Node)]
            if o == "ite":
                ts = [t for t, a in zip(ts[1:], n.args[1:]) if a.op != "undef" and a is not NONE_]
                return ts[0] if ts and all(t == ts[0] for t in ts) else ("arr" if "arr" in ts else ("df" if "df" in ts else None))
            if o == "setitem":
                return ts[0]
            if "arr" in ts:
                return "arr"
            if "df" in ts:
                return "df"
            if all(t == "num" for t in ts):
                return "num"
            return None
        if o == "call":
            f = n.args[0]
            if f.startswith("np.zeros") or f.startswith("np.ones") or f in ("np.array", "np.full", "np.empty", "np.diag", "np.eye", ".astype", "np.concatenate", "np.asarray", "np.arange", ".to_numpy", ".reshape", ".flatten"):
                return "arr"
            if f in ("pd.DataFrame", "pd.concat", ".reset_index", ".set_index", ".rename"):
                return "df"
            if f in ("int", "float", "round"):
                return "num"
        if o in ("zeros", "astype"):
            return "arr"
        return None

    def box(self, v, st, ty=None):
        """bind a computed (fresh) value to an object identity"""
        if isinstance(v, T.Node):
            if v.op in ("c", "iv", "bv", "len", "dim", "fstr", "func", "class", "ext", "closure", "mod", "tuple") or T.is_bool(v):
                return v
            t = ty or self.nty(v)
            if t in ("num", "str", "none"):
                return v
            return self.new_cell(st, v, ty=t)
        if isinstance(v, RangeV):
            return self.new_cell(st, self.freeze(v, st), ty="list")
        return v

    # ------------------------------------------------------------ merging
    def merge_value(self, c, a, b, sa, sb, out):
        if a is b or (isinstance(a, Ref) and a == b):
            return a
        if a is None:
            a = UNDEF
        if b is None:
            b = UNDEF
        if isinstance(a, T.Node) and isinstance(b, T.Node):
            return T.mk_ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
            return Tup([self.merge_value(c, x, y, sa, sb, out) for x, y in zip(a.v, b.v)])
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.selfv == b.selfv:
            return a
        if type(a) is type(b) and isinstance(a, (ClassV, ModV, Ext)):
            x = a.info if isinstance(a, ClassV) else (a.module if isinstance(a, ModV) else a.name)
            y = b.info if isinstance(b, ClassV) else (b.module if isinstance(b, ModV) else b.name)
            if x == y:
                return a
        fa, fb = self.freeze(a, sa), self.freeze(b, sb)
        n = T.mk_ite(c, fa, fb)
        cls = None
        ty = None
        alts = []
        for v, cc in ((a, c), (b, T.mk_not(c))):
            if isinstance(v, Ref):
                m = self.meta[v.cell]
                cls = cls or m.cls
                ty = ty or m.ty
                alts.append((cc, v))
        if UNDEF in (fa, fb):
            alts = []
        if cls is not None:
            r = self.new_cell(out, ObjC(cls, n, {}), ty="obj", cls=cls, alts=alts or None)
            return r
        if not alts:
            return self.box(n, out)
        return self.new_cell(out, n, ty=ty, alts=alts or None)

    def merge_content(self, c, a, b, sa, sb, out, cell):
        if a is b:
            return a
        if isinstance(a, T.Node) and isinstance(b, T.Node):
            return T.mk_ite(c, a, b)
        if isinstance(a, ListC) and isinstance(b, ListC) and len(a.v) == len(b.v):
            return ListC([self.merge_value(c, x, y, sa, sb, out) for x, y in zip(a.v, b.v)])
        if isinstance(a, DictC) and isinstance(b, DictC) and list(a.d) == list(b.d):
            return DictC({k: self.merge_value(c, a.d[k], b.d[k], sa, sb, out) for k in a.d})
        if isinstance(a, ObjC) and isinstance(b, ObjC):
            if a.base is b.base:
                fields = {}
                for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                    x, y = a.fields.get(k), b.fields.get(k)
                    if x is None:
                        x = self.lazy_field(cell, a, k) if a.base is not None else UNDEF
                    if y is None:
                        y = self.lazy_field(cell, b, k) if b.base is not None else UNDEF
                    fields[k] = self.merge_value(c, x, y, sa, sb, out)
                return ObjC(a.cls or b.cls, a.base, fields)
            r = Ref(cell)
            fa, fb = self.freeze(r, sa), self.freeze(r, sb)
            return ObjC(a.cls or b.cls, T.mk_ite(c, fa, fb), {})
        r = Ref(cell)
        fa, fb = self.freeze(r, sa), self.freeze(r, sb)
        n = T.mk_ite(c, fa, fb)
        if isinstance(a, ObjC) or isinstance(b, ObjC):
            return ObjC((a.cls if isinstance(a, ObjC) else b.cls), n, {})
        return n

    def merge_states(self, c, sa, sb):
        """state after a branch on c"""
        if sa is None:
            return sb
        if sb is None:
            return sa
        if c is TRUE:
            return sa
        if c is FALSE:
            return sb
        out = State()
        out.store = dict(sa.store)
        out.gate = T.mk_or(sa.gate, sb.gate)
        # contents
        for k in set(sa.store) | set(sb.store):
            x, y = sa.store.get(k), sb.store.get(k)
            if x is y:
                continue
            if x is None:
                x = self.meta[k].init
                if x is None:
                    out.store[k] = y
                    continue
            if y is None:
                y = self.meta[k].init
                if y is None:
                    out.store[k] = x
                    continue
            out.store[k] = self.merge_content(c, x, y, sa, sb, out, k)
        for f in list(sa.frames) + [f for f in sb.frames if f not in sa.frames]:
            ea, eb = sa.frames.get(f), sb.frames.get(f)
            if ea is None or eb is None:
                out.frames[f] = dict(ea if ea is not None else eb)
                continue
            env = {}
            for n in list(ea) + [n for n in eb if n not in ea]:
                env[n] = self.merge_value(c, ea.get(n), eb.get(n), sa, sb, out)
            out.frames[f] = env
        # effects: common prefix then both
        i = 0
        while i < len(sa.eff) and i < len(sb.eff) and sa.eff[i] is sb.eff[i]:
            i += 1
        out.eff = sa.eff + sb.eff[i:]
        return out

    # ------------------------------------------------------------ names
    def lookup(self, name, fr, st):
        f = fr
        while f is not None:
            env = st.frames.get(f.id)
            if env is not None and name in env:
                return env[name]
            f = f.parent
        return self.module_name(name, fr.module, st)

    def module_name(self, name, module, st, seen=0):
        if name in module.classes:
            return ClassV(module.classes[name])
        if name in module.functions:
            return FuncV(module.functions[name], module)
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                m = self.tree.resolve_module(imp[1])
                return ModV(m) if m is not None else Ext(canon_ext(imp[1]))
            _, mod, attr = imp
            m = self.tree.resolve_module(mod)
            if m is not None:
                if attr in m.classes or attr in m.functions or attr in m.globals or attr in m.imports:
                    return self.module_name(attr, m, st, seen + 1) if seen < 5 else Ext(mod + "." + attr)
                sm = self.tree.resolve_module(mod + "." + attr)
                if sm is not None:
                    return ModV(sm)
                return Ext(mod + "." + attr)
            sm = self.tree.resolve_module(mod + "." + attr)
            if sm is not None:
                return ModV(sm)
            if (mod, attr) in (("copy", "copy"), ("copy", "deepcopy")):
                return Ext("copy." + attr)
            return Ext(canon_ext(mod + "." + attr))
        if name in module.globals:
            k = (module.name, name)
            if k not in self.glob_cache:
                self.glob_cache[k] = N("global", module.name + "." + name)
                if name == "logger":
                    self.glob_cache[k] = Ext("logger")
                else:
                    fr = Frame(self, module, None)
                    s0 = State()
                    s0.frames[fr.id] = {}
                    try:
                        v = self.eval(module.globals[name], fr, s0)
                        self.glob_cache[k] = v if isinstance(v, (Ext, FuncV, ClassV, ModV)) else self.freeze(v, s0)
                    except Unsupported:
                        pass
            v = self.glob_cache[k]
            return v
        return Ext(name)

    # ------------------------------------------------------------ statements
    def merge_exits(self, c, o1, o2):
        out = {}
        for k in set(o1) | set(o2):
            a, b = o1.get(k), o2.get(k)
            if a is None:
                out[k] = (T.mk_and(T.mk_not(c), b[0]), b[1], b[2])
            elif b is None:
                out[k] = (T.mk_and(c, a[0]), a[1], a[2])
            else:
                s = self.merge_states(c, a[1], b[1])
                v = None
                if a[2] is not None or b[2] is not None:
                    v = self.merge_value(c, a[2], b[2], a[1], b[1], s)
                out[k] = (T.mk_ite(c, a[0], b[0]), s, v)
        return out

    def exec_block(self, stmts, st, fr):
        exits = {}
        rel = TRUE
        cur = st
        for s in stmts:
            o = self.exec_stmt(s, cur, fr)
            for k, (r, s2, v) in o.items():
                if k == "fall":
                    continue
                r = T.mk_and(rel, r)
                if r is FALSE:
                    continue
                if k in exits:
                    r0, s0, v0 = exits[k]
                    ns = self.merge_states(r0, s0, s2)
                    nv = None
                    if v0 is not None or v is not None:
                        nv = self.merge_value(r0, v0, v, s0, s2, ns)
                    exits[k] = (T.mk_or(r0, r), ns, nv)
                else:
                    exits[k] = (r, s2, v)
            f = o.get("fall")
            if f is None or f[0] is FALSE:
                cur = None
                break
            rel = T.mk_and(rel, f[0])
            cur = f[1]
            if f[0] is not TRUE:
                cur.gate = T.mk_and(cur.gate, f[0])
        if cur is not None:
            exits["fall"] = (rel, cur, None)
        return exits

    def fall(self, st):
        return {"fall": (TRUE, st, None)}

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget")
        if hasattr(s, "lineno"):
            self.curline = s.lineno
            self.curfile = fr.module.path
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        held, self.pending = self.pending, []
        gate = st.gate
        o = m(s, st, fr)
        raised, self.pending = self.pending, held
        for c, g, xs in reversed(raised):
            # a function called by this statement raises under c
            if g is not gate:
                c = T.mk_and(g, c)
            if c is TRUE:
                o = {"exc": (TRUE, xs, None)}
            elif c is not FALSE:
                o = self.merge_exits(c, {"exc": (TRUE, xs, None)}, o)
        return o

    def x_Pass(self, s, st, fr):
        return self.fall(st)

    def x_Import(self, s, st, fr):
        for a in s.names:
            m = self.tree.resolve_module(a.name)
            st.frames[fr.id][(a.asname or a.name.split(".")[0])] = ModV(m) if m is not None else Ext(canon_ext(a.name if a.asname else a.name.split(".")[0]))
        return self.fall(st)

    def x_ImportFrom(self, s, st, fr):
        for a in s.names:
            m = self.tree.resolve_module(s.module or "")
            if m is not None:
                v = self.module_name(a.name, m, st)
            else:
                v = Ext(canon_ext((s.module or "") + "." + a.name))
            st.frames[fr.id][a.asname or a.name] = v
        return self.fall(st)

    def x_Global(self, s, st, fr):
        return self.fall(st)

    def x_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return self.fall(st)

    def x_Assert(self, s, st, fr):
        c = self.truth(self.fz(s.test, fr, st))
        if c is TRUE:
            return self.fall(st)
        st.eff = st.eff + ((T.mk_and(st.gate, T.mk_not(c)), N("raise", "AssertionError"), self.loc(s, fr)),)
        return self.fall(st)

    def loc(self, s, fr):
        return (fr.module.path, getattr(s, "lineno", 0))

    def x_FunctionDef(self, s, st, fr):
        st.frames[fr.id][s.name] = FuncV(s, fr.module, None, None, fr)
        return self.fall(st)

    def x_ClassDef(self, s, st, fr):
        return self.fall(st)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fr.id].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, fr, st)
                k = self.index(t.slice, fr, st)
                self.method_call(b, "pop", [k], {}, st, s, fr)
        return self.fall(st)

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return self.fall(st)
        v = self.eval(s.value, fr, st, stmt=True)
        return self.fall(st)

    def x_Return(self, s, st, fr):
        v = NONE_ if s.value is None else self.eval(s.value, fr, st)
        return {"ret": (TRUE, st, v)}

    def x_Break(self, s, st, fr):
        return {"brk": (TRUE, st, None)}

    def x_Continue(self, s, st, fr):
        return {"cont": (TRUE, st, None)}

    def x_Raise(self, s, st, fr):
        nm = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(e)
        st.eff = st.eff + ((st.gate, N("raise", nm), self.loc(s, fr)),)
        return {"exc": (TRUE, st, N("exc_", nm))}

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, fr, st)
        v = self.box(v, st)
        for t in s.targets:
            self.store(t, v, st, fr)
        return self.fall(st)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.box(self.eval(s.value, fr, st), st)
            self.store(s.target, v, st, fr)
        return self.fall(st)

    def x_AugAssign(self, s, st, fr):
        load = copy_load(s.target)
        cur = self.eval(load, fr, st)
        rhs = self.eval(s.value, fr, st)
        a, b = self.freeze(cur, st), self.freeze(rhs, st)
        new = self.binop(type(s.op).__name__, a, b, st)
        ty = self.ty(cur, st)
        if isinstance(cur, Ref) and ty in ("arr", "df", "list") and not (ty == "list" and not isinstance(s.op, ast.Add)):
            if ty == "list" and isinstance(self.content(st, cur), ListC) and isinstance(rhs, Ref) and isinstance(self.content(st, rhs), ListC):
                self.write(st, cur, ListC(self.content(st, cur).v + self.content(st, rhs).v))
            else:
                self.write(st, cur, new)
            if isinstance(s.target, (ast.Name, ast.Attribute)):
                return self.fall(st)
            return self.fall(st) if self.meta[cur.cell].parent is not None else (self.store(s.target, self.box(new, st), st, fr), self.fall(st))[1]
        self.store(s.target, self.box(new, st), st, fr)
        return self.fall(st)

    def x_If(self, s, st, fr):
        c = self.truth(self.fz(s.test, fr, st))
        c = self.under_gate(c, st)
        if c is TRUE:
            return self.exec_block(s.body, st, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.gate = T.mk_and(st.gate, c)
        s2.gate = T.mk_and(st.gate, T.mk_not(c))
        o1 = self.exec_block(s.body, s1, fr)
        o2 = self.exec_block(s.orelse, s2, fr)
        return self.merge_exits(c, o1, o2)

    def under_gate(self, c, st):
        """simplify a condition by the path condition (conjunctive part)"""
        g = st.gate
        n = 0
        while g.op == "ite" and n < 12 and T.is_bool(g):
            n += 1
            if g.args[2] is FALSE:
                c = T.restrict(c, g.args[0], True)
                g = g.args[1]
            elif g.args[1] is FALSE:
                c = T.restrict(c, g.args[0], False)
                g = g.args[2]
            else:
                return c
        if g.op == "not":
            return T.restrict(c, g.args[0], False)
        if g.op in T.ATOM_OPS or g.op in ("reduce", "red", "call"):
            return T.restrict(c, g, True)
        return c

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr, st)
            if it.optional_vars is not None:
                self.store(it.optional_vars, self.box(v, st), st, fr)
        return self.exec_block(s.body, st, fr)

    def x_Try(self, s, st, fr):
        pre = st.copy()
        neff = len(st.eff)
        o = self.exec_block(s.body, st, fr)
        ordn = 0
        if s.handlers:
            ordn = self.exc_ord.setdefault(id(s), len(self.exc_ord))
        cond = N("exc", "%d" % ordn)
        if len(s.handlers) == 1 and s.handlers[0].type is not None:
            h = s.handlers[0].type
            names = sorted({(x.attr if isinstance(x, ast.Attribute) else ast.unparse(x)) for x in (h.elts if isinstance(h, ast.Tuple) else [h])})
            if not {"Exception", "BaseException"} & set(names):
                cond = N("exc", "%d#%s" % (ordn, ",".join(names)))
        outs = o
        if s.handlers:
            # handler entered when the body raises; state approximated by the state before the body
            h_out = None
            for i, h in enumerate(s.handlers):
                hs = pre.copy()
                hc = cond if len(s.handlers) == 1 else N("exc", "%d#%s" % (ordn, ast.unparse(h.type) if h.type is not None else ""))
                hs.gate = T.mk_and(pre.gate, hc)
                if h.name:
                    hs.frames[fr.id][h.name] = N("excval", hc)
                ho = self.exec_block(h.body, hs, fr)
                exc = o.pop("exc", None) if i == 0 else None
                outs = self.merge_exits(hc, ho, outs)
        if s.orelse and "fall" in outs:
            r, s2, _ = outs.pop("fall")
            o2 = self.exec_block(s.orelse, s2, fr)
            for k, (r2, s3, v) in o2.items():
                if k in outs:
                    r0, s0, v0 = outs[k]
                    outs[k] = (T.mk_or(r0, T.mk_and(r, r2)), self.merge_states(r0, s0, s3), v0 if v0 is not None else v)
                else:
                    outs[k] = (T.mk_and(r, r2), s3, v)
        if s.finalbody:
            res = {}
            for k, (r, s2, v) in outs.items():
                fo = self.exec_block(s.finalbody, s2, fr)
                for k2, (r2, s3, v2) in fo.items():
                    kk = k if k2 == "fall" else k2
                    res[kk] = (T.mk_and(r, r2), s3, v if k2 == "fall" else v2)
            outs = res
        return outs

    # ------------------------------------------------------------ loops
    def x_For(self, s, st, fr):
        rng = self.iter_expr(s.iter, fr, st)
        if isinstance(rng, list):
            return self.unroll(s, rng, st, fr)
        if T.is_num(rng.n) and 0 <= T.num(rng.n) <= 8:
            n = int(T.num(rng.n))
            return self.unroll(s, [(lambda i: (lambda st_: rng.elem(C(i), st_)))(i) for i in range(n)], st, fr)

        def bindel(iv, s2):
            self.store(s.target, self.box(rng.elem(iv, s2), s2), s2, fr)
        return self.loop(rng.n, bindel, None, s.body, s.orelse, st, fr)

    def unroll(self, s, items, st, fr):
        exits = {}
        rel = TRUE
        cur = st
        broke = []
        for item in items:
            v = item(cur) if callable(item) else item
            self.store(s.target, self.box(v, cur), cur, fr)
            o = self.exec_block(s.body, cur, fr)
            if "cont" in o:
                c = o.pop("cont")
                if "fall" in o:
                    f = o["fall"]
                    o["fall"] = (T.mk_or(c[0], f[0]), self.merge_states(c[0], c[1], f[1]), None)
                else:
                    o["fall"] = c
            for k, (r, s2, v2) in o.items():
                if k == "fall":
                    continue
                r = T.mk_and(rel, r)
                if r is FALSE:
                    continue
                if k in exits:
                    r0, s0, v0 = exits[k]
                    ns = self.merge_states(r0, s0, s2)
                    nv = self.merge_value(r0, v0, v2, s0, s2, ns) if (v0 is not None or v2 is not None) else None
                    exits[k] = (T.mk_or(r0, r), ns, nv)
                else:
                    exits[k] = (r, s2, v2)
            f = o.get("fall")
            if f is None or f[0] is FALSE:
                cur = None
                break
            rel = T.mk_and(rel, f[0])
            cur = f[1]
        if cur is not None:
            o = self.exec_block(s.orelse, cur, fr) if s.orelse else self.fall(cur)
            for k, (r, s2, v) in o.items():
                r = T.mk_and(rel, r)
                if k in exits and k != "fall":
                    r0, s0, v0 = exits[k]
                    ns = self.merge_states(r0, s0, s2)
                    nv = self.merge_value(r0, v0, v, s0, s2, ns) if (v0 is not None or v is not None) else None
                    exits[k] = (T.mk_or(r0, r), ns, nv)
                else:
                    exits[k] = (r, s2, v)
        if "brk" in exits:
            r, s2, _ = exits.pop("brk")
            if "fall" in exits:
                f = exits["fall"]
                exits["fall"] = (T.mk_or(r, f[0]), self.merge_states(r, s2, f[1]), None)
            else:
                exits["fall"] = (r, s2, None)
        return exits

    def x_While(self, s, st, fr):
        return self.loop(INF, None, s.test, s.body, s.orelse, st, fr)

    def loop(self, n, bindel, test, body, orelse, st, fr):
        self.loopdepth += 1
        try:
            return self.loop_(n, bindel, test, body, orelse, st, fr)
        finally:
            self.loopdepth -= 1

    def ivar(self):
        return T.fresh("iv", "L%d" % self.loopdepth)

    def loop_(self, n, bindel, test, body, orelse, st, fr):
        pre = st
        ncell0 = self.ncell
        gate0 = pre.gate
        # demote concrete containers lazily: discovery of what the body changes
        mods = {}            # key -> info ; key = ('env', frame, name) | ('cell', id) | ('fld', id, name)
        iv = self.ivar()
        result = None
        rank = None
        fixed = None
        for attempt in range(9):
            ivx = iv
            s0 = pre.copy()
            ph = {}
            self.place(mods, s0, pre, ph, rank, fixed)
            s0.gate = TRUE
            s0.eff = ()
            if bindel is not None:
                bindel(ivx, s0)
            outs = {}
            cont_body = body
            if test is not None:
                c = self.truth(self.fz(test, fr, s0))
                if c is FALSE:
                    outs = {"brk": (TRUE, s0, None)}
                else:
                    s1, s2 = s0.copy(), s0.copy()
                    s1.gate = T.mk_and(s1.gate, c)
                    o1 = self.exec_block(body, s1, fr)
                    outs = self.merge_exits(c, o1, {"brk": (TRUE, s2, None)}) if c is not TRUE else o1
            else:
                outs = self.exec_block(body, s0, fr)
            if "cont" in outs:
                c = outs.pop("cont")
                if "fall" in outs:
                    f = outs["fall"]
                    outs["fall"] = (T.mk_or(c[0], f[0]), self.merge_states(c[0], c[1], f[1]), None)
                else:
                    outs["fall"] = c
            new = dict(mods)
            for k, (r, s2, v) in outs.items():
                if k == "exc":
                    continue
                self.modified(pre, s2, new, ncell0, fr, ph, mods, ivx)
            if set(new) == set(mods):
                result = outs
                if rank is None:
                    # values that start equal are told apart by what the body does with them, not by their names
                    rank = self.state_ranks(mods, ph, outs, pre, ivx)
                    if rank is not None:
                        continue
                if fixed is None:
                    # counters are placed in closed form
                    fixed = self.counters(mods, ph, outs, pre, ivx)
                    if fixed:
                        continue
                elif fixed and outs.get("fall") is not None:
                    wrong = [k for k, (c, d) in fixed.items() if self.getkey(k, outs["fall"][1]) is not T.add(c, d)]
                    if wrong:
                        fixed = {}
                        continue
                break
            mods = new
        if result is None:
            raise Unsupported("loop fixpoint")
        outs = result
        keys = sorted(mods, key=lambda k: str(k))
        fallx = outs.get("fall")
        brkx = outs.get("brk")
        retx = outs.get("ret")
        st_of = {k: ph[k] for k in keys}
        init, step, bval = {}, {}, {}
        for k in keys:
            init[k] = self.getkey(k, pre)
            step[k] = self.getkey(k, fallx[1]) if fallx is not None else st_of[k]
        # exit condition and values at exit
        ex = FALSE
        if brkx is not None:
            ex = brkx[0]
        if retx is not None:
            ex = T.mk_or(ex, retx[0])
        for k in keys:
            if brkx is not None and retx is not None:
                bval[k] = T.mk_ite(brkx[0], self.getkey(k, brkx[1]), self.getkey(k, retx[1]))
            elif brkx is not None:
                bval[k] = self.getkey(k, brkx[1])
            elif retx is not None:
                bval[k] = self.getkey(k, retx[1])
            else:
                bval[k] = st_of[k]
        pseudo = []
        if retx is not None:
            kf, kv = ("ret", "flag"), ("ret", "val")
            for k in (kf, kv):
                st_of[k] = T.fresh("st", "%d%s" % (self.loopdepth, k[1]))
                keys.append(k)
                step[k] = st_of[k]
            init[kf] = FALSE
            init[kv] = UNDEF
            rv = self.freeze(retx[2], retx[1]) if retx[2] is not None else NONE_
            if brkx is not None:
                bval[kf] = T.mk_not(brkx[0])
                bval[kv] = rv
            else:
                bval[kf] = TRUE
                bval[kv] = rv
        if orelse and brkx is not None:
            kb = ("brk", "flag")
            st_of[kb] = T.fresh("st", "%dbrk" % self.loopdepth)
            keys.append(kb)
            step[kb] = st_of[kb]
            init[kb] = FALSE
            bval[kb] = brkx[0] if retx is not None else TRUE
        res, n2, ren = solve_loop(n, iv, keys, st_of, init, step, ex, bval, fixed or {})
        # effects of the body
        effs = []
        for k, (r, s2, v) in outs.items():
            for e in s2.eff:
                if e not in effs:
                    effs.append(e)
        after = pre.copy()
        after.gate = gate0
        sts = {v: None for v in st_of.values()}
        for (g, e, loc) in effs:
            g2, e2 = T.subst(g, ren), T.subst(e, ren)
            m = {x: N("loopst") for x in sts if x in g2.free or x in e2.free}
            if m:
                g2, e2 = T.subst(g2, m), T.subst(e2, m)
            g2 = T.truth(g2) if not T.is_bool(g2) else g2
            if n2.op != "inf":
                lt = T.gt0(T.sub(n2, ivx))
                g2, e2 = (T.restrict(x, lt.args[0], False) if lt.op == "not" else T.restrict(x, lt, True) for x in (g2, e2))
            if ivx in g2.free or ivx in e2.free:
                node = N("loopeff", n2, T.bind((ivx,), g2, e2))
                after.eff = after.eff + ((gate0, node, loc),)
            else:
                after.eff = after.eff + ((T.mk_and(gate0, g2), N("loopeff", n2, e2), loc),)
        for k in keys:
            if k[0] in ("env", "cell", "fld"):
                self.setkey(k, res[k], after, pre, mods[k], outs)
        outx = {}
        cur = after
        relret = FALSE
        if retx is not None:
            relret = T.truth(res[("ret", "flag")])
            rs = after.copy()
            rs.gate = T.mk_and(gate0, relret)
            outx["ret"] = (relret, rs, self.box(res[("ret", "val")], rs))
            cur = after.copy()
            cur.gate = T.mk_and(gate0, T.mk_not(relret))
        relfall = T.mk_not(relret)
        if relfall is FALSE:
            return outx
        if test is not None and test_is_true(test) and brkx is None:
            # while True without break: only left by return
            if outx:
                outx["ret"] = (TRUE,) + outx["ret"][1:]
                outx["ret"][1].gate = gate0
            return outx if outx else {"fall": (TRUE, cur, None)}
        if orelse:
            if brkx is None:
                o = self.exec_block(orelse, cur, fr)
            else:
                bf = T.truth(res[("brk", "flag")])
                sb = cur.copy()
                se = cur.copy()
                se.gate = T.mk_and(cur.gate, T.mk_not(bf))
                oe = self.exec_block(orelse, se, fr)
                o = self.merge_exits(bf, {"fall": (TRUE, sb, None)}, oe)
            for k, (r, s2, v) in o.items():
                r = T.mk_and(relfall, r)
                if k in outx:
                    r0, s0, v0 = outx[k]
                    ns = self.merge_states(r0, s0, s2)
                    outx[k] = (T.mk_or(r0, r), ns, self.merge_value(r0, v0, v, s0, s2, ns) if v0 is not None or v is not None else None)
                else:
                    outx[k] = (r, s2, v)
            return outx
        outx["fall"] = (relfall, cur, None)
        return outx

    def getkey(self, k, st):
        if k[0] == "env":
            v = st.frames.get(k[1], {}).get(k[2])
            return UNDEF if v is None else self.freeze(v, st)
        if k[0] == "cell":
            return self.freeze(Ref(k[1]), st)
        if k[0] == "fld":
            c = self.content(st, Ref(k[1]))
            if isinstance(c, ObjC):
                v = c.fields.get(k[2])
                if v is None:
                    if c.base is None:
                        return UNDEF
                    v = self.lazy_field(k[1], c, k[2])
                return self.freeze(v, st)
            return T.mk_attr(self.freeze(Ref(k[1]), st), k[2])
        raise KeyError(k)

    def state_ranks(self, mods, ph, outs, pre, iv):
        """order of the loop-carried values by content, when it differs from the order of their names"""
        cnt = {}
        for k in mods:
            cnt.setdefault(self.getkey(k, pre).key, []).append(k)
        if all(len(v) == 1 for v in cnt.values()):
            return None
        x = outs.get("fall")
        nxt = {k: [self.getkey(k, o[1]) for o in (outs.get(q) for q in ("fall", "brk", "ret")) if o is not None] for k in mods}
        gates = [o[0] for o in (outs.get(q) for q in ("fall", "brk", "ret")) if o is not None]
        col = {k: self.getkey(k, pre).key for k in mods}
        n = len(set(col.values()))
        for r in range(len(mods) + 1):
            m = {ph[k]: col[k] for k in mods}
            m[iv] = b"iv"
            memo = {}
            g = b"".join(T.colour(t, m, memo) for t in gates if isinstance(t, T.Node))
            col = {k: T.hashlib.blake2b(col[k] + b"".join(T.colour(t, m, memo) for t in nxt[k]) + g, digest_size=10).digest() for k in mods}
            c = len(set(col.values()))
            if c == n and r:
                break
            n = c
        a, b = self.name_order(mods), {}
        srt = sorted(mods, key=lambda k: (col[k], a[k]))
        if all([k for k in srt if k in v] == sorted(v, key=lambda k: a[k]) for v in cnt.values()):
            return None
        return {k: i for i, k in enumerate(srt)}

    def name_order(self, mods):
        return {k: i for i, k in enumerate(sorted(mods, key=lambda k: (str(k[2]) if len(k) > 2 else "", k[0], str(k[1]).rjust(9))))}

    def counters(self, mods, ph, outs, pre, iv):
        """values that change by the same number in every iteration: {key: (closed form, change)}"""
        f = outs.get("fall")
        if f is None:
            return {}
        out = {}
        for k in mods:
            if k[0] not in ("env", "fld") or mods[k].get("ref"):
                continue
            i0 = self.getkey(k, pre)
            if i0 is UNDEF or iv in i0.free or self.nty(i0) != "num":
                continue
            x = ph[k]
            s = self.getkey(k, f[1])
            if x not in s.free:
                continue
            d = T.sub(s, x)
            if T.is_num(d) and T.num(d) != 0:
                out[k] = (T.add(i0, T.scale(iv, T.num(d))), d)
        return out

    def place(self, mods, s0, pre, ph, rank=None, fixed=None):
        """put placeholders for everything the loop body changes"""
        count = {}
        rank = rank or self.name_order(mods)
        for k in sorted(mods, key=lambda k: rank[k]):
            ik = self.getkey(k, pre).key
            count[ik] = count.get(ik, 0) + 1
            x = T.fresh("st", "S%d:%s:%d" % (self.loopdepth, ik.hex(), count[ik]))
            ph[k] = x
            info = mods[k]
            if fixed and k in fixed:
                if k[0] == "env":
                    if k[1] in s0.frames:
                        s0.frames[k[1]][k[2]] = fixed[k][0]
                else:
                    c = self.content(s0, Ref(k[1]))
                    f = dict(c.fields)
                    f[k[2]] = fixed[k][0]
                    s0.store[k[1]] = ObjC(c.cls, c.base, f)
                continue
            if k[0] == "env":
                if k[1] not in s0.frames:
                    continue
                if info.get("cls") is not None:
                    v = self.new_cell(s0, ObjC(info["cls"], x, {}), ty="obj", cls=info["cls"])
                elif info.get("ref"):
                    v = self.new_cell(s0, x, ty=info.get("ty"))
                elif info.get("tup"):
                    v = Tup([T.mk_getitem(x, C(i)) for i in range(info["tup"])])
                else:
                    v = x
                    if info.get("ty"):
                        self.leafty[x] = info["ty"]
                s0.frames[k[1]][k[2]] = v
            elif k[0] == "cell":
                c = self.content(pre, Ref(k[1]))
                if isinstance(c, ObjC):
                    s0.store[k[1]] = ObjC(c.cls, x, {})
                elif isinstance(c, ViewC):
                    s0.store[k[1]] = x
                else:
                    s0.store[k[1]] = x
                if info.get("ty"):
                    self.leafty[x] = info["ty"]
                    self.meta[k[1]].ty = self.meta[k[1]].ty or info["ty"]
            elif k[0] == "fld":
                c = self.content(s0, Ref(k[1]))
                if isinstance(c, ObjC):
                    f = dict(c.fields)
                    if info.get("cls") is not None:
                        f[k[2]] = self.new_cell(s0, ObjC(info["cls"], x, {}), ty="obj", cls=info["cls"])
                    elif info.get("ref"):
                        f[k[2]] = self.new_cell(s0, x, ty=info.get("ty"))
                    else:
                        f[k[2]] = x
                    s0.store[k[1]] = ObjC(c.cls, c.base, f)

    def modified(self, pre, post, out, ncell0, fr, ph, mods, iv):
        for f, env in pre.frames.items():
            penv = post.frames.get(f, {})
            for name in list(penv):
                k = ("env", f, name)
                v0, v1 = env.get(name), penv.get(name)
                if k in mods:
                    if isinstance(v1, Ref):
                        out[k]["ref"] = True
                    continue
                if same_value(v0, v1):
                    continue
                info = {}
                if isinstance(v1, Ref):
                    info["ref"] = True
                    m = self.meta[v1.cell]
                    info["cls"] = m.cls if isinstance(self.content(post, v1), ObjC) else None
                    info["ty"] = self.ty(v1, post)
                elif isinstance(v1, Tup) and (v0 is None or isinstance(v0, Tup) and len(v0.v) == len(v1.v)):
                    info["tup"] = len(v1.v)
                elif isinstance(v1, T.Node):
                    info["ty"] = self.nty(v1)
                out[k] = info
        inner = set(ph.values())
        for c, new in post.store.items():
            if c > ncell0:
                # cells made inside the loop do not outlive it, except parts of objects that existed before
                b = self.meta[c].init
                if b is None or self.meta[c].parent is not None:
                    continue
                b = b.base if isinstance(b, ObjC) else b
                if not isinstance(b, T.Node) or iv in b.free or (inner & b.free):
                    continue
                o = c
                while o is not None and o > ncell0:
                    o = self.owner.get(o)
                if o is None:
                    continue
            old = self.content(pre, Ref(c))
            if old is new or old is None:
                continue
            k = ("cell", c)
            if k in mods:
                continue
            if isinstance(old, ObjC) and isinstance(new, ObjC) and old.base is new.base:
                for fn in new.fields:
                    kk = ("fld", c, fn)
                    a, b = old.fields.get(fn), new.fields.get(fn)
                    if a is None and old.base is not None:
                        a = self.lazy_field(c, old, fn)
                    if kk in mods:
                        if isinstance(b, Ref):
                            out[kk]["ref"] = True
                        continue
                    if same_value(a, b):
                        continue
                    info = {}
                    if isinstance(b, Ref):
                        info["ref"] = True
                        m = self.meta[b.cell]
                        info["cls"] = m.cls if isinstance(self.content(post, b), ObjC) else None
                        info["ty"] = self.ty(b, post)
                    elif isinstance(b, T.Node):
                        info["ty"] = self.nty(b)
                    out[kk] = info
                continue
            info = {}
            if isinstance(old, ListC):
                info["ty"] = "list"
            elif isinstance(old, DictC):
                info["ty"] = "dict"
            else:
                info["ty"] = self.ty(Ref(c), pre)
            # whole-object change subsumes its fields
            out[k] = info
            for kk in [q for q in out if q[0] == "fld" and q[1] == c]:
                del out[kk]

    def setkey(self, k, v, st, pre, info, outs):
        if k[0] == "env":
            if k[1] not in st.frames:
                return
            if v is UNDEF:
                return
            if info.get("cls") is not None:
                st.frames[k[1]][k[2]] = self.new_cell(st, ObjC(info["cls"], v, {}), ty="obj", cls=info["cls"])
            else:
                st.frames[k[1]][k[2]] = self.new_cell(st, v, ty=info.get("ty")) if info.get("ref") else v
        elif k[0] == "cell":
            c = self.content(pre, Ref(k[1]))
            if isinstance(c, ObjC):
                st.store[k[1]] = ObjC(c.cls, v, {})
            else:
                st.store[k[1]] = v
        elif k[0] == "fld":
            c = self.content(st, Ref(k[1]))
            if isinstance(c, ObjC):
                f = dict(c.fields)
                if info.get("cls") is not None:
                    f[k[2]] = self.new_cell(st, ObjC(info["cls"], v, {}), ty="obj", cls=info["cls"])
                else:
                    f[k[2]] = self.new_cell(st, v, ty=info.get("ty")) if info.get("ref") else v
                st.store[k[1]] = ObjC(c.cls, c.base, f)

    # ------------------------------------------------------------ iteration
    def iter_expr(self, e, fr, st):
        """what iterating over an expression gives; values of a dictionary are parts of it"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "values") and not e.args and not e.keywords \
                and not any(isinstance(x, ast.Call) for x in ast.walk(e.func.value)):
            b = self.eval(e.func.value, fr, st)
            if isinstance(b, Ref):
                c = self.content(st, b)
                if not (isinstance(c, (DictC, ListC)) or isinstance(c, ObjC) and c.cls is not None or self.ty(b, st) == "df"):
                    n = self.freeze(b, st)
                    if e.func.attr == "values":
                        return RangeV(T.mk_len(n), lambda iv, s: self.get_item(b, self.keyat(n, iv), s))
                    return RangeV(T.mk_len(n), lambda iv, s: Tup([self.keyat(n, iv), self.get_item(b, self.keyat(n, iv), s)]))
        return self.iterate(self.eval(e, fr, st), st)

    def iterate(self, v, st):
        """-> RangeV or list of thunks (small, statically known)"""
        if isinstance(v, RangeV):
            return v
        if isinstance(v, Tup):
            return [(lambda s, x=x: x) for x in v.v] if len(v.v) <= 12 else self.iter_node(self.freeze(v, st), v, st)
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ListC) and len(c.v) <= 8:
                return [(lambda s, x=x: x) for x in c.v]
            if isinstance(c, DictC) and len(c.d) <= 8:
                return [(lambda s, x=x: x) for x in c.d]
        n = self.freeze(v, st)
        return self.iter_node(n, v, st)

    def iter_node(self, n, v, st):
        if n.op in ("list", "tuple") and len(n.args) <= 8:
            return [(lambda s, x=x: x) for x in n.args]
        if n.op == "call" and n.args[0] in (".keys", "list") and len(n.args) == 2 and (n.args[0] == ".keys" or n.args[1].op == "call" and n.args[1].args[0] in (".keys", ".values", ".items")):
            return self.iter_node(n.args[1], v, st)
        if n.op == "call" and n.args[0] == ".items" and len(n.args) == 2:
            d = n.args[1]
            return RangeV(T.mk_len(d), lambda iv, s: Tup([self.keyat(d, iv), T.mk_getitem(d, self.keyat(d, iv))]))
        if n.op == "call" and n.args[0] == ".values" and len(n.args) == 2:
            d = n.args[1]
            return RangeV(T.mk_len(d), lambda iv, s: T.mk_getitem(d, self.keyat(d, iv)))
        if n.op == "call" and n.args[0] in (".iterrows", ".itertuples"):
            d = n.args[1]
            return RangeV(T.mk_len(d), lambda iv, s: Tup([N("rowkey", d, iv), N("row", d, iv)]))
        if n.op in ("dict", "scatter", "dictu") or self.nty(n) == "dict":
            return RangeV(T.mk_len(n), lambda iv, s: N("keyat", n, iv))
        if n.op == "call" and n.args[0] == "np.arange" and len(n.args) == 2:
            return RangeV(n.args[1], lambda iv, s: iv)
        ref = v if isinstance(v, Ref) else None

        def elem(iv, s):
            if ref is not None:
                e = T.mk_getitem(n, iv)
                cls = self.elemcls(ref, n)
                if cls is not None:
                    return self.new_cell(s, ObjC(cls, e, {}), ty="obj", cls=cls, parent=(ref, "item", iv))
                if e.op in ("iv", "bv", "c", "fstr", "len") or self.nty(e) == "num":
                    return e
                return self.new_cell(s, e, parent=(ref, "item", iv))
            return T.mk_getitem(n, iv)
        return RangeV(T.mk_len(n), elem)

    def keyat(self, d, iv):
        """key at a position; of an object of unknown type, what iterating over it gives"""
        if self.nty(d) is None and d.op in ("in", "attr", "getitem", "bv", "iv", "st", "ret", "call", "mu"):
            return T.mk_getitem(d, iv)
        return N("keyat", d, iv)

    def elemcls(self, ref, n):
        return None

    # ------------------------------------------------------------ stores
    def store(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                g = fr.parent
                while g is not None:
                    if t.id in st.frames.get(g.id, {}):
                        f = g
                        break
                    g = g.parent
            st.frames[f.id][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, t.elts)
            for x, y in zip(t.elts, vals):
                self.store(x.value if isinstance(x, ast.Starred) else x, self.box(y, st), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, fr, st)
            self.set_attr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            # df.loc[...] = v / df.iloc[...] = v / df.at[...] = v
            if isinstance(t.value, ast.Attribute) and t.value.attr in ("loc", "iloc", "at", "iat"):
                b = self.eval(t.value.value, fr, st)
                k = self.index(t.slice, fr, st)
                if isinstance(b, Ref):
                    n = self.freeze(b, st)
                    self.write(st, b, N("setloc", n, N("kw", t.value.attr, k), self.freeze(v, st)))
                return
            b = self.eval(t.value, fr, st)
            k = self.index(t.slice, fr, st)
            self.set_item(b, k, v, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st, fr)
        else:
            raise Unsupported("store " + type(t).__name__)

    def set_item(self, b, k, v, st):
        if isinstance(b, Ref):
            c = self.content(st, b)
            if isinstance(c, ListC) and T.is_num(k) and -len(c.v) <= T.num(k) < len(c.v):
                l = list(c.v)
                l[int(T.num(k))] = v
                self.write(st, b, ListC(l))
                return
            if isinstance(c, DictC) and T.is_const(k):
                d = dict(c.d)
                d[k] = v
                self.write(st, b, DictC(d))
                return
            if isinstance(c, ObjC) and c.cls is not None and "__setitem__" in c.cls.methods:
                pass
            n = self.freeze(b, st)
            new = T.mk_setitem(n, k, self.freeze(v, st))
            if isinstance(c, ObjC):
                self.write(st, b, ObjC(c.cls, new, {}))
            else:
                self.write(st, b, new)

    def set_attr(self, b, name, v, st):
        if isinstance(b, Ref):
            c = self.content(st, b)
            if isinstance(c, ObjC):
                f = dict(c.fields)
                f[name] = v
                self.writes.append((b.cell, self.curfile, self.curline))
                st.store[b.cell] = ObjC(c.cls, c.base, f)
                m = self.meta[b.cell]
                if m.parent is not None or m.alts:
                    self.write(st, b, st.store[b.cell])
                return
            n = self.freeze(b, st)
            self.write(st, b, T.mk_setattr(n, name, self.freeze(v, st)))

    def unpack(self, v, n, st, elts=None):
        if elts is not None and any(isinstance(e, ast.Starred) for e in elts):
            f = self.freeze(v, st)
            out = []
            for i, e in enumerate(elts):
                out.append(N("starpart", f, C(i)) if isinstance(e, ast.Starred) else T.mk_getitem(f, C(i)))
            return out
        if isinstance(v, Tup):
            if len(v.v) == n:
                return v.v
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ListC) and len(c.v) == n:
                return list(c.v)
        f = self.freeze(v, st)
        if f.op == "ite" and f.args[1].op == "tuple" and f.args[2].op == "tuple":
            pass
        return [T.mk_getitem(f, C(i)) for i in range(n)]

    # ------------------------------------------------------------ expressions
    def fz(self, e, fr, st):
        return self.freeze(self.eval(e, fr, st), st)

    def eval(self, e, fr, st, stmt=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        if isinstance(e, ast.Call):
            return self.e_Call(e, fr, st, stmt)
        return m(e, fr, st)

    def e_Constant(self, e, fr, st):
        if e.value is Ellipsis:
            return N("ellipsis")
        return C(e.value)

    def e_Name(self, e, fr, st):
        return self.lookup(e.id, fr, st)

    def e_NamedExpr(self, e, fr, st):
        v = self.box(self.eval(e.value, fr, st), st)
        self.store(e.target, v, st, fr)
        return v

    def e_Tuple(self, e, fr, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr, st)
                it = self.iterate(v, st)
                if isinstance(it, list):
                    out += [t(st) for t in it]
                else:
                    out.append(N("star", self.freeze(v, st)))
            else:
                out.append(self.box(self.eval(x, fr, st), st))
        return Tup(out)

    def e_List(self, e, fr, st):
        t = self.e_Tuple(e, fr, st)
        if any(isinstance(x, T.Node) and x.op == "star" for x in t.v):
            parts = [x.args[0] if isinstance(x, T.Node) and x.op == "star" else N("list", self.freeze(x, st)) for x in t.v]
            return self.new_cell(st, T.mk_lcat(*parts), ty="list")
        return self.new_cell(st, ListC(t.v), ty="list")

    def e_Set(self, e, fr, st):
        t = self.e_Tuple(e, fr, st)
        xs = sorted({self.freeze(x, st) for x in t.v}, key=lambda x: x.key)
        return self.new_cell(st, N("set", *xs))

    def e_Dict(self, e, fr, st):
        d = {}
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, fr, st)
                c = self.content(st, x) if isinstance(x, Ref) else None
                if isinstance(c, DictC) and base is None:
                    d.update(c.d)
                    continue
                cur = self.freeze_content(DictC(d), st) if base is None else base
                base = N("dictu", cur, self.freeze(x, st))
                continue
            kk = self.freeze(self.eval(k, fr, st), st)
            vv = self.box(self.eval(v, fr, st), st)
            if base is not None:
                base = T.mk_setitem(base, kk, self.freeze(vv, st))
            else:
                d[kk] = vv
        if base is not None:
            return self.new_cell(st, base, ty="dict")
        return self.new_cell(st, DictC(d), ty="dict")

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.fz(v.value, fr, st)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, fr, st)
                if spec is not None and spec is not C(""):
                    x = N("fmt", x, spec)
                elif v.conversion == 114:
                    x = N("call", "repr", x)
                parts.append(x)
        return T.mk_fstr(parts)

    def e_Lambda(self, e, fr, st):
        return FuncV(e, fr.module, None, None, fr)

    def e_IfExp(self, e, fr, st):
        c = self.under_gate(self.truth(self.fz(e.test, fr, st)), st)
        if c is TRUE:
            return self.eval(e.body, fr, st)
        if c is FALSE:
            return self.eval(e.orelse, fr, st)
        s1, s2 = st.copy(), st.copy()
        s1.gate = T.mk_and(st.gate, c)
        s2.gate = T.mk_and(st.gate, T.mk_not(c))
        a = self.eval(e.body, fr, s1)
        b = self.eval(e.orelse, fr, s2)
        s = self.merge_states(c, s1, s2)
        v = self.merge_value(c, a, b, s1, s2, s)
        s.gate = st.gate
        st.assign(s)
        return v

    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        acc = None
        rel = []
        gate0 = st.gate
        for x in e.values:
            v = self.freeze(self.eval(x, fr, st), st)
            if acc is None:
                acc = [v]
            else:
                acc.append(v)
            # later operands are evaluated under the earlier ones
            st.gate = T.mk_and(st.gate, self.truth(v) if isand else T.mk_not(self.truth(v)))
        st.gate = gate0
        if not isand and len(acc) == 2 and isinstance(e.values[1], (ast.Dict, ast.List)) and acc[1].op in ("dict", "list") and not acc[1].args \
                and acc[0].op in ("in", "attr"):
            # x or {}: the empty default stands for a missing x
            return T.mk_ite(T.cmp_eq(acc[0], T.NONE_), acc[1], acc[0])
        if all(T.is_bool(x) for x in acc):
            r = acc[-1]
            for x in reversed(acc[:-1]):
                r = T.mk_and(x, r) if isand else T.mk_or(x, r)
            return r
        r = acc[-1]
        for x in reversed(acc[:-1]):
            r = T.mk_ite(self.truth(x), r, x) if isand else T.mk_ite(self.truth(x), x, r)
        return r

    def e_UnaryOp(self, e, fr, st):
        v = self.fz(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return T.mk_not(self.truth(v))
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.Invert):
            return T.mk_not(v)
        return v

    def e_BinOp(self, e, fr, st):
        a = self.eval(e.left, fr, st)
        b = self.eval(e.right, fr, st)
        if isinstance(e.op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.v + b.v)
        if isinstance(e.op, ast.Add) and isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.content(st, a), self.content(st, b)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.new_cell(st, ListC(ca.v + cb.v), ty="list")
        return self.binop(type(e.op).__name__, self.freeze(a, st), self.freeze(b, st), st)

    def binop(self, op, a, b, st):
        if op == "Add":
            if self.nty(a) == "list" or self.nty(b) == "list":
                return T.mk_lcat(a, b)
            if self.nty(a) == "str" or self.nty(b) == "str":
                return T.mk_fstr([a, b])
            return T.py_add(a, b)
        if op == "Sub":
            if a.op in ("set",) or b.op in ("set",):
                return N("setdiff", a, b)
            return T.sub(a, b)
        if op == "Mult":
            return T.py_mul(a, b)
        if op == "Div":
            if a.op == "call" and a.args[0].startswith("pathlib") or T.is_strlike(b):
                return N("pathjoin", a, b)
            return T.div(a, b)
        if op == "Pow":
            if T.is_num(b):
                return T.power(a, T.num(b))
            return N("pow", a, b)
        if op == "MatMult":
            return T.mm(a, b)
        if op == "Mod":
            if T.is_strlike(a):
                return N("call", "%fmt", a, b)
            if T.is_num(a) and T.is_num(b) and T.num(b) != 0:
                return C(T.num(a) % T.num(b))
            return N("mod", a, b)
        if op == "FloorDiv":
            if T.is_num(a) and T.is_num(b) and T.num(b) != 0:
                return C(T.num(a) // T.num(b))
            return N("floordiv", a, b)
        if op == "BitAnd":
            if T.is_bool(a) or T.is_bool(b):
                return T.mk_and(a if T.is_bool(a) else self.truth(a), b if T.is_bool(b) else self.truth(b))
            return N("bitand", *sorted((a, b), key=lambda x: x.key))
        if op == "BitOr":
            if T.is_bool(a) or T.is_bool(b):
                return T.mk_or(a if T.is_bool(a) else self.truth(a), b if T.is_bool(b) else self.truth(b))
            return N("bitor", *sorted((a, b), key=lambda x: x.key))
        return N("bin", op, a, b)

    def e_Compare(self, e, fr, st):
        vals = [self.fz(e.left, fr, st)] + [self.fz(c, fr, st) for c in e.comparators]
        r = TRUE
        for op, a, b in zip(e.ops, vals, vals[1:]):
            r = T.mk_and(r, self.compare(type(op).__name__, a, b))
        return r

    def compare(self, op, a, b):
        if op in ("Eq", "Is"):
            return T.cmp_eq(a, b)
        if op in ("NotEq", "IsNot"):
            return T.mk_not(T.cmp_eq(a, b))
        if op == "Lt":
            return T.cmp_lt(a, b)
        if op == "LtE":
            return T.cmp_le(a, b)
        if op == "Gt":
            return T.cmp_lt(b, a)
        if op == "GtE":
            return T.cmp_le(b, a)
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return T.mk_not(r) if op == "NotIn" else r
        raise Unsupported(op)

    def contains(self, a, b):
        if b.op in ("list", "tuple", "set") and not any(x.op == "star" for x in b.args) and len(b.args) <= 16:
            r = FALSE
            for x in b.args:
                r = T.mk_or(r, T.cmp_eq(a, x))
            return r
        if b.op == "call" and b.args[0] == ".keys" and len(b.args) == 2:
            b = b.args[1]
        if b.op == "dict":
            ks = b.args[::2]
            if len(ks) <= 16:
                r = FALSE
                for x in ks:
                    r = T.mk_or(r, T.cmp_eq(a, x))
                return r
        if b.op == "range" and T.is_int(a):
            lo, hi, stp = b.args
            if stp is ONE:
                return T.mk_and(T.cmp_le(lo, a), T.cmp_lt(a, hi))
        if b.op == "map" and b.args[1].args[1].op == "add" and False:
            pass
        return N("in_", a, b)

    def e_Starred(self, e, fr, st):
        return N("star", self.fz(e.value, fr, st))

    def e_Await(self, e, fr, st):
        raise Unsupported("await")

    def e_Yield(self, e, fr, st):
        raise Unsupported("yield")

    # -- comprehensions
    def comp(self, gens, fr, st, leaf):
        """nested generators -> (kind, builder): calls leaf(st) for the element; returns list of nested (n, iv, cond)"""
        cf = Frame(self, fr.module, fr)
        st.frames[cf.id] = {}
        return cf

    def comp_effect(self, st, s2, ncell0, eff0, np_, cf, iv):
        """notes that evaluating an element changed something that outlives it"""
        if self.comp_dirty or s2.eff is not eff0 or len(self.pending) > np_:
            self.comp_dirty = True
            return
        out = {}
        self.modified(st, s2, out, ncell0, cf, {}, {}, iv)
        if any(k[0] != "env" for k in out):
            self.comp_dirty = True

    def run_comp(self, gens, i, cf, st, leaf):
        """term of the list produced by generators i.. ; leaf(state) -> term"""
        if i == len(gens):
            return N("list", leaf(st))
        g = gens[i]
        it = self.iter_expr(g.iter, cf, st)
        if isinstance(it, list) or (T.is_num(it.n) and 0 <= T.num(it.n) <= 8):
            items = it if isinstance(it, list) else [(lambda s, j=j: it.elem(C(j), s)) for j in range(int(T.num(it.n)))]
            parts = []
            for t in items:
                s2 = st.copy()
                ncell0, eff0, np_ = self.ncell, s2.eff, len(self.pending)
                self.store(g.target, self.box(t(s2), s2), s2, cf)
                cond = TRUE
                for c in g.ifs:
                    cond = T.mk_and(cond, self.truth(self.freeze(self.eval(c, cf, s2), s2)))
                if cond is FALSE:
                    continue
                x = self.run_comp(gens, i + 1, cf, s2, leaf)
                if cond is not TRUE:
                    x = T.mk_ite(cond, x, N("list"))
                parts.append(x)
                self.comp_effect(st, s2, ncell0, eff0, np_, cf, ZERO)
            return T.mk_lcat(*parts) if parts else N("list")
        self.loopdepth += 1
        iv = self.ivar()
        s2 = st.copy()
        ncell0, eff0, np_ = self.ncell, s2.eff, len(self.pending)
        try:
            self.store(g.target, self.box(it.elem(iv, s2), s2), s2, cf)
            cond = TRUE
            for c in g.ifs:
                cond = T.mk_and(cond, self.truth(self.freeze(self.eval(c, cf, s2), s2)))
            s2.gate = T.mk_and(s2.gate, cond)
            x = self.run_comp(gens, i + 1, cf, s2, leaf)
        finally:
            self.loopdepth -= 1
        self.comp_effect(st, s2, ncell0, eff0, np_, cf, iv)
        return mk_concat(it.n, iv, cond, x)

    def comp_term(self, e, elt, fr, st):
        """list term of a comprehension; one whose element changes anything is run as the loop it stands for"""
        s1 = st.copy()
        cf = self.comp(e.generators, fr, s1, None)
        ncell0, np_ = self.ncell, len(self.pending)
        n = self.run_comp(e.generators, 0, cf, s1, lambda s: self.freeze(self.eval(elt, cf, s), s))
        if not self.comp_dirty:
            s1.frames.pop(cf.id, None)
            st.assign(s1)
            return n
        self.comp_dirty = False
        del self.pending[np_:]
        cf = self.comp(e.generators, fr, st, None)
        loop = _COMP.get((e, elt))
        if loop is None:
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name("comp acc", ast.Load()), "append", ast.Load()), [elt], []))
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                body = ast.For(g.target, g.iter, [body], [])
            for x in ast.walk(body):
                if not hasattr(x, "lineno"):
                    x.lineno, x.col_offset = e.lineno, e.col_offset
            loop = _COMP[(e, elt)] = body
        st.frames[cf.id]["comp acc"] = self.new_cell(st, ListC([]), ty="list")
        gate = st.gate
        o = self.exec_stmt(loop, st, cf)
        x = o.get("exc")
        if x is not None and x[0] is not FALSE:
            self.pending.append((x[0], gate, x[1]))
        f = o.get("fall")
        if f is None:
            return N("never")
        s2 = f[1]
        n = self.freeze(s2.frames[cf.id]["comp acc"], s2)
        s2.frames.pop(cf.id, None)
        s2.gate = gate
        st.assign(s2)
        return n

    def e_ListComp(self, e, fr, st):
        return self.new_cell(st, self.comp_term(e, e.elt, fr, st), ty="list")

    def e_GeneratorExp(self, e, fr, st):
        return self.e_ListComp(e, fr, st)

    def e_SetComp(self, e, fr, st):
        return self.new_cell(st, N("setof", self.comp_term(e, e.elt, fr, st)))

    def e_DictComp(self, e, fr, st):
        pair = _COMP.get(e)
        if pair is None:
            pair = _COMP[e] = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        return self.new_cell(st, dict_from_pairs(self.comp_term(e, pair, fr, st)), ty="dict")

    # -- attribute
    def e_Attribute(self, e, fr, st):
        b = self.eval(e.value, fr, st)
        return self.get_attr(b, e.attr, st)

    def get_attr(self, b, name, st):
        if isinstance(b, ModV):
            m = b.module
            if name in m.functions or name in m.classes or name in m.globals or name in m.imports:
                return self.module_name(name, m, st)
            sm = self.tree.resolve_module(m.name + "." + name)
            return ModV(sm) if sm is not None else Ext(m.name + "." + name)
        if isinstance(b, Ext):
            if b.name == "np" and name in ("nan", "NaN"):
                return C(float("nan"))
            if b.name == "np" and name == "newaxis":
                return NONE_
            if b.name in ("esat", "eval", "esat_eval"):
                sm = self.tree.resolve_module(b.name + "." + name)
                if sm is not None:
                    return ModV(sm)
            return Ext(b.name + "." + name)
        if isinstance(b, ClassV):
            if name in b.info.methods:
                return FuncV(b.info.methods[name], b.info.module, b.info)
            if name in b.info.attrs:
                return self.eval(b.info.attrs[name], Frame(self, b.info.module, None, reg=st), st)
            return N("attr", N("class", b.info.name), name)
        if isinstance(b, Ref):
            c = self.content(st, b)
            if isinstance(c, ObjC):
                return self.obj_attr(b, c, name, st)
            if name == "T":
                return self.new_cell(st, ViewC(b, "T"), ty=self.meta[b.cell].ty)
            if name in ("values",):
                if isinstance(c, DictC) or self.ty(b, st) == "dict":
                    return MethV(b, name)
                n = self.freeze(b, st)
                return self.new_cell(st, ViewC(b, "attr", "values"), ty="arr")
            if name == "shape":
                return N("attr", self.freeze(b, st), "shape")
            n = self.freeze(b, st)
            return self.attr_node(n, name, b, st)
        if isinstance(b, T.Node):
            return self.attr_node(b, name, None, st)
        if isinstance(b, Tup):
            return MethV(b, name)
        if isinstance(b, FuncV):
            return N("attr", self.freeze(b, st), name)
        if isinstance(b, (MethV, RangeV)):
            return N("attr", self.freeze(b, st), name)
        raise Unsupported("attr of %r" % (b,))

    DATA_ATTRS = {"columns", "index", "shape", "size", "ndim", "dtype", "loc", "iloc", "at", "iat", "str", "dt", "T", "values", "name", "stem", "parent", "suffix", "x", "y", "data", "layout"}

    def attr_node(self, n, name, ref, st):
        if n.op in ("func", "class"):
            return N("attr", n, name)
        r = T.mk_attr(n, name)
        if r.op != "attr":
            return r
        if ref is not None and name not in ("shape", "size", "ndim", "dtype", "columns", "index"):
            key = (ref.cell, n, name)
            x = self.lazy.get(key)
            if x is None:
                x = self.new_cell(st, None, parent=(ref, "attr", name), init=r)
                self.lazy[key] = x
            return x
        return r

    def lazy_field(self, cell, c, name):
        """field of a symbolic object that has not been assigned"""
        base = c.base
        key = (cell, base, name)
        x = self.lazy.get(key)
        if x is None:
            n = T.mk_attr(base, name)
            if n.op in ("c", "tuple", "fstr", "len", "func", "class"):
                self.lazy[key] = n
                return n
            m = self.meta[cell]
            ty, cls = self.field_type(c.cls, name) if c.cls is not None else (None, None)
            if c.cls is not None and self.is_container(c.cls, name):
                self.containers.add(n)
            self.ncell += 1
            cid = self.ncell
            origin = None
            if m.origin is not None:
                origin = m.origin + "." + name
            if ty == "num" or ty == "str":
                self.leafty[n] = ty
                self.ncell -= 1
                self.lazy[key] = n
                return n
            if ty is not None:
                self.leafty[n] = ty
            init = ObjC(cls, n, {}) if cls is not None else n
            self.meta[cid] = Meta("obj" if cls is not None else ty, cls, origin, None, init)
            self.owner[cid] = cell
            x = Ref(cid)
            self.lazy[key] = x
        return x

    def truth(self, n):
        """truth value of a term; of a list or dictionary: whether it has items"""
        t = T.truth(n)
        for x in sorted(T.sub_ops(t, "truth"), key=lambda q: q.key):
            y = x.args[0]
            if y in self.containers or y.op in ("dict", "scatter", "setitem") and self.nty(y) == "dict":
                t = T.replace(t, {x: T.gt0(T.mk_len(y))})
        return t

    def is_container(self, cls, name):
        k = self.contcls.get(cls)
        if k is None:
            k = self.contcls[cls] = container_fields(cls)
        return name in k

    def field_type(self, cls, name):
        ft = self.fieldcls.get(cls)
        if ft is None:
            ft = infer_fields(cls, self.tree)
            self.fieldcls[cls] = ft
        return ft.get(name, (None, None))

    def obj_attr(self, b, c, name, st):
        if name in c.fields:
            return c.fields[name]
        if c.cls is not None:
            if name in c.cls.methods:
                f = c.cls.methods[name]
                decs = [ast.unparse(d) for d in f.decorator_list]
                if "property" in decs:
                    return self.call_func(FuncV(f, c.cls.module, c.cls, b), [], {}, st)
                if "staticmethod" in decs:
                    return FuncV(f, c.cls.module, c.cls)
                return FuncV(f, c.cls.module, c.cls, b)
            if name in c.cls.attrs and c.base is None:
                return self.eval(c.cls.attrs[name], Frame(self, c.cls.module, None, reg=st), st)
        if name == "__class__":
            return ClassV(c.cls) if c.cls is not None else N("attr", c.base, name)
        if name == "__dict__":
            return N("attr", self.freeze(b, st), "__dict__")
        if c.base is None:
            return N("attr", N("rec_", c.cls.name if c.cls else "?"), name)
        return self.lazy_field(b.cell, c, name)

    # -- subscripts
    def index(self, e, fr, st):
        if isinstance(e, ast.Slice):
            lo = NONE_ if e.lower is None else self.fz(e.lower, fr, st)
            if lo is ZERO and (e.step is None):
                lo = NONE_
            return N("slice", lo, NONE_ if e.upper is None else self.fz(e.upper, fr, st), NONE_ if e.step is None else self.fz(e.step, fr, st))
        if isinstance(e, ast.Tuple):
            return N("tuple", *[self.index(x, fr, st) for x in e.elts])
        return self.fz(e, fr, st)

    def e_Slice(self, e, fr, st):
        return self.index(e, fr, st)

    def e_Subscript(self, e, fr, st):
        b = self.eval(e.value, fr, st)
        k = self.index(e.slice, fr, st)
        return self.get_item(b, k, st)

    def get_item(self, b, k, st):
        if isinstance(b, Tup) and T.is_num(k):
            i = int(T.num(k))
            if -len(b.v) <= i < len(b.v):
                return b.v[i]
        if isinstance(b, RangeV):
            if T.is_num(k) and T.num(k) < 0:
                k = T.add(b.n, k)
            return b.elem(k, st)
        if isinstance(b, Ref):
            c = self.content(st, b)
            if isinstance(c, ListC) and T.is_num(k) and -len(c.v) <= T.num(k) < len(c.v):
                return c.v[int(T.num(k))]
            if isinstance(c, ListC) and k.op == "slice" and all(a is NONE_ or T.is_num(a) for a in k.args):
                sl = slice(*[None if a is NONE_ else int(T.num(a)) for a in k.args])
                return self.new_cell(st, ListC(c.v[sl]), ty="list")
            if isinstance(c, DictC) and k in c.d and (T.is_const(k) and all(T.is_const(q) for q in c.d) or list(c.d)[-1] is k):
                return c.d[k]
            if isinstance(c, ObjC) and c.cls is not None and "__getitem__" in c.cls.methods:
                return self.call_func(FuncV(c.cls.methods["__getitem__"], c.cls.module, c.cls, b), [k], {}, st)
            n = self.freeze(b, st)
            if k.op == "slice" or (k.op == "tuple" and any(a.op == "slice" for a in k.args)
                                   and all(a.op == "slice" or T.is_scalar_index(a) or a.op in ("in", "attr", "getitem") or self.nty(a) == "num" for a in k.args)):
                if self.ty(b, st) == "list":
                    return self.new_cell(st, T.mk_getitem(n, k), ty="list")
                if self.ty(b, st) == "arr" or k.op == "tuple":
                    return self.new_cell(st, ViewC(b, "slice", k), ty=self.ty(b, st))
                return self.new_cell(st, T.mk_getitem(n, k), ty=self.ty(b, st))
            if T.is_mask(k) or k.op in ("list", "map", "fmap", "tuple", "call", "mm"):
                return T.mk_getitem(n, k)
            r = T.mk_getitem(n, k)
            if r.op in ("c", "iv", "bv", "len", "fstr", "tuple", "func", "class") or T.is_bool(r):
                return r
            ty = self.nty(r)
            if ty == "num" or ty == "str":
                return r
            return self.new_cell(st, r, parent=(b, "item", k), ty=ty)
        n = self.freeze(b, st)
        return T.mk_getitem(n, k)

    # -- calls
    def e_Call(self, e, fr, st, stmt=False):
        self.curline = e.lineno
        self.curfile = fr.module.path
        # callee
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return N("super")
        callee = None
        recv = None
        mname = None
        if isinstance(e.func, ast.Attribute):
            b = self.eval(e.func.value, fr, st)
            mname = e.func.attr
            if isinstance(b, Ext) and (b.name in LOG_NAMES or b.name.split(".")[-1] in ("logger",)):
                if self.reports is fr.module and mname in ("info", "echo") and e.args:
                    self.report(e, fr, st)
                return NONE_
            if isinstance(b, (ModV, Ext, ClassV)):
                callee = self.get_attr(b, mname, st)
            elif isinstance(b, Ref) and isinstance(self.content(st, b), ObjC):
                c = self.content(st, b)
                if mname in c.fields:
                    callee = c.fields[mname]
                elif c.cls is not None and mname in c.cls.methods:
                    callee = self.obj_attr(b, c, mname, st)
                else:
                    recv = b
                    if c.cls is not None and c.base is not None and self.is_field(c.cls, mname):
                        callee = self.lazy_field(b.cell, c, mname)
            else:
                recv = b
        else:
            callee = self.eval(e.func, fr, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                it = self.iterate(v, st)
                if isinstance(it, list):
                    args += [t(st) for t in it]
                else:
                    args.append(N("star", self.freeze(v, st)))
            else:
                args.append(self.eval(a, fr, st))
        for k in e.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                c = self.content(st, v) if isinstance(v, Ref) else None
                if isinstance(c, DictC) and all(T.is_str(q) for q in c.d):
                    for q, x in c.d.items():
                        kwargs[q.args[1]] = x
                else:
                    alt = self.keyword_choice(v, st) if k is e.keywords[-1] and isinstance(callee, Ext) else None
                    if alt is not None:
                        # options gathered under a condition: the call is made once per case
                        vals = []
                        for d in alt[1:]:
                            s2 = st.copy()
                            vals.append(self.freeze(self.apply(callee, list(args), dict(kwargs, **d), s2, e, fr, stmt), s2))
                            if s2.eff != st.eff:
                                vals = None
                                break
                        if vals is not None:
                            return self.box(T.mk_ite(alt[0], *vals), st)
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if recv is not None and callee is None:
            return self.method_call(recv, mname, args, kwargs, st, e, fr, stmt)
        return self.apply(callee, args, kwargs, st, e, fr, stmt)

    def keyword_choice(self, v, st):
        """(condition, options, options) when v is one of two literal dictionaries and the choice is free of effects"""
        n = self.freeze(v, st)
        if n.op != "ite":
            return None
        out = []
        for a in n.args[1:]:
            if a.op != "dict" or not all(T.is_str(x) for x in a.args[::2]):
                return None
            out.append({x.args[1]: y for x, y in zip(a.args[::2], a.args[1::2])})
        return (n.args[0], out[0], out[1])

    def report(self, e, fr, st):
        """data written to the log (the wording of the message is not part of it)"""
        s2 = st.copy()
        self.report_values([self.freeze(self.eval(a, fr, s2), s2) for a in e.args], e, fr, st)

    def report_values(self, args, e, fr, st):
        vals = []
        for a in args:
            n = self.freeze(a, st)
            vals += [x for x in (n.args if n.op == "fstr" else (n,)) if isinstance(x, T.Node) and x.op != "c"]
        vals = [x.args[0] if x.op == "fmt" else x for x in vals]
        if vals:
            st.eff = st.eff + ((st.gate, N("report", *vals), self.loc(e, fr)),)

    def is_field(self, cls, name):
        ft = self.fieldcls.get(cls)
        if ft is None:
            ft = infer_fields(cls, self.tree)
            self.fieldcls[cls] = ft
        return name in ft

    def apply(self, f, args, kwargs, st, e=None, fr=None, stmt=False):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, st)
        if isinstance(f, ClassV):
            return self.construct(f.info, args, kwargs, st)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs, st, e, fr, stmt)
        if isinstance(f, MethV):
            return self.method_call(f.recv, f.name, args, kwargs, st, e, fr, stmt)
        n = self.freeze(f, st)
        if n.op == "ite" and all(x.op in ("ext", "func") for x in (n.args[1], n.args[2])):
            pass
        if n.op == "ext":
            return self.call_ext(n.args[0], args, kwargs, st, e, fr, stmt)
        return N("apply", n, *self.fargs(args, kwargs, st))

    def fargs(self, args, kwargs, st):
        return [self.freeze(a, st) for a in args] + [N("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]

    def bind_args(self, f, args, kwargs, st, skip_self):
        """name -> value following the signature; raises Unsupported on mismatch"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and pos:
            pos = pos[1:]
        out = {}
        rest = []
        for i, v in enumerate(args):
            if isinstance(v, T.Node) and v.op == "star":
                raise Unsupported("star args")
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            raise Unsupported("too many arguments for " + f.qual)
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(rest)
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == "**":
                raise Unsupported("kwargs")
            if k in pos or k in konly:
                out[k] = v
            elif a.kwarg is not None:
                extra[C(k)] = v
            else:
                raise Unsupported("unexpected argument %s for %s" % (k, f.qual))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_cell(st, DictC(extra), ty="dict")
        # defaults
        dpos = (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]
        for x, d in zip(dpos, a.defaults):
            if x.arg not in out:
                out[x.arg] = self.default(d, f, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default(d, f, st)
        for p in pos + konly:
            if p not in out:
                out[p] = N("missing", p)
        return out

    def default(self, d, f, st):
        if f.frame is not None:
            return self.box(self.eval(d, f.frame, st), st)
        return self.box(self.eval(d, Frame(self, f.module, None, reg=st), st), st)

    def call_func(self, f, args, kwargs, st, inline=False):
        decs = [ast.unparse(d) for d in getattr(f.node, "decorator_list", [])]
        skip_self = f.selfv is not None
        if "classmethod" in decs:
            skip_self = True
        if f.qual in self.boundary and not inline and f.frame is None:
            return self.boundary_call(f, args, kwargs, st, skip_self)
        if self.depth >= self.max_depth or self.callstack.count(f.node) >= 1 or has_yield(f.node):
            return self.boundary_call(f, args, kwargs, st, skip_self)
        try:
            bound = self.bind_args(f, args, kwargs, st, skip_self)
        except Unsupported:
            return self.boundary_call(f, args, kwargs, st, skip_self)
        fr = Frame(self, f.module, f.frame)
        env = {}
        if skip_self:
            a0 = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            env[a0] = f.selfv if f.selfv is not None else ClassV(f.cls)
        for k, v in bound.items():
            env[k] = self.box(v, st)
        st.frames[fr.id] = env
        self.depth += 1
        self.callstack.append(f.node)
        line, file = self.curline, self.curfile
        self.inlined.add(f.qual)
        gate0 = st.gate
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, fr, st)
                st.frames.pop(fr.id, None)
                return v
            o = self.exec_block(f.node.body, st, fr)
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.curline, self.curfile = line, file
        x = o.get("exc")
        if x is not None and x[0] is not FALSE:
            xs = x[1].copy()
            xs.frames.pop(fr.id, None)
            xs.gate = gate0
            self.pending.append((x[0], gate0, xs))
        v, s = self.finish(o)
        if s is None:
            # always raises
            s = x[1] if x is not None else st
            v = N("never")
        v = self.drop_frame(v, fr)
        s.frames.pop(fr.id, None)
        s.gate = gate0
        st.assign(s)
        return v

    def drop_frame(self, v, fr):
        return v

    def finish(self, o):
        """merge return and fall-through exits -> (value, state)"""
        r, f = o.get("ret"), o.get("fall")
        if r is None and f is None:
            return None, None
        if r is None:
            return NONE_, f[1]
        if f is None:
            return r[2], r[1]
        s = self.merge_states(r[0], r[1], f[1])
        v = self.merge_value(r[0], r[2], NONE_, r[1], f[1], s)
        return v, s

    def call_node(self, f, args, kwargs, st, skip_self):
        try:
            bound = self.bind_args(f, args, kwargs, st, skip_self)
            sig = self.ref_sigs.get(f.qual) if self.ref_sigs is not None else None
            items = []
            for k, v in sorted(bound.items()):
                fv = self.freeze(v, st)
                if sig is not None and k not in sig:
                    given = k in kwargs
                    if not given:
                        continue
                items.append(N("kw", k, fv))
        except Unsupported:
            items = self.fargs(args, kwargs, st)
        if f.selfv is not None:
            items = [N("kw", "self", self.freeze(f.selfv, st))] + items
        return N("call", "@" + f.qual, *items)

    def boundary_call(self, f, args, kwargs, st, skip_self):
        self.opaque_calls.add(f.qual)
        node = self.call_node(f, args, kwargs, st, skip_self)
        if isinstance(f.selfv, Ref) and f.qual.split(".")[-1] in self.mutating_methods():
            c = self.content(st, f.selfv)
            if isinstance(c, ObjC):
                new = ObjC(c.cls, N("after", node), {})
                self.write(st, f.selfv, new)
        if f.qual in self.io_boundary():
            st.eff = st.eff + ((st.gate, N("io", node), (self.curfile, self.curline)),)
        return N("ret", node)

    _mm = None

    def mutating_methods(self):
        return {"train", "initialize", "run", "_run", "compile_results", "load", "add_constraint", "add_expression", "generate", "_update_data", "add_model", "summary_",
                "perturb", "compare", "_compile_results", "calculate_statistics", "features_metrics", "update_contribution", "get_data_", "exclude_factors", "build_catalog", "set_category",
                "add_sa", "_generate_data", "_generate_profiles", "mark_low_mse"}

    def io_boundary(self):
        return {"BatchSA.save", "SA.save", "Bootstrap.save", "Displacement.save", "BSDISP.save", "ConstrainedModel.save", "Simulator.save",
                "BatchSA.train", "SA.train", "SA.initialize", "Bootstrap.run", "Displacement.run", "BSDISP.run", "ConstrainedModel.train", "DataHandler.set_category"}

    def construct(self, info, args, kwargs, st):
        init = info.methods.get("__init__")
        if info.name in self.class_boundary or init is None or self.depth >= self.max_depth or self.callstack.count(init) >= 1:
            if init is not None:
                node = self.call_node(FuncV(init, info.module, info), args, kwargs, st, True) if False else None
                f = FuncV(init, info.module, info)
                try:
                    bound = self.bind_args(f, args, kwargs, st, True)
                    sig = self.ref_sigs.get(f.qual) if self.ref_sigs is not None else None
                    items = [N("kw", k, self.freeze(v, st)) for k, v in sorted(bound.items()) if sig is None or k in sig or k in kwargs]
                except Unsupported:
                    items = self.fargs(args, kwargs, st)
            else:
                items = self.fargs(args, kwargs, st)
            self.opaque_calls.add(info.name)
            node = N("new", info.name, *items)
            return self.new_cell(st, ObjC(info, node, {}), ty="obj", cls=info)
        r = self.new_cell(st, ObjC(info, None, {}), ty="obj", cls=info)
        self.call_func(FuncV(init, info.module, info, r), args, kwargs, st, inline=True)
        return r

    # ------------------------------------------------------------ external calls
    def call_ext(self, name, args, kwargs, st, e, fr, stmt=False):
        from .extern import call_ext
        return call_ext(self, name, args, kwargs, st, e, fr, stmt)

    def method_call(self, recv, name, args, kwargs, st, e, fr, stmt=False):
        from .extern import method_call
        return method_call(self, recv, name, args, kwargs, st, e, fr, stmt)

    # ------------------------------------------------------------ entry
    def analyse(self, qual, concrete_defaults=False):
        """summary of one function of the tree: dict observable -> term"""
        self.reports = self.tree.find(qual)[0] if REPORTS.search(qual) and self.tree.find(qual) else None
        found = self.tree.find(qual)
        if found is None:
            return None
        module, cls, node = found
        st = State()
        fr = Frame(self, module, None)
        env = {}
        st.frames[fr.id] = env
        a = node.args
        params = a.posonlyargs + a.args
        decs = [ast.unparse(d) for d in node.decorator_list]
        inputs = {}
        isinit = cls is not None and node.name == "__init__"
        selfref = None
        if cls is not None and "staticmethod" not in decs:
            p0 = params[0].arg
            params = params[1:]
            if "classmethod" in decs:
                env[p0] = ClassV(cls)
            else:
                if isinit:
                    selfref = self.new_cell(st, ObjC(cls, None, {}), ty="obj", cls=cls, origin=None)
                else:
                    base = N("in", "self")
                    selfref = self.new_cell(st, ObjC(cls, base, {}), ty="obj", cls=cls, origin="self")
                env[p0] = selfref
        for p in params + a.kwonlyargs:
            env[p.arg] = self.input_param(p.arg, p.annotation, module, st)
            if isinstance(env[p.arg], Ref):
                inputs[p.arg] = env[p.arg]
        if a.vararg is not None:
            env[a.vararg.arg] = self.new_cell(st, N("in", "*" + a.vararg.arg))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_cell(st, N("in", "**" + a.kwarg.arg), ty="dict")
        st0 = st.copy()
        self.callstack.append(node)
        o = self.exec_block(node.body, st, fr)
        self.callstack.pop()
        v, s = self.finish(o)
        if s is None:
            x = o.get("exc")
            s = x[1] if x is not None else st
            v = N("never")
        out = Summary(qual)
        out.ret = self.freeze(v, s)
        if "exc" in o:
            out.raises = o["exc"][0]
        if selfref is not None:
            c = self.content(s, selfref)
            if isinstance(c, ObjC):
                out.selfbase = c.base
                for k, x in c.fields.items():
                    out.fields[k] = self.freeze(x, s)
                # lazily read fields whose content changed in place
                for (cell, base, nm), r in list(self.lazy.items()):
                    if cell == selfref.cell and isinstance(r, Ref) and nm not in c.fields and r.cell in s.store and base is c.base:
                        nv = self.freeze(r, s)
                        if nv is not T.mk_attr(base, nm):
                            out.fields[nm] = nv
        for p, r in inputs.items():
            nv = self.freeze(r, s)
            if nv is not N("in", p):
                # objects: only in-place changes of the object or of its parts
                out.params[p] = nv
            else:
                for (cell, base, nm), q in list(self.lazy.items()):
                    if cell == r.cell and isinstance(q, Ref) and q.cell in s.store:
                        nv = self.freeze(q, s)
                        if nv is not T.mk_attr(base, nm):
                            out.params[p + "." + nm] = nv
        # deep lazies: any symbolic input part whose content changed
        for (cell, base, nm), q in list(self.lazy.items()):
            if isinstance(q, Ref) and q.cell in s.store and self.meta[q.cell].origin:
                nv = self.freeze(q, s)
                m = self.meta[q.cell]
                init = m.init.base if isinstance(m.init, ObjC) else m.init
                if nv is not init:
                    out.deep[m.origin] = nv
        if isinstance(out.raises, T.Node) and out.raises not in (TRUE, FALSE):
            # nothing is returned, and nothing is promised of the state, where the call raises
            no = N("raised")
            out.ret = T.mk_ite(out.raises, no, out.ret)
            for d in (out.fields, out.params, out.deep):
                for k in d:
                    d[k] = T.mk_ite(out.raises, no, d[k])
        out.eff = tuple((T.canon(g), T.canon(e), l) for g, e, l in s.eff)
        out.ret = T.canon(out.ret)
        for d in (out.fields, out.params, out.deep):
            for k in d:
                d[k] = T.canon(d[k])
        if isinstance(out.raises, T.Node):
            out.raises = T.canon(out.raises)
        out.inlined = set(self.inlined)
        out.opaque = set(self.opaque_calls)
        out.writes = list(self.writes)
        out.meta = self.meta
        out.sig = signature(node, cls is not None and "staticmethod" not in decs)
        out.path = module.path
        out.line = node.lineno
        return out

    def input_param(self, name, ann, module, st):
        n = N("in", name)
        ty, cls = ann_type(ann, module, self.tree)
        if ty in ("num", "str"):
            self.leafty[n] = ty
            return n
        if cls is not None:
            return self.new_cell(st, ObjC(cls, n, {}), ty="obj", cls=cls, origin=name)
        if ty is not None:
            self.leafty[n] = ty
        return self.new_cell(st, n, ty=ty, origin=name)


class Summary:
    def __init__(self, qual):
        self.qual = qual
        self.ret = None
        self.raises = None
        self.fields, self.params, self.deep = {}, {}, {}
        self.eff = ()
        self.selfbase = None


class Frame:
    __slots__ = ("id", "module", "parent", "nonlocals")

    def __init__(self, it, module, parent, reg=None):
        it.nframe += 1
        self.id = it.nframe
        self.module = module
        self.parent = parent
        self.nonlocals = set()
        if reg is not None:
            reg.frames[self.id] = {}


# ---------------------------------------------------------------- helpers
def canon_dict(a):
    """dict term; constant keys in canonical order when all keys are constants"""
    pairs = list(zip(a[::2], a[1::2]))
    return N("dict", *[x for p in pairs for x in p])


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.v) == len(b.v) and all(same_value(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.node is b.node
    if isinstance(a, (ClassV, ModV, Ext)) and type(a) is type(b):
        return True
    return False


def copy_load(t):
    import copy
    x = copy.copy(t)
    x.ctx = ast.Load()
    return x


def called_names(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                yield f.attr
            elif isinstance(f, ast.Name):
                yield f.id


def test_is_true(t):
    return isinstance(t, ast.Constant) and bool(t.value)


_HY = {}
_COMP = {}


def has_yield(node):
    if node not in _HY:
        _HY[node] = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
    return _HY[node]


def signature(node, method):
    a = node.args
    ps = a.posonlyargs + a.args
    dflt = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    if method:
        ps = ps[1:]
    return [(p.arg, ast.unparse(dflt[p.arg]) if p.arg in dflt else None) for p in ps + a.kwonlyargs]


def ann_type(ann, module, tree):
    if ann is None:
        return None, None
    try:
        s = ast.unparse(ann)
    except Exception:
        return None, None
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        s = ann.value
    for nm in ("ndarray",):
        if nm in s:
            return "arr", None
    if "DataFrame" in s:
        return "df", None
    base = s.replace("Union[", "").replace("Optional[", "").replace("]", "").split(",")
    base = [b.strip() for b in base if b.strip() not in ("None", "")]
    if len(base) == 1:
        b = base[0]
        if b in ("int", "float", "bool"):
            return "num", None
        if b == "str":
            return "str", None
        if b.startswith("list") or b.startswith("List"):
            return "list", None
        if b.startswith("dict") or b.startswith("Dict"):
            return "dict", None
        c = None
        if b in module.classes:
            c = module.classes[b]
        elif b in module.imports or True:
            c = tree.find_class(b.split(".")[-1])
        if c is not None:
            return "obj", c
    return None, None


def container_fields(cls):
    """fields that are a list or a dictionary from the constructor on"""
    init = cls.methods.get("__init__")
    good, bad = set(), set()
    for f in cls.methods.values():
        params = {a.arg for a in f.args.args + f.args.kwonlyargs}
        selfname = f.args.args[0].arg if f.args.args else None
        for s in ast.walk(f):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
            for t in ts:
                for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == selfname:
                        v = s.value
                        if u is not t or v is None or isinstance(v, ast.Constant) or isinstance(v, ast.Name) and v.id in params:
                            bad.add(u.attr)
                        elif f is init and isinstance(v, (ast.List, ast.Dict)):
                            good.add(u.attr)
    return good - bad


def infer_fields(cls, tree):
    """field -> (type hint, class) from assignments in the methods of a class"""
    out = {}
    module = cls.module
    init = cls.methods.get("__init__")
    order = ([init] if init is not None else []) + [f for n, f in cls.methods.items() if n != "__init__"]
    for f in order:
        ann = {p.arg: p.annotation for p in f.args.args + f.args.kwonlyargs}
        selfname = f.args.args[0].arg if f.args.args else None
        local = {}
        for s in ast.walk(f):
            for t in (s.targets if isinstance(s, ast.Assign) else ()):
                if isinstance(t, ast.Name):
                    local.setdefault(t.id, []).append(s.value)
        local = {k: v[0] for k, v in local.items() if len(v) == 1 and k not in ann and not isinstance(v[0], ast.Name)}
        for s in ast.walk(f):
            tgt = None
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfname:
                        v = local.get(s.value.id, s.value) if isinstance(s.value, ast.Name) else s.value
                        tgt = (t.attr, v, None)
                        _field(out, tgt, ann, module, tree)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == selfname:
                tgt = (s.target.attr, s.value, s.annotation)
                _field(out, tgt, ann, module, tree)
    return out


def _field(out, tgt, ann, module, tree):
    name, value, annotation = tgt
    if out.get(name, (None, None)) != (None, None):
        return
    r = (None, None)
    if annotation is not None:
        r = ann_type(annotation, module, tree)
    if r == (None, None) and isinstance(value, ast.Name) and value.id in ann:
        r = ann_type(ann[value.id], module, tree)
    if r == (None, None) and isinstance(value, ast.Call):
        fn = value.func
        nm = fn.id if isinstance(fn, ast.Name) else (fn.attr if isinstance(fn, ast.Attribute) else None)
        c = tree.find_class(nm) if nm else None
        if c is not None:
            r = ("obj", c)
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "np" and nm in ("zeros", "ones", "array", "matmul", "multiply", "divide", "full"):
            r = ("arr", None)
        elif nm == "copy" and isinstance(fn, ast.Attribute):
            pass
        elif nm == "astype":
            r = ("arr", None)
    if r == (None, None) and isinstance(value, (ast.List, ast.ListComp)):
        r = ("list", None)
    if r == (None, None) and isinstance(value, (ast.Dict, ast.DictComp)):
        r = ("dict", None)
    if name not in out or out[name] == (None, None):
        out[name] = r


def mk_concat(n, iv, cond, x):
    """list of the items of x (a list term) for iv in range(n) if cond"""
    if x.op == "list" and len(x.args) == 1:
        return T.mk_fmap(n, iv, cond, x.args[0])
    if x.op == "list" and not x.args:
        return x
    if x.op == "ite" and x.args[1].op == "list" and not x.args[1].args and x.args[2].op == "list" and len(x.args[2].args) == 1:
        return T.mk_fmap(n, iv, T.mk_and(cond, T.mk_not(x.args[0])), x.args[2].args[0])
    if x.op == "ite" and x.args[2].op == "list" and not x.args[2].args and x.args[1].op == "list" and len(x.args[1].args) == 1:
        return T.mk_fmap(n, iv, T.mk_and(cond, x.args[0]), x.args[1].args[0])
    if cond is not TRUE:
        x = T.mk_ite(cond, x, N("list"))
    return N("cat", n, T.bind((iv,), x))


def dict_from_pairs(n):
    """dict term of a list term of (key, value) tuples"""
    if n.op == "list" and all(a.op == "tuple" and len(a.args) == 2 for a in n.args):
        d = {}
        for a in n.args:
            d[a.args[0]] = a.args[1]
        return canon_dict([y for k, v in d.items() for y in (k, v)])
    if n.op in ("map", "fmap"):
        v = T.fresh()
        if n.op == "map":
            cond, body = TRUE, T.open_bind(n.args[1], (v,))
        else:
            cond, body = T.open_multi(n.args[1], (v,))
        if body.op == "tuple" and len(body.args) == 2:
            return N("scatter", N("dict"), n.args[0], T.bind((v,), cond, body.args[0], body.args[1]))
    return N("dictof", n)


# ---------------------------------------------------------------- loop solving
def solve_loop(n, iv, keys, st_of, init, step, ex, bval, fixed=()):
    """closed forms of the loop-carried values; returns ({key: result}, iteration count, renaming of placeholders)"""
    ren = {}
    changed = True
    guard = 0
    res = {}
    live = list(keys)

    def sub_all(m):
        nonlocal ex
        for k in keys:
            step[k] = T.subst(step[k], m)
            bval[k] = T.subst(bval[k], m)
        ex = T.subst(ex, m)
        for a in list(ren):
            ren[a] = T.subst(ren[a], m)
        ren.update(m)

    for k in fixed:
        closed, d = fixed[k]
        ren[st_of[k]] = closed
        if n is INF:
            nn, ex2, ok = counted(ex, iv, keys, st_of, bval, None, closed)
            if ok:
                n, ex = nn, ex2
                for q in keys:
                    bval[q] = strip_end(bval[q], iv, nn, st_of[q])
    while changed and guard < 8:
        guard += 1
        changed = False
        for k in list(live):
            x = st_of[k]
            if x in ren:
                continue
            # unchanged
            if step[k] is x and bval[k] is x:
                sub_all({x: init[k]})
                res[k] = init[k]
                changed = True
                continue
            # constant value
            if step[k] is init[k] and (bval[k] is x or bval[k] is init[k]):
                sub_all({x: init[k]})
                res[k] = init[k]
                changed = True
                continue
            # assigned from the iteration number alone, the initial value continuing the sequence
            if iv in step[k].free and init[k] is not UNDEF and not (step[k].free & set(st_of.values())):
                closed = T.subst(step[k], {iv: T.sub(iv, ONE)})
                if T.subst(closed, {iv: ZERO}) is init[k]:
                    last = step[k]
                    sub_all({x: closed})
                    if ex is FALSE and n is not INF:
                        res[k] = T.subst(last, {iv: T.sub(n, ONE)})
                    changed = True
                    continue
            # induction variable
            d = T.sub(step[k], x) if step[k].op in ("add",) or step[k].op == "c" else None
            if d is not None and T.is_num(d) and init[k] is not UNDEF:
                closed = T.add(init[k], T.scale(iv, T.num(d)))
                if n is INF and d is ONE:
                    nn, ex2, ok = counted(ex, x, keys, st_of, bval, iv, closed)
                    if ok:
                        n = T.sub(nn, init[k])
                        ex = ex2
                        for q in keys:
                            # values at the natural end are the running values
                            bval[q] = strip_end(bval[q], x, nn, st_of[q])
                sub_all({x: closed})
                if ex is FALSE:
                    res[k] = T.add(init[k], T.scale(n, T.num(d)))
                elif n is INF and bval[k] is closed and iv not in init[k].free:
                    res[k] = None
                changed = True
    for k in fixed:
        if ex is FALSE:
            res[k] = T.add(init[k], T.mul(n, fixed[k][1]))
    decompose(n, iv, keys, st_of, init, step, ren, sub_all)
    # remaining: results
    for k in keys:
        if res.get(k) is not None:
            continue
        res[k] = close_var(k, n, iv, keys, st_of, init, step, ex, bval, ren)
    return res, n, ren


def decompose(n, iv, keys, st_of, init, step, ren, sub_all):
    """closed forms, in terms of the iteration number, of groups of loop-carried values that depend on
    each other only; the groups are solved in dependency order"""
    while True:
        live = [k for k in keys if st_of[k] not in ren]
        if not live:
            return
        by = {st_of[k]: k for k in live}
        dep = {k: {by[x] for x in step[k].free if x in by} for k in live}
        # a group without outside dependencies: smallest closed set
        best = None
        for k in live:
            seen, todo = set(), [k]
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                todo += dep[q]
            if best is None or len(seen) < len(best):
                best = seen
        grp = [k for k in live if k in best]
        if any(init[k] is UNDEF and k[0] == "ret" for k in grp):
            # pseudo values only matter at the exit
            pass
        m = {}
        if len(grp) == 1:
            k = grp[0]
            r = idiom(st_of[k], step[k], init[k], iv, iv, {st_of[k]})
            if r is not None:
                m[st_of[k]] = r
        if not m:
            for k in grp:
                ks = [k] + [q for q in grp if q != k]
                m[st_of[k]] = T.mk_mu(iv, [init[q] for q in ks], iv, [st_of[q] for q in ks], FALSE, [step[q] for q in ks], ())
        sub_all(m)


def counted(ex, x, keys, st_of, bval, iv, closed):
    """while-loop with a counter: ex = not (N - x > 0) or inner break"""
    for a in sorted(ex.conds | (frozenset([ex.args[0]]) if ex.op == "not" else frozenset()), key=lambda q: q.key):
        if a.op != "gt0" and a.op != "ge0":
            continue
        for val in (True, False):
            if T.restrict(ex, a, val) is TRUE:
                # loop stops when a == val ; continues when a == (not val)
                p = a.args[0]
                # a: p > 0
                pp = T.to_poly(p)
                c = None
                for m, q in pp.items():
                    if len(m) == 1 and m[0][0] is x and m[0][1] == 1:
                        c = q
                if c is None:
                    continue
                rest = T.sub(p, T.scale(x, c))
                if any(s in rest.free for s in st_of.values()) or iv is not None and iv in rest.free:
                    continue
                # continue-condition
                if c == -1 and val is False and a.op == "gt0":
                    nn = rest                       # rest - x > 0
                elif c == -1 and val is False and a.op == "ge0":
                    nn = T.add(rest, ONE)
                elif c == 1 and val is True and a.op == "gt0":
                    nn = T.add(T.neg(rest), ONE)    # stops when x + rest > 0: continues while x <= -rest
                elif c == 1 and val is True and a.op == "ge0":
                    nn = T.neg(rest)
                else:
                    continue
                # at the end of the count, every value is the running value
                if any(T.restrict(bval[q], a, val) is not st_of[q] for q in bval if bval[q] is not st_of[q] and st_of[q] is not x
                       and not (closed is not None and bval[q] is closed)):
                    continue
                return nn, T.restrict(ex, a, not val), True
    return None, ex, False


def strip_end(b, x, nn, me):
    """value at exit, given that the exit is not the natural end of the count"""
    a = T.gt0(T.sub(nn, x))
    if a.op == "not":
        return T.restrict(b, a.args[0], False)
    if a.op in T.ATOM_OPS:
        return T.restrict(b, a, True)
    return b


def close_var(k, n, iv, keys, st_of, init, step, ex, bval, ren):
    x = st_of[k]
    if x in ren and ex is FALSE:
        return T.subst(ren[x], {iv: n})
    s, b, i0 = step[k], bval[k], init[k]
    allst = set(st_of.values())
    if ex is FALSE:
        r = idiom(x, s, i0, n, iv, allst)
        if r is not None:
            return r
    elif x in ren and not (ex.free & allst) and not (b.free & allst):
        # the exit condition is known for every iteration: the value at the first exit, else at the end
        val = b if iv not in b.free else N("first", n, T.bind((iv,), ex, b))
        if n is INF:
            return val
        return T.mk_ite(T.mk_red("any", n, iv, ex), val, T.subst(ren[x], {iv: n}))
    return general_mu(k, n, iv, keys, st_of, init, step, ex, bval)


def idiom(x, s, i0, n, iv, allst):
    """closed form of a single loop-carried value"""
    others = allst - {x}
    if s.free & others:
        return None
    # last value
    if x not in s.free:
        if iv not in s.free:
            if n is INF:
                return None
            return T.mk_ite(T.gt0(n), s, i0) if i0 is not UNDEF else s
        v = T.subst(s, {iv: T.sub(n, ONE)})
        return v if i0 is UNDEF else T.mk_ite(T.gt0(n), v, i0)
    # append
    ap = as_append(s, x)
    if ap is not None and x not in ap.free:
        return T.mk_lcat(i0, mk_concat(n, iv, TRUE, ap))
    # sum
    e = as_sum(s, x)
    if e is not None and x not in e.free:
        return T.add(i0, T.mk_red("sum", n, iv, e))
    # scatter
    sc = as_scatter(s, x)
    if sc is not None:
        cond, key, val = sc
        k2 = T.order_free(key, iv)
        if k2 is not key and T.slope(k2, iv):
            # results arrive in any order, but every task has its own key
            cond, key, val = T.order_free(cond, iv), k2, T.order_free(val, iv)
        if x in val.free or x in cond.free:
            # the element itself before the update: no earlier iteration has touched it
            old = T.mk_getitem(x, key)
            if x not in key.free and (T.slope(key, iv) or key.op == "keyat" and key.args[1] is iv):
                m = {old: T.mk_getitem(i0, key)}
                cond, val = T.replace(cond, m), T.replace(val, m)
        if x not in cond.free and x not in key.free and x not in val.free:
            if key is iv and cond is TRUE and i0.op in ("repeat", "list") and T.mk_len(i0) is n:
                return T.mk_map(n, iv, val)
            if key is iv and cond is TRUE and i0.op == "call" and i0.args[0] in ("np.zeros", "np.ones", "np.empty") and i0.args[1] is n:
                return T.mk_map(n, iv, val)
            return N("scatter", i0, n, T.bind((iv,), cond, key, val))
    # running any / all
    if T.is_bool(s):
        t, f = T.restrict(s, x, True) if x.op != "st" else bool_cof(s, x, True), bool_cof(s, x, False)
    # running max / min
    mx = as_minmax(s, x)
    if mx is not None and x not in mx[1].free:
        return T.mk_minmax(mx[0] + "n", (i0, N("red", mx[0], n, T.bind((iv,), mx[1]))))
    return None


def bool_cof(s, x, v):
    return T.subst(s, {x: C(v)})


def as_append(s, x):
    """s == x ++ list-term -> list term"""
    if s.op == "lcat" and s.args[0] is x:
        return T.mk_lcat(*s.args[1:])
    if s.op == "ite":
        a = N("list") if s.args[1] is x else as_append(s.args[1], x)
        b = N("list") if s.args[2] is x else as_append(s.args[2], x)
        if a is not None and b is not None and x not in s.args[0].free:
            return T.mk_ite(s.args[0], a, b)
    return None


def as_sum(s, x):
    if s is x:
        return ZERO
    if s.op == "ite" and x not in s.args[0].free:
        a, b = as_sum(s.args[1], x), as_sum(s.args[2], x)
        if a is not None and b is not None:
            return T.mk_ite(s.args[0], a, b)
        return None
    if s.op == "add":
        d = T.sub(s, x)
        if x not in d.free:
            return d
    return None


def as_scatter(s, x):
    if s.op == "setitem" and s.args[0] is x:
        return TRUE, s.args[1], s.args[2]
    if s.op == "ite" and x not in s.args[0].free:
        if s.args[2] is x:
            r = as_scatter(s.args[1], x)
            if r is not None:
                return T.mk_and(s.args[0], r[0]), r[1], r[2]
        elif s.args[1] is x:
            r = as_scatter(s.args[2], x)
            if r is not None:
                return T.mk_and(T.mk_not(s.args[0]), r[0]), r[1], r[2]
        else:
            a, b = as_scatter(s.args[1], x), as_scatter(s.args[2], x)
            if a is not None and b is not None and a[1] is b[1] and a[0] is TRUE and b[0] is TRUE:
                return TRUE, a[1], T.mk_ite(s.args[0], a[2], b[2])
    return None


def as_minmax(s, x):
    if s.op in ("maxn", "minn") and x in s.args:
        rest = [a for a in s.args if a is not x]
        if rest:
            return s.op[:3], T.mk_minmax(s.op, rest)
    if s.op == "ite" and s.args[0].op in ("gt0", "ge0"):
        c, a, b = s.args
        p = c.args[0]
        # a if p>0 else b with {a,b} = {x,e}
        for val, e, hi in ((a, b, None),):
            pass
        if x is a or x is b:
            e = b if x is a else a
            d = T.sub(e, x)
            if p is d or T.scale(p, -1) is d:
                # cond true -> a
                pos = p is d          # cond: e > x
                chosen = a
                if pos:
                    return ("max" if chosen is e else "min"), e
                return ("min" if chosen is e else "max"), e
    return None


def general_mu(k, n, iv, keys, st_of, init, step, ex, bval):
    ks = [k] + [q for q in keys if q != k]
    return T.mk_mu(n, [init[q] for q in ks], iv, [st_of[q] for q in ks], ex, [step[q] for q in ks], [bval[q] for q in ks] if ex is not FALSE else ())
