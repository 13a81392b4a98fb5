"""Difference of two value terms.

Both terms are normal forms of the same observable: one from the analysed tree,
one from the audited reference model.  Equal normal forms discharge the
obligation.  Otherwise the terms are descended in parallel to the places where
they disagree, and each place is classified:

  definite  both sides are fully interpreted and denote different values or
            depend on different inputs: a violation
  unknown   the two sides are built from constructs whose equality the algebra
            cannot decide (a loop the solver could not close against a closed
            form, an external function the reference does not use, ...):
            reported as undecided, never as a violation
"""
from fractions import Fraction
import itertools

from . import explain, terms as T
from .terms import N, C, Node, TRUE, FALSE

HARD = {"mu", "closure", "cyc", "unview", "mutated", "loopst", "loopeff", "excval", "starpart", "undef", "never", "missing",
        "super", "apply", "popped", "lam", "iv", "st", "global", "star", "dictu", "dictof", "unordered", "reducex"}
BINDERS = {"map", "fmap", "red", "first", "scatter", "cat", "mu", "lam", "lcat", "repeat", "setof", "setdiff"}
SIZE = {"len", "dim"}
COMM = {"maxn", "minn", "bitor", "bitand"}
FAMILIES = [
    {"np.min", "np.max", "np.mean", "np.sum", "np.median", "np.std", "np.var", "np.prod"},
    {"np.argmin", "np.argmax", ".argmin", ".argmax", ".idxmin", ".idxmax"},
    {"np.zeros", "np.ones"}, {"np.floor", "np.ceil", "np.round", "round", "int"},
    {"np.nanmin", "np.nanmax", "np.nanmean", "np.nansum", "np.nanmedian"},
    {"np.cumsum", "np.cumprod"}, {"np.log", "np.log10", "np.log2", "np.exp", "math.log", "math.exp", "np.log1p"},
    {"np.sin", "np.cos", "np.tan", "math.sin", "math.cos"},
    {".ffill", ".bfill"}, {".lower", ".upper"}, {".startswith", ".endswith"}, {".head", ".tail"},
    {"np.percentile", "np.quantile"}, {"np.vstack", "np.hstack"}, {".isna", ".notna"},
    {"os.path.exists", "os.path.isabs", "os.path.isfile", "os.path.isdir"},
    {"pickle.dump", "pickle.dumps", "json.dump"},
    {"np.random.random", "np.random.rand", "np.random.normal", "np.random.uniform"},
]
FAM = {}
for _i, _f in enumerate(FAMILIES):
    for _n in _f:
        FAM[_n] = _i


def reach(n, memo={}):
    r = memo.get(n)
    if r is None:
        out = {n}
        stack = [n]
        while stack:
            x = stack.pop()
            for a in x.args:
                if isinstance(a, Node) and a not in out:
                    out.add(a)
                    stack.append(a)
        r = frozenset(out)
        if len(memo) > 4000:
            memo.clear()
        memo[n] = r
    return r


def head(n):
    if n.op == "call":
        return n.args[0]
    if n.op in ("reduce", "red"):
        return "%s:%s" % (n.op, n.args[0])
    if n.op in ("new", "rec"):
        return "%s:%s" % (n.op, n.args[0])
    return None


def parts(n, memo={}):
    """canonical sub-terms of n: open variables and binder numbers do not count"""
    r = memo.get(n)
    if r is None:
        if len(memo) > 4000:
            memo.clear()
        try:
            r = frozenset(explain.Graph(n).kids)
        except (explain.TooLarge, RecursionError):
            r = reach(n)
        memo[n] = r
    return r


def region(n):
    """conditions and outcomes of a decision diagram"""
    conds, vals, seen, stack = set(), set(), set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            conds.add(x.args[0])
            stack += [x.args[1], x.args[2]]
        elif x.op == "not":
            vals.add(x.args[0])
        else:
            vals.add(x)
    bools = {v for v in vals if v.op in T.ATOM_OPS}
    return conds | bools, vals - bools


def fill(n, m):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                r = T.mk_ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
            elif x.op == "not":
                r = T.mk_not(go(x.args[0]))
            else:
                r = m.get(x, x)
            memo[x] = r
        return r
    return go(n)


def vnames(n):
    """variables opened by the comparison, renamed to level variables (outer loops first)"""
    fs = [v for v in n.free if v.op == "bv" and str(v.args[0]).startswith("x")]
    if not fs:
        return n

    def order(v):
        i, h, g = str(v.args[0])[1:].split("_")
        return (-int(h), -int(g), int(i))
    fs.sort(key=order)
    return T.subst(n, {v: N("bv", "L%03d" % i) for i, v in enumerate(fs)})


def weight(ms):
    return (sum(1 for m in ms if m.kind != "definite"), len(ms))


def a_not_self(x, y):
    return x is not y


def trivial(c):
    """emptiness, type and presence tests: often redundant guards"""
    if c.op in ("isinst", "hasattr", "exc", "undef"):
        return True
    if c.op in ("eq", "eq0", "gt0", "ge0", "truth"):
        if any(x.op in ("undef", "excval", "exc", "missing", "never") for x in parts(c)):
            return True
        if c.op == "eq" and T.NONE_ in c.args:
            return True
        for x in c.args:
            for m in T.to_poly(x) if isinstance(x, Node) else ():
                for at, _ in m:
                    if at.op in ("len", "dim") and len(T.to_poly(x)) <= 2:
                        return True
    return False


# constructs that never return their argument unchanged in general
NONIDENT = {"popped", "setitem", "scatter", "T", "abs", "pow", "mul", "add", "rngnext", "draw", "reduce", "getitem", "lcat", "mm", "floordiv", "mod"}
NONIDENT_F = {"np.sort", "sorted", "np.argsort", "np.abs", "np.log", "np.exp", "np.log10", "np.log2", "np.sqrt", "np.round", "round", "np.floor", "np.ceil", "np.cumsum",
              "np.transpose", "np.min", "np.max", "np.mean", "np.sum", "np.median", "np.std", "np.var", "np.percentile", "np.diff", "np.unique", "np.nan_to_num", "np.clip",
              "np.flip", "np.roll", "reversed", "abs", ".lower", ".upper", ".strip", ".dropna", ".fillna", ".sort_values", ".sort_index", ".reset_index", ".head", ".tail",
              ".cumsum", ".rank", ".abs", ".round", ".rolling", ".interpolate", ".ffill", ".bfill", "set", "np.tanh", "np.square", "np.minimum", "np.maximum", ".drop_duplicates",
              ".permutation", "np.random.permutation", ".resample"}


def rigid(x):
    """values that no rewriting below the top can turn into a value of another shape"""
    while x.op in ("attr", "getitem", "ret", "after") and isinstance(x.args[0], Node):
        x = x.args[0]
    if x.op in ("new", "draw", "in", "bv", "c"):
        return True
    return x.op == "call" and str(x.args[0]).startswith("@")


def near(x, y):
    """children z of x that y could correspond to, x being a construct that changes its argument"""
    if x.op == y.op and head(x) == head(y):
        return
    w = x.op if x.op in NONIDENT else (x.args[0] if x.op == "call" and x.args[0] in NONIDENT_F else None)
    if w is None or x.op in ("add", "mul", "setitem", "lcat"):
        return
    for z in x.args[:2]:
        if isinstance(z, Node):
            z = z.args[1] if z.op == "kw" else z
            if z.op == y.op and head(z) == head(y) and z is not y and not T.is_const(z):
                yield z, w


def wrapper(x, y):
    """x applies one construct that changes its argument to y"""
    for z in x.args:
        if not isinstance(z, Node):
            continue
        zz = [z.args[1]] if z.op == "kw" else [z]
        for w in zz:
            if w is y:
                if x.op in NONIDENT:
                    return x.op
                if x.op == "call" and x.args[0] in NONIDENT_F:
                    return x.args[0]
                if x.op in ("minn", "maxx") and not any(v.op in SIZE or v.op in ("iv", "bv", "idx") or T.is_const(v) for v in (*x.args, y)):
                    return "%s bound" % ("upper" if x.op == "minn" else "lower")
    return None


REDUCERS = {"min", "max", "mean", "sum", "median", "std", "var", "prod", "any", "all", "argmin", "argmax", "count_nonzero",
            "nanmin", "nanmax", "nanmean", "nansum", "nanmedian", "nanstd", "nanvar", "nanargmin", "nanargmax", "ptp"}


def reduction(n):
    """(kind, reduced value, rest) of a reduction, however it is written"""
    if n.op == "reduce":
        return n.args[0], n.args[1], n.args[2:]
    if n.op == "red" and len(n.args) == 3:
        return n.args[0], N("map", n.args[1], n.args[2]), ()
    if n.op == "call":
        k = str(n.args[0]).split(".")[-1]
        if k in REDUCERS and str(n.args[0]) in (k, "np." + k, "." + k):
            return k, n.args[1], n.args[2:]
    return None


def strip(n):
    """the container behind list(), set() and tuple()"""
    while True:
        if n.op == "setof" and len(n.args) == 1:
            n = n.args[0]
        elif n.op == "call" and n.args[0] in ("list", "tuple", "set", "sorted") and len(n.args) == 2:
            n = n.args[1]
        else:
            return n


def drawn(n):
    """random generator after draws: (generator before them, methods drawn from in order; loops are nested tuples)"""
    word = []
    while True:
        if n.op == "rngnext" and n.args[0].op == "draw":
            d = n.args[0]
            word.append(d.args[0])
            n = d.args[1]
        elif n.op == "mu" and len(n.args[1].args) == 1:
            b = n.args[2]
            vs = tuple(N("bv", "y%d_%d" % (i, T.height(b))) for i in range(2))
            y, w = drawn(T.open_multi(b, vs)[1])
            if y is not vs[1] or not w:
                break
            word.append(tuple(w))
            n = n.args[1].args[0]
        else:
            break
    # one call that draws many values and a loop of single draws are the same draws
    out = []
    for x in reversed(word):
        while isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        if not out or out[-1] != x:
            out.append(x)
    return n, out


class Mismatch:
    __slots__ = ("kind", "a", "b", "why")

    def __init__(self, kind, a, b, why):
        self.kind, self.a, self.b, self.why = kind, a, b, why

    def __repr__(self):
        return "%s(%s): %s  <>  %s" % (self.kind, self.why, T.show(self.a, 160), T.show(self.b, 160))


class Comparer:
    def __init__(self, budget=4000):
        self.budget = budget
        self.memo = {}

    # -------------------------------------------------------------- entry
    def settle(self, a, b):
        """mismatches of an observable; undecided places that only repeat a decided difference are dropped"""
        ms = self.diff(a, b)
        defs = [m for m in ms if m.kind == "definite"]
        unk = [m for m in ms if m.kind != "definite"]
        if not defs or not unk or len(ms) > 40:
            return ms
        pairs = [(explain.canonical(vnames(m.a)), explain.canonical(vnames(m.b))) for m in defs if not T.is_const(m.a) or not T.is_const(m.b)]
        if not pairs:
            return ms
        return defs + [m for m in unk if not explain.learned(vnames(m.a), vnames(m.b), pairs)]

    def diff(self, a, b):
        """list of mismatches (empty: equal)"""
        if a is b:
            return []
        k = (a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            return [Mismatch("unknown", a, b, "comparison budget")]
        self.memo[k] = [Mismatch("unknown", a, b, "cycle")]
        r = self._diff(a, b)
        self.memo[k] = r
        return r

    def both(self, pairs):
        out = []
        seen = set()
        for x, y in pairs:
            for m in self.diff(x, y):
                k = (m.a, m.b)
                if k not in seen:
                    seen.add(k)
                    out.append(m)
        return out

    def leaf(self, a, b):
        return [self.classify(a, b)]

    # -------------------------------------------------------------- descent
    def _diff(self, a, b):
        if a.op in ("setattr", "rec") or b.op in ("setattr", "rec"):
            r = self.records(a, b)
            if r is not None:
                return r
        if a.op == "ite" or b.op == "ite":
            r = self.regions(a, b)
            return r if r is not None else self.cases(a, b)
        if a.op == "not" and b.op == "not":
            return self.diff(a.args[0], b.args[0])
        if a.op == "not" or b.op == "not":
            return self.polar(a, b)
        if a.op in ("add", "mul", "pow") or b.op in ("add", "mul", "pow") or (T.is_num(a) and T.is_num(b)):
            return self.polys(a, b)
        if a.op in ("gt0", "ge0", "eq0") and b.op in ("gt0", "ge0", "eq0"):
            return self.polar(a, b)
        if a.op != b.op:
            return self.leaf(a, b)
        o = a.op
        if o == "eq":
            sa, sb = (all(x.op == "setof" for x in n.args) for n in (a, b))
            if sa != sb and {strip(x) for x in a.args} == {strip(x) for x in b.args}:
                return [Mismatch("definite", a, b, "order and repetition " + ("ignored" if sa else "compared"))]
            best = min((self.both([(a.args[0], b.args[i]), (a.args[1], b.args[1 - i])]) for i in (0, 1)), key=len)
            return best
        if o == "bind":
            if len(a.args) != len(b.args) or len(a.args[0].args) != len(b.args[0].args):
                return [Mismatch("unknown", a, b, "different loop shape")]
            vs = tuple(T.N("bv", "x%d_%d_%d" % (i, T.height(a), T.height(b))) for i in range(len(a.args[0].args)))
            return self.both(list(zip(T.open_multi(a, vs), T.open_multi(b, vs))))
        if o in ("call", "new", "ret", "io", "after", "draw", "apply"):
            return self.calls(a, b)
        if o == "mu":
            return self.loops(a, b)
        if o in COMM:
            xa = [x for x in a.args if x not in b.args]
            xb = [x for x in b.args if x not in a.args]
            if len(xa) == len(xb) and xa and len(xa) <= 4:
                return self.both(self.assign(xa, xb))
            return self.leaf(a, b)
        if o == "dict":
            return self.dicts(a, b)
        if o in ("list", "lcat") and len(a.args) == len(b.args) and sorted(x.key for x in a.args) == sorted(x.key for x in b.args):
            return [Mismatch("definite", a, b, "same parts in another order")]
        if o in ("list", "tuple", "mm", "fstr", "lcat"):
            if len(a.args) != len(b.args):
                return self.leaf(a, b)
            return self.both(list(zip(a.args, b.args)))
        if o in ("in", "c", "iv", "bv", "st", "exc"):
            return self.leaf(a, b)
        if len(a.args) != len(b.args):
            return self.leaf(a, b)
        pairs = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, Node) and isinstance(y, Node):
                pairs.append((x, y))
            elif x != y:
                if o in ("attr",):
                    if a.args[0] is b.args[0]:
                        return [self.classify(a, b)]
                    return self.leaf(a, b)
                return self.leaf(a, b)
        r = self.both(pairs)
        # the same difference seen as a whole may be less ambiguous: keep the smaller description
        return r

    def records(self, a, b):
        def unpack(n):
            fs = {}
            while n.op == "setattr":
                fs.setdefault(n.args[1] if not isinstance(n.args[1], Node) else T.show(n.args[1]), n.args[2])
                n = n.args[0]
            base = n
            if n.op == "rec":
                for f in n.args[1:]:
                    fs.setdefault(f.args[0], f.args[1])
            return base, fs
        ba, fa = unpack(a)
        bb, fb = unpack(b)
        if ba.op == "rec" and bb.op == "rec":
            if ba.args[0] != bb.args[0]:
                return self.leaf(a, b)
            base = []
        elif ba.op == "rec" or bb.op == "rec" or ba.op == "ite" or bb.op == "ite":
            return None if (a.op == "ite" or b.op == "ite") else self.leaf(a, b)
        else:
            base = [(ba, bb)]
        pairs = list(base)
        out = []
        for k, v in fb.items():
            if k in fa:
                pairs.append((fa[k], v))
            elif ba.op == "rec":
                out.append(Mismatch("definite", N("missing", k), v, "field %s not set" % k))
            else:
                pairs.append((T.mk_attr(ba, k), v))
        for k, v in fa.items():
            if k not in fb and bb.op != "rec" and k in self.known_fields:
                pairs.append((v, T.mk_attr(bb, k)))
        return out + self.both(pairs)

    known_fields = frozenset()

    def cases(self, a, b):
        """decision diagrams with different conditions: shared conditions are split first"""
        ca, _ = region(a)
        cb, _ = region(b)
        shared = ca & cb
        for c in sorted(shared, key=lambda x: x.key)[:6]:
            a1, a0 = T.restrict(a, c, True), T.restrict(a, c, False)
            if a1 is a and a0 is a:
                continue
            return self.both([(a1, T.restrict(b, c, True)), (a0, T.restrict(b, c, False))])
        ia, ib = a.op == "ite", b.op == "ite"
        for x, y in ((a, b), (b, a)):
            if x.op != "ite":
                continue
            # a condition of one side that decides a condition of the other
            for c in sorted(region(x)[0], key=lambda z: z.key)[:6]:
                y1, y0 = T.restrict(y, c, True), T.restrict(y, c, False)
                if y1 is not y or y0 is not y:
                    x1, x0 = T.restrict(x, c, True), T.restrict(x, c, False)
                    prs = [(x1, y1), (x0, y0)]
                    return self.both(prs if x is a else [(q, p) for p, q in prs])
        if ia and ib:
            d1 = self.both([(a.args[1], b.args[1]), (a.args[2], b.args[2])])
            if not d1:
                return self.diff(a.args[0], b.args[0])
            d2 = self.both([(a.args[1], b.args[2]), (a.args[2], b.args[1])])
            if not d2:
                return self.diff(T.mk_not(a.args[0]), b.args[0])
            if len(d1) <= 2 and all(m.kind == "definite" for m in d1):
                return self.diff(a.args[0], b.args[0]) + d1
            return self.leaf(a, b)
        # a condition only one side has
        x, y = (a, b) if ia else (b, a)
        cs, vs = region(x)
        if x.op == "ite" and len(cs) <= 4:
            r = []
            for v in sorted(vs, key=lambda z: z.key):
                m = self.both([(v, y) if ia else (y, v)])
                r += m
            if r and all(m.kind == "definite" for m in r):
                soft = any(trivial(c) for c in cs)
                if soft:
                    return [Mismatch("unknown", a, b, "guard")]
                return [Mismatch("definite", m.a, m.b, ("extra" if ia else "missing") + " condition: " + m.why) for m in r]
        return self.leaf(a, b)

    # ---- conditions
    def polar(self, a, b):
        """two conditions, possibly stored with opposite polarity"""
        xa, pa = T.lit(a)
        xb, pb = T.lit(b)
        if xa is xb:
            return [] if pa == pb else [Mismatch("definite", a, b, "condition negated")]
        best = None
        for (p, q) in self.forms(xa, pa, xb, pb):
            r = self.diff(p, q) if p is not q else []
            w = weight(r)
            if best is None or w < best[0]:
                best = (w, r)
        if best is not None and (not best[1] or all(m.kind == "definite" for m in best[1])):
            return best[1]
        if xa.op != xb.op and {xa.op, xb.op} <= {"gt0", "ge0", "eq0"}:
            # same quantity compared differently
            x, y = xa.args[0], xb.args[0]
            if "eq0" in (xa.op, xb.op) and any(v.op in ("iv", "bv") for v in (*x.free, *y.free) if isinstance(v, Node)):
                return [Mismatch("unknown", a, b, "position in a loop")]
            for s in (x, T.neg(x)):
                if s is y:
                    return [self.upgrade(Mismatch("definite", a, b, "different comparison"))]
            r = min((self.diff(x, y), self.diff(T.neg(x), y)), key=weight)
            if all(m.kind == "definite" for m in r):
                return r + [Mismatch("definite", a, b, "different comparison")]
        return best[1] if best is not None else self.leaf(a, b)

    def forms(self, xa, pa, xb, pb):
        """arguments of the two conditions written as  p > 0  or  p >= 0  with the same sense"""
        out = []
        rel = ("gt0", "ge0")
        if xa.op in rel and xb.op in rel:
            def norm(x, pos):
                # (strict, polynomial) meaning poly > 0 / >= 0
                s, q = x.op == "gt0", x.args[0]
                if not pos:
                    s, q = not s, T.neg(q)
                return s, q
            sa, qa = norm(xa, pa)
            sb, qb = norm(xb, pb)
            if T.is_int(qa) and T.is_int(qb):
                qa = qa if sa else T.add(qa, T.ONE)
                qb = qb if sb else T.add(qb, T.ONE)
                sa = sb = True
            if sa == sb:
                out.append((qa, qb))
            return out
        if pa != pb:
            return out
        if xa.op == "eq0" and xb.op == "eq0":
            out.append((xa.args[0], xb.args[0]))
            out.append((T.neg(xa.args[0]), xb.args[0]))
        elif xa.op == xb.op and xa.op not in rel and (a_not_self(xa, xb)):
            out.append((N("cond", xa), N("cond", xb)) if False else (xa, xb))
        return out

    def similar(self, x, y):
        if x.op in ("gt0", "ge0", "eq0") and y.op in ("gt0", "ge0", "eq0"):
            s = 1.0
        elif x.op == y.op:
            s = 1.0 + (0.5 if head(x) == head(y) else 0)
            if [z for z in x.args if not isinstance(z, Node) or T.is_const(z)] != [z for z in y.args if not isinstance(z, Node) or T.is_const(z)]:
                s -= 0.75
        else:
            s = 0.0
        rx, ry = parts(x), parts(y)
        return s + len(rx & ry) / (len(rx | ry) or 1)

    def assign(self, xs, ys):
        """greedy one to one assignment by similarity"""
        xs, ys = list(xs), list(ys)
        sc = sorted(((-self.similar(x, y), x.key, y.key, x, y) for x in xs for y in ys), key=lambda t: t[:3])
        used, usedy, out = set(), set(), []
        for _, _, _, x, y in sc:
            if x not in used and y not in usedy:
                used.add(x)
                usedy.add(y)
                out.append((x, y))
        return out

    def regions(self, a, b):
        """two decision diagrams over mostly the same conditions and outcomes, whatever their order"""
        ca, va = region(a)
        cb, vb = region(b)
        ua, ub, la, lb = ca - cb, cb - ca, va - vb, vb - va
        if len(ua) != len(ub) or len(la) != len(lb) or not (ua or la) or len(ua) + len(la) > 8:
            return None
        pc, pv = self.assign(ua, ub), self.assign(la, lb)
        h = lambda i: N("truth", N("hole", i))
        ma = {x: h(i) for i, (x, y) in enumerate(pc)}
        ma.update({x: N("hole", 100 + i) for i, (x, y) in enumerate(pv)})
        fa = fill(a, ma)
        for pol in range(1 << min(len(pc), 4)):
            mb = {y: (T.mk_not(h(i)) if pol >> i & 1 else h(i)) for i, (x, y) in enumerate(pc)}
            mb.update({y: N("hole", 100 + i) for i, (x, y) in enumerate(pv)})
            if fill(b, mb) is fa:
                return self.both([(x, T.mk_not(y) if pol >> i & 1 else y) for i, (x, y) in enumerate(pc)] + pv)
        return None

    def loops(self, a, b):
        """general fixed points: the order of the loop-carried values is free except for the first"""
        na, ia, ba = a.args
        nb, ib, bb = b.args
        k = len(ia.args)
        if k != len(ib.args) or len(ba.args) != len(bb.args):
            return self.leaf(a, b)
        vs = tuple(T.N("bv", "x%d_%d_%d" % (i, T.height(ba), T.height(bb))) for i in range(k + 1))
        oa = T.open_multi(ba, vs)
        best = None
        rest = list(range(1, k))
        perms = itertools.permutations(rest) if k <= 4 else self.few_perms(ia.args, ib.args, rest)
        for pm in perms:
            order = (0,) + tuple(pm)            # position i of a corresponds to position order[i] of b
            vb = [None] * (k + 1)
            vb[0] = vs[0]
            for i, j in enumerate(order):
                vb[j + 1] = vs[i + 1]
            ob = T.open_multi(bb, tuple(vb))
            pairs = [(na, nb), (oa[0], ob[0])]
            for i, j in enumerate(order):
                pairs += [(ia.args[i], ib.args[j]), (oa[1 + i], ob[1 + j])]
                if len(oa) > 1 + k:
                    pairs.append((oa[1 + k + i], ob[1 + k + j]))
            r = self.both(pairs)
            w = weight(r)
            if best is None or w < best[0]:
                best = (w, r)
            if not r:
                break
        return best[1]

    def few_perms(self, ia, ib, rest):
        free = list(rest)
        out = []
        for i in rest:
            c = [j for j in free if ib[j] is ia[i]] or free
            j = i if i in c else c[0]
            out.append(j)
            free.remove(j)
        yield tuple(rest)
        if tuple(out) != tuple(rest):
            yield tuple(out)

    def polys(self, a, b):
        pa, pb = dict(T.to_poly(a)), dict(T.to_poly(b))
        for k in list(pa):
            if k in pb and pa[k] == pb[k]:
                del pa[k]
                del pb[k]
        if not pa and not pb:
            return []
        if set(pa) == set(pb):
            return [self.upgrade(Mismatch("definite", a, b, "different coefficients"))]
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1:
                (m, c), = x.items()
                if len(m) == 1 and m[0][0].op == "abs" and m[0][1] == 1:
                    q = T.to_poly(m[0][0].args[0])
                    if set(q) == set(y) and len({Fraction(y[k]) / Fraction(q[k]) for k in q}) == 1 and abs(Fraction(next(iter(y.values()))) / Fraction(q[next(iter(y))])) == abs(Fraction(c)):
                        return [self.upgrade(Mismatch("definite", a, b, "absolute value"))]
        # pair monomials of equal coefficient
        if len(pa) == 1 and len(pb) == 1:
            (ma, ca), = pa.items()
            (mb, cb), = pb.items()
            fa, fb = dict(ma), dict(mb)
            for k in list(fa):
                if k in fb and fa[k] == fb[k]:
                    del fa[k]
                    del fb[k]
            if ca == cb or ca == -cb:
                if len(fa) == 1 and len(fb) == 1:
                    (xa, ea), = fa.items()
                    (xb, eb), = fb.items()
                    if ea == eb:
                        if ca == cb or True:
                            r = self.diff(xa, xb) if xa.op not in ("add", "mul", "pow") or xb.op not in ("add", "mul", "pow") or (xa, xb) != (a, b) else self.leaf(a, b)
                            if ca != cb:
                                r = r + [self.upgrade(Mismatch("definite", a, b, "sign"))]
                            return r
                    elif xa is xb:
                        return [self.upgrade(Mismatch("definite", a, b, "different power"))]
        elif len(pa) == len(pb) and len(pa) <= 6:
            # pair up monomials of the same coefficient by similarity
            by = {}
            for q, src in ((0, pa), (1, pb)):
                for m, c in src.items():
                    by.setdefault(c, ([], []))[q].append(T.from_poly({m: 1}))
            if all(len(x) == len(y) for x, y in by.values()):
                prs = []
                for c in sorted(by):
                    prs += self.assign(*by[c])
                return self.both(prs)
        x, y = T.from_poly(pa), T.from_poly(pb)
        if T.is_const(x) and T.is_const(y):
            return [self.upgrade(Mismatch("definite", a, b, "different constant"))]
        if x.op in ("add", "mul", "pow") or y.op in ("add", "mul", "pow") or x is a:
            return self.leaf(x, y)
        return self.diff(x, y)

    def calls(self, a, b):
        o = a.op
        ha, hb = (a.args[0], b.args[0]) if o in ("call", "new", "draw") else (None, None)
        if o in ("ret", "io", "after"):
            return self.diff(a.args[0], b.args[0])
        if o == "apply" and a.args[0] is not b.args[0]:
            f = self.diff(a.args[0], b.args[0])
            return f + (self.calls(N("apply", b.args[0], *a.args[1:]), b) if a.args[1:] != b.args[1:] else [])
        if ha != hb:
            ra, rb = a.args[1:], b.args[1:]
            if ha in FAM and FAM.get(hb) == FAM[ha]:
                if len(ra) == len(rb):
                    return [Mismatch("definite", a, b, "%s instead of %s" % (ha, hb))] + self.both([(x, y) for x, y in zip(ra, rb)])
                return [Mismatch("definite", a, b, "%s instead of %s" % (ha, hb))]
            return self.leaf(a, b)
        pos_a = [x for x in a.args[1:] if not (isinstance(x, Node) and x.op == "kw")]
        pos_b = [x for x in b.args[1:] if not (isinstance(x, Node) and x.op == "kw")]
        kw_a = {x.args[0]: x.args[1] for x in a.args[1:] if isinstance(x, Node) and x.op == "kw"}
        kw_b = {x.args[0]: x.args[1] for x in b.args[1:] if isinstance(x, Node) and x.op == "kw"}
        if len(pos_a) != len(pos_b):
            if abs(len(pos_a) - len(pos_b)) == 1 and set(kw_a) != set(kw_b):
                return [Mismatch("unknown", a, b, "argument passed differently")]
            return self.leaf(a, b)
        out = []
        pairs = list(zip(pos_a, pos_b))
        for k in sorted(set(kw_a) | set(kw_b)):
            if k in kw_a and k in kw_b:
                pairs.append((kw_a[k], kw_b[k]))
            else:
                d = kw_a.get(k, kw_b.get(k))
                why = "argument %s %s" % (k, "added" if k in kw_a else "missing")
                if isinstance(ha, str) and ha.startswith("@"):
                    out.append(Mismatch("definite" if k in kw_b else "unknown", a, b, why))
                elif T.is_const(d) and d in (FALSE, T.NONE_, T.ZERO, TRUE, T.ONE, C("")) and k in kw_a:
                    out.append(Mismatch("unknown", a, b, why))
                else:
                    out.append(Mismatch("definite", a, b, why))
        return out + self.both(pairs)

    def dicts(self, a, b):
        da = {a.args[i]: a.args[i + 1] for i in range(0, len(a.args) - 1, 2)}
        db = {b.args[i]: b.args[i + 1] for i in range(0, len(b.args) - 1, 2)}
        pairs, out = [], []
        miss_b = [k for k in db if k not in da]
        miss_a = [k for k in da if k not in db]
        for k in db:
            if k in da:
                pairs.append((da[k], db[k]))
        if miss_a or miss_b:
            if len(miss_a) == len(miss_b) == 1:
                pairs.append((miss_a[0], miss_b[0]))
                pairs.append((da[miss_a[0]], db[miss_b[0]]))
            elif all(T.is_const(k) for k in miss_a + miss_b):
                out.append(Mismatch("definite", N("dict", *miss_a), N("dict", *miss_b), "dictionary keys"))
            else:
                out.append(Mismatch("unknown", N("dict", *miss_a), N("dict", *miss_b), "dictionary keys"))
        return out + self.both(pairs)

    # -------------------------------------------------------------- classification
    def upgrade(self, m):
        c = self.classify(m.a, m.b)
        if c.kind == "unknown" and c.why in ("sizes of different objects",):
            return c
        ra, rb = parts(m.a), parts(m.b)
        if any(x.op in HARD for x in (ra - rb) | (rb - ra)):
            return Mismatch("unknown", m.a, m.b, c.why)
        return m

    def classify(self, a, b):
        if T.is_const(a) and T.is_const(b):
            if {a.args[0], b.args[0]} == {"bool", "num"} and a.args[1] == b.args[1]:
                return Mismatch("unknown", a, b, "truth value against number")
            return Mismatch("definite", a, b, "different constants")
        for x, y in ((a, b), (b, a)):
            if x.op == "getitem" and x.args[0].op in ("add", "mul", "pow", "abs", "call") and any(z.op == "getitem" and z.args[1] is x.args[1] for z in parts(y)):
                return Mismatch("unknown", a, b, "selection before or after the arithmetic")
        for x, y, word in ((a, b, "applied"), (b, a, "not applied")):
            for z, w in near(x, y):
                r = self.diff(z, y) if x is a else self.diff(y, z)
                if all(m.kind == "definite" for m in r):
                    return Mismatch("definite", a, b, "%s %s" % (w, word))
        for x, y in ((a, b), (b, a)):
            if x.op == "repeat" and x.args[0].op == "list" and len(x.args[0].args) == 1 and x.args[0].args[0].op in ("list", "dict") and y.op == "map" \
                    and y.args[0] is x.args[1] and y.args[1].args[-1] is x.args[0].args[0]:
                return Mismatch("definite", a, b, "one shared container against one for each position")
        (za, wa), (zb, wb) = drawn(a), drawn(b)
        if (wa or wb) and za is zb and wa != wb:
            return Mismatch("definite", a, b, "other random draws: %s against %s" % (wa, wb))
        r, q = reduction(a), reduction(b)
        if r is not None and q is not None and r[0] != q[0] and {r[0], q[0]} <= REDUCERS and r[1] is q[1]:
            return Mismatch("definite", a, b, "%s instead of %s" % (r[0], q[0]))
        for x, y in ((a, b), (b, a)):
            k = reduction(x)
            if k is not None and k[0] in REDUCERS and y.op == "getitem" and y.args[0] is k[1] and T.is_const(y.args[1]):
                return Mismatch("definite", a, b, "one element against %s of all" % k[0])
            if x.op == "T" and y.op == "call" and y.args[0] in (".reshape", "np.reshape") and y.args[1] is x.args[0]:
                return Mismatch("definite", a, b, "transposition against another arrangement of the same values")
            if k is not None and T.is_const(y) and k[0] in REDUCERS - {"any", "all"} and T.leaves(k[1]):
                return Mismatch("definite", a, b, "%s of data against a constant" % k[0])
            z = x
            while z.op == "getitem" or z.op == "call" and z.args[0] == "list" and len(z.args) == 2:
                z = z.args[0] if z.op == "getitem" else z.args[1]
            if z.op == "unordered" and not any(t.op == "unordered" for t in parts(y)) and (z is not x or y.op in ("map", "fmap", "list", "cat", "lcat", "call", "mu", "tuple")):
                return Mismatch("definite", a, b, "order of completion against a fixed order")
        w = wrapper(a, b)
        if w:
            return Mismatch("definite", a, b, "%s applied" % w)
        w = wrapper(b, a)
        if w:
            return Mismatch("definite", a, b, "%s not applied" % w)
        ra, rb = parts(a), parts(b)
        da, db = ra - rb, rb - ra

        def unk(why):
            return Mismatch("unknown", a, b, why)
        stiff = rigid(a) and rigid(b) and (a.op, head(a)) != (b.op, head(b))
        for x in da | db:
            if x.op in HARD and not (stiff and x.op in ("mu", "st", "iv", "apply", "popped", "lam", "closure", "global")):
                return unk("contains " + x.op)
        if stiff:
            return Mismatch("definite", a, b, "different value")
        ba = {x.op for x in da if x.op in BINDERS}
        bb = {x.op for x in db if x.op in BINDERS}
        if ba != bb:
            return unk("different iteration constructs %s / %s" % ("+".join(sorted(ba)), "+".join(sorted(bb))))
        heads_b = {head(x) for x in rb}
        heads_a = {head(x) for x in ra}
        for x in da:
            h = head(x)
            if h is not None and h not in heads_b and not h.startswith("@"):
                if h in FAM and any(head(y) in FAM and FAM[head(y)] == FAM[h] for y in db):
                    continue
                return unk("function not used by the reference: %s" % h)
        sa, sb = a.op in SIZE, b.op in SIZE
        if sa and sb and a.args[0] is not b.args[0]:
            return unk("sizes of different objects")
        if (sa or sb) and not (sa and sb) and not (T.is_const(a) or T.is_const(b)):
            return unk("size against value")
        # heads only in the reference: something was dropped
        drop = {head(x) for x in db if head(x) is not None and head(x) not in heads_a}
        if any(h.startswith(("np.array", "list", "np.concat", "sorted", ".copy", "pd.", "dict")) for h in drop):
            return unk("construction dropped %s" % sorted(drop))
        la, lb = T.leaves(a), T.leaves(b)
        why = "different value"
        if la != lb:
            why = "depends on different inputs (+%s -%s)" % (",".join(sorted(map(str, la - lb)))[:120], ",".join(sorted(map(str, lb - la)))[:120])
        return Mismatch("definite", a, b, why)
