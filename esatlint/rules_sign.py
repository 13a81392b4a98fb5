"""Sign analysis of the factor matrices, weights and losses: an abstract interpretation of the normal forms over the
sets of possible signs.  No reference model is used.

The value of a term is (signs, grounded): `signs` is the set of signs its elements can have; `grounded` is False when
the set was widened because something could not be modelled.  A violation is only reported for grounded sets."""
from fractions import Fraction

from . import core
from .rules_c29 import finding
from .terms import (C, N, Node, NONE_, TRUE, FALSE, cval, is_const, is_num, leaves, num, open_multi, restrict, to_poly)

NEG, ZER, POS = "-", "0", "+"
ALL = frozenset("-0+")
NN, PP, NP = frozenset("0+"), frozenset("+"), frozenset("-0")
UNK = (ALL, False)

PASS = {".astype", "np.array", "np.asarray", "np.copy", ".copy", ".reshape", ".flatten", ".ravel", ".to_numpy", "np.reshape", "np.float32", "np.float64", "float", "np.ravel", ".transpose",
        "np.squeeze", ".squeeze", "np.ascontiguousarray", "np.asfortranarray", ".tolist", "np.round", ".round", "np.nan_to_num", "list", "tuple", "np.sort", "copy.copy", "copy.deepcopy", "np.stack",
        "np.vstack", "np.hstack", "np.concatenate", "np.column_stack", "np.row_stack", "np.repeat", "np.tile", ".repeat", "np.transpose", "np.atleast_2d", "np.expand_dims", "np.roll",
        "np.broadcast_to", "np.flip", "np.moveaxis"}
ZEROISH = {"np.diag", "np.diagflat", "np.pad", "np.tril", "np.triu"}
NONNEG = {"np.square", "np.linalg.norm", "np.exp", "len", "np.count_nonzero", "np.var", "np.std", ".std", ".var", "np.absolute", "np.abs"}
POSDRAW = {".random": NN, ".gamma": PP, ".exponential": NN, ".poisson": NN, ".chisquare": NN, ".lognormal": PP, ".beta": NN, ".rayleigh": NN, ".weibull": NN, ".pareto": NN, ".dirichlet": NN,
           ".standard_normal": ALL, ".standard_exponential": NN, ".standard_gamma": PP, ".permutation": None, ".choice": None}


def mul_s(a, b):
    return frozenset({(NEG, NEG): POS, (POS, POS): POS, (NEG, POS): NEG, (POS, NEG): NEG}.get((x, y), ZER) for x in a for y in b)


def add_s(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == ZER:
                out.add(y)
            elif y == ZER or x == y:
                out.add(x)
            else:
                out |= {NEG, ZER, POS}
    return frozenset(out)


def neg_s(a):
    return mul_s(frozenset(NEG), a)


def num_s(v):
    return frozenset(NEG if v < 0 else ZER if v == 0 else POS)


class Signs:
    def __init__(self, hyp):
        self.hyp = hyp                      # leaf term -> signs
        self.memo = {}
        self.roots = []                     # (term) fractional powers of values that can be negative

    def of(self, n, facts=()):
        k = (n, facts)
        if k not in self.memo:
            self.memo[k] = UNK
            self.memo[k] = self.clip(n, self.of_(n, facts), facts)
        return self.memo[k]

    def clip(self, n, r, facts):
        """sign facts known on the path: p >= 0 or p > 0 with p = a*n + b"""
        s, g = r
        for p, strict in facts:
            q, me = to_poly(p), to_poly(n)
            lead = next((m for m in me if m), None)
            if lead is None or lead not in q:
                continue
            a = Fraction(q[lead]) / me[lead]
            if {m for m in q if m} != {m for m in me if m} or any(q[m] != a * me[m] for m in me if m):
                continue
            b = q.get((), 0) - a * me.get((), 0)
            if a > 0:                       # n >= -b/a
                if -b > 0 or b == 0 and strict:
                    s = s & PP
                elif b == 0:
                    s = s & NN
            else:                           # n <= b/-a
                if b < 0 or b == 0 and strict:
                    s = s & frozenset(NEG)
                elif b == 0:
                    s = s & NP
        if len(s) <= 2 and not g and s <= NN:
            g = True
        return (s, g or not s)              # empty: the path is not possible

    def join(self, xs):
        s, g = frozenset(), True
        for a, b in xs:
            s |= a
            g = g and (b or ALL == frozenset())
        return s, g

    def of_(self, n, facts):
        h = self.hyp.get(n)
        if h is not None:
            return h, True
        op, a = n.op, n.args
        if op == "c":
            if is_num(n):
                return num_s(num(n)), True
            if n.args[0] == "bool":
                return num_s(int(n.args[1])), True
            return UNK
        if op == "ite":
            out = []
            for v, br in ((True, a[1]), (False, a[2])):
                out.append(self.of(br, facts + self.fact(a[0], v)))
            s = out[0][0] | out[1][0]
            # a grounded negative branch is one that an input can reach
            neg = [g for x, g in out if NEG in x or "!" in x]
            return s, (any(neg) if neg else all(g for _, g in out))
        if op in ("add", "mul", "pow"):
            return self.poly(n, facts)
        if op == "abs":
            s, g = self.of(a[0], facts)
            return frozenset(POS if x == NEG else x for x in s), True
        if op == "mm":
            r = None
            for x in a:
                x = self.of(x, facts)
                r = x if r is None else (mul_s(r[0], x[0]), r[1] and x[1])
            s, g = r
            if NEG in s:
                s = ALL
            return s, g
        if op in ("T", "getitem"):
            return self.of(a[0], facts)
        if op in ("list", "tuple"):
            return self.join([self.of(x, facts) for x in a]) if a else UNK
        if op == "repeat":
            return self.of(a[0], facts)
        if op == "map":
            return self.of(a[1].args[1], facts)
        if op in ("reduce", "red"):
            if a[0] in ("sum", "mean", "max", "min", "median"):
                x = a[1] if op == "reduce" else None
                if x is None:
                    b = next((y for y in a if isinstance(y, Node) and y.op == "bind"), None)
                    x = b.args[-1] if b is not None else None
                if x is not None:
                    s, g = self.of(x, facts)
                    return (ALL if NEG in s and POS in s else s), g
            if a[0] in ("std", "var", "any", "all", "norm"):
                return NN, True
            return UNK
        if op in ("max", "min", "maximum", "minimum"):
            xs = [self.of(x, facts) for x in a if isinstance(x, Node)]
            big = op.startswith("max")
            if big and any(s <= NN and g for s, g in xs):
                return (PP if any(s <= PP and g for s, g in xs) else NN), True
            return self.join(xs)
        if op == "len":
            return NN, True
        if op == "dim":
            return PP, True
        if op in ("maxn", "minn"):
            xs = [self.of(x, facts) for x in a if isinstance(x, Node)]
            if op == "maxn" and any(s <= NN and g for s, g in xs):
                return (PP if any(s <= PP and g for s, g in xs) else NN), True
            return self.join(xs)
        if op == "scatter":
            b = next((y for y in a if isinstance(y, Node) and y.op == "bind"), None)
            return self.join([self.base(a[0], facts), self.of(b.args[-1], facts)]) if b is not None else UNK
        if op == "setitem":
            return self.join([self.base(a[0], facts), self.of(a[2], facts)])
        if op == "draw":
            return self.draw(n, facts)
        if op == "call":
            return self.call(n, facts)
        if op in ("gt0", "ge0", "eq0", "eq", "truth", "not", "in_"):
            return NN, True
        return UNK

    def base(self, x, facts):
        """what is written over may have been all of the offending elements"""
        s, g = self.of(x, facts)
        return s, g and s <= PP

    def fact(self, c, val):
        if c.op == "gt0":
            from .terms import neg
            return ((c.args[0], True),) if val else ((neg(c.args[0]), False),)
        if c.op == "ge0":
            from .terms import neg
            return ((c.args[0], False),) if val else ((neg(c.args[0]), True),)
        return ()

    def factor(self, atom, e, facts):
        s, g = self.of(atom, facts)
        if getattr(e, "denominator", 1) != 1:
            if NEG in s:
                if g:
                    self.roots.append(atom)
                    return frozenset(s) | frozenset("!"), True
                return (s | NN, False)
            return s, g
        if e < 0 and ZER in s:
            s = s - frozenset(ZER) or s      # division by zero is not a sign
        if e % 2 == 0:
            return frozenset(POS if x == NEG else x for x in s), True
        return s, g

    def mono(self, m, c, facts):
        s, g = num_s(c), True
        for atom, e in m:
            if not isinstance(e, int) and not hasattr(e, "denominator"):
                return UNK
            x, h = self.factor(atom, e, facts)
            if "!" in x:
                return x, True
            s, g = mul_s(s, x), g and (h or x <= NN)
        return s, g

    def poly(self, n, facts):
        p = to_poly(n)
        if n.op == "pow" and not is_num(n.args[1]):
            s, g = self.of(n.args[0], facts)
            return (s, True) if s <= NN else UNK
        terms = [(m, c, self.mono(m, c, facts)) for m, c in p.items()]
        if any("!" in s for _, _, (s, _) in terms):
            return ALL | frozenset("!"), True
        # |x| dominates x: c|x| + d x with c >= |d| is not negative
        rest = list(terms)
        s, g = frozenset(ZER), True
        for m, c, r in terms:
            ab = [(x, e) for x, e in m if self.absarg(x) is not None]
            if len(ab) != 1 or ab[0][1] != 1 or c <= 0:
                continue
            inner = self.absarg(ab[0][0])
            m2 = tuple(sorted([(x, e) for x, e in m if x is not ab[0][0]] + [(inner, 1)], key=lambda t: t[0].key))
            o = next((t for t in rest if t[0] == m2), None)
            others = [x for x, e in m if x is not ab[0][0]]
            if o is not None and abs(o[1]) <= c and all(self.of(x, facts)[0] <= NN for x in others):
                rest = [t for t in rest if t[0] not in (m, m2)]
                s = add_s(s, NN)
        if len(rest) == 1 and len(terms) == 1:
            return rest[0][2]
        negs = []
        for m, c, (x, h) in rest:
            s = add_s(s, x)
            g = g and (h or x <= NN)
            if NEG in x and h:
                negs.append(m)
        if NEG in s:
            # grounded only when a term can be negative by itself and is not bound to another one
            g = g and any(not any(self.linked(m, m2) for m2, _, _ in terms if m2 != m) for m in negs if m) and all(len(x & frozenset("-+")) < 3 for _, _, (x, _) in rest)
        return s, g

    def absarg(self, x):
        if x.op == "abs":
            return x.args[0]
        if x.op == "T" and x.args[0].op == "abs":
            return N("T", x.args[0].args[0])
        return None

    def linked(self, m1, m2):
        a = {x for x, _ in m1}
        for x, e in m2:
            if x in a and e % 2 == 0 or x.op in ("abs", "pow", "ite") and any(y in a for y in leaves(x)):
                return True
        return False

    def arg(self, n, i, names):
        for x in n.args[1:]:
            if isinstance(x, Node) and x.op == "kw" and x.args[0] in names:
                return x.args[1]
        pos = [x for x in n.args[1:] if isinstance(x, Node) and x.op != "kw"]
        return pos[i] if i < len(pos) else None

    def draw(self, n, facts):
        name = n.args[0]
        if name in POSDRAW and POSDRAW[name] is not None:
            return POSDRAW[name], True
        if name == ".uniform" or name == ".integers":
            lo = next((x.args[1] for x in n.args[2:] if isinstance(x, Node) and x.op == "kw" and x.args[0] == "low"), None)
            if lo is not None and is_num(lo):
                return (NN if num(lo) >= 0 else ALL), True
            if lo is None:
                return (NN, True) if len(n.args) <= 3 else UNK
            s, g = self.of(lo, facts)
            return (NN, True) if s <= NN else UNK
        if name == ".normal":
            v = [x.args[1] if x.op == "kw" else x for x in n.args[2:4] if isinstance(x, Node)]
            if len(v) == 2 and all(is_num(x) for x in v) and num(v[0]) >= 9 * num(v[1]) > 0:
                return PP, True             # nine standard deviations above zero
            return ALL, True
        return UNK

    def call(self, n, facts):
        f = n.args[0]
        pos = [x for x in n.args[1:] if isinstance(x, Node) and x.op != "kw"]
        if f in PASS and pos:
            x = pos[0]
            return self.of(x, facts)
        if f in ZEROISH and pos:
            s, g = self.of(pos[0], facts)
            return s | frozenset(ZER), g
        if f in NONNEG:
            return NN, True
        if f in ("np.zeros", "np.zeros_like", "np.empty"):
            return frozenset(ZER), True
        if f in ("np.ones", "np.ones_like", "np.eye", "np.identity"):
            return (PP if "ones" in f else NN), True
        if f in ("np.full", "np.full_like"):
            x = self.arg(n, 1, ("fill_value",))
            return self.of(x, facts) if x is not None else UNK
        if f in ("np.maximum", "np.fmax") and len(pos) == 2:
            xs = [self.of(x, facts) for x in pos]
            if any(s <= NN and g for s, g in xs):
                return (PP if any(s <= PP and g for s, g in xs) else NN), True
            return self.join(xs)
        if f in ("np.minimum", "np.fmin") and len(pos) == 2:
            return self.join([self.of(x, facts) for x in pos])
        if f in ("np.clip", ".clip"):
            lo = self.arg(n, 1, ("a_min", "min", "lower"))
            if lo is not None and lo is not NONE_:
                s, g = self.of(lo, facts)
                if s <= NN and g:
                    return s | PP, True
            return UNK
        if f in ("scipy.cluster.vq.kmeans2", "scipy.cluster.vq.whiten"):
            x = self.arg(n, 0, ("data", "obs"))
            return self.of(x, facts) if x is not None else UNK
        return UNK


SELF = N("in", "self")


def attr(x, name):
    return N("attr", x, name)


def inp(name):
    return N("in", name)


NONE_EQ = lambda x: N("eq", *sorted([NONE_, x], key=lambda t: t.key))

# entry, case, hypotheses, [(observable, allowed signs)], [(condition, value)]
CASES = []


def case(entry, name, hyp, want, cond=()):
    CASES.append((entry, name, hyp, want, cond))


case("esat.model.ls_nmf:LSNMF.update", "V >= 0", {inp("V"): NN, inp("We"): PP, inp("W"): NN, inp("H"): NN}, [("ret0", NN), ("ret1", NN)])
case("esat.model.ws_nmf:WSNMF.update", "V >= 0", {inp("V"): NN, inp("We"): PP, inp("W"): ALL, inp("H"): NN}, [("ret1", NN)])
case("esat.model.ws_nmf:WSNMF.update", "V of either sign", {inp("V"): ALL, inp("We"): PP, inp("W"): ALL, inp("H"): NN}, [("ret1", NN)])

SV = attr(SELF, "V")
INIT = {SV: NN, attr(SELF, "factors"): PP}
NOH, NOW = NONE_EQ(inp("H")), NONE_EQ(inp("W"))
EQ = lambda a, b: N("eq", *sorted([a, b], key=lambda t: t.key))
LS = EQ(C("ls-nmf"), attr(SELF, "method"))
case("esat.model.sa:SA.initialize", "V >= 0 and neither matrix is given (ls-nmf)", INIT, [("H", PP), ("W", NN)], [(NOH, True), (NOW, True), (LS, True)])
case("esat.model.sa:SA.initialize", "V >= 0 and neither matrix is given (ws-nmf)", INIT, [("H", PP)], [(NOH, True), (NOW, True), (LS, False)])
case("esat.model.sa:SA.initialize", "only W is given (ls-nmf)", {SV: NN, attr(SELF, "factors"): PP, inp("W"): NN}, [("H", PP)], [(NOH, True), (NOW, False), (LS, True)])
case("esat.model.sa:SA.initialize", "only H is given (ls-nmf)", {SV: NN, attr(SELF, "factors"): PP, inp("H"): NN}, [("W", NN)], [(NOH, False), (NOW, True), (LS, True)])
M4 = {inp("V"): ALL, inp("U"): PP, inp("W"): NN, inp("H"): NN, inp("alpha"): PP}
case("esat.metrics:q_loss", "U > 0", M4, [("ret", NN)])
case("esat.metrics:qr_loss", "U > 0", M4, [("ret0", NN), ("ret1", PP)])
case("esat.metrics:calculate_Q", "the uncertainty is positive", {inp("residuals"): ALL, inp("uncertainty"): PP}, [("ret", NN)])
case("esat.model.sa:SA.__init__", "U >= 0", {inp("U"): NN, inp("V"): NN}, [("We", PP), ("U", PP)])


def value(s, what):
    if what.startswith("ret"):
        r = s.ret
        return r.args[int(what[3:])] if what[3:] and r is not None and r.op == "tuple" else (r if not what[3:] else None)
    return s.fields.get(what)


def run(repo, prop):
    sigs = core.signatures(repo)
    n, ok, out, und = 0, 0, [], []
    done = {}
    for entry, name, hyp, want, cond in CASES:
        if PROP.get(entry, "C02") != prop:
            continue
        if repo.find(entry) is None:
            und.append(entry)
            continue
        if entry not in done:
            try:
                done[entry] = core.analyse(repo, entry, sigs, 120)[0]
            except Exception:
                done[entry] = None
        s = done[entry]
        for what, allowed in want:
            n += 1
            v = value(s, what) if s is not None else None
            if v is None:
                und.append("%s %s" % (entry, what))
                continue
            for c, b in cond:
                v = restrict(v, c, b)
            sg = Signs(hyp)
            r, g = sg.of(v)
            if r <= allowed:
                ok += 1
            elif g:
                f = repo.find(entry)
                why = "can be %s" % ("the root of a negative number" if "!" in r else "negative" if NEG in r else "zero")
                d = finding(f[0], f[2], entry.split(":")[1], "%s %s when %s" % (what, why, name), "sign")
                d["key"] = "%s#sign %s %s" % (entry, what, name)
                out.append(d)
            else:
                und.append("%s %s (%s)" % (entry, what, name))
    return {"sites": n, "ok": ok, "undecided": und}, out


PROP = {"esat.metrics:q_loss": "C07", "esat.metrics:qr_loss": "C07", "esat.metrics:calculate_Q": "C07", "esat.model.sa:SA.__init__": "C10"}


def rule(prop):
    def signs(repo, ref):
        """factor matrices, weights and losses have the sign they must have"""
        return run(repo, prop)
    return signs
