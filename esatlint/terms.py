"""Hash-consed value terms and their algebraic normal form.

A term denotes the value an expression computes, as a function of the inputs of
the analysed function.  Terms are never evaluated: two program fragments are
identified when their terms have the same normal form (global value numbering
over a gated value graph)."""
import hashlib
from fractions import Fraction

_TABLE = {}


class Node:
    __slots__ = ("op", "args", "key", "free", "conds", "size", "_poly", "_leaves", "__weakref__")

    def __repr__(self):
        return show(self, 400)

    def __lt__(self, other):
        return self.key < other.key


def _akey(a):
    if isinstance(a, Node):
        return a.key
    if isinstance(a, tuple):
        return b"(" + b"".join(_akey(x) for x in a) + b")"
    return (type(a).__name__ + ":" + repr(a)).encode()


EMPTY = frozenset()
BINDERS = {"map": 1, "fmap": 1, "red": 1, "first": 1, "scatter": 1, "cat": 1}


def N(op, *args):
    """Raw hash-consed constructor (no simplification)."""
    k = (op, args) if not any(isinstance(a, (bool, int, float, Fraction)) for a in args) else (op, args, tuple(type(a) for a in args))
    n = _TABLE.get(k)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    h = hashlib.blake2b(digest_size=10)
    h.update(op.encode())
    for a in args:
        h.update(b"|")
        h.update(_akey(a))
    n.key = h.digest()
    free = EMPTY
    conds = EMPTY
    size = 1
    for a in args:
        if isinstance(a, Node):
            free = free | a.free
            conds = conds | a.conds
            size += a.size
    if op in ("iv", "st", "bv"):
        free = frozenset([n])
    elif op in BIND_VAR:
        bvs = frozenset(bound_vars(n))
        free = free - bvs
        if conds:
            conds = frozenset(c for c in conds if c.free.isdisjoint(bvs))
    if op == "ite":
        conds = conds | frozenset([args[0]])
    elif op == "not":
        conds = conds | frozenset([args[0]])
    elif op in ATOM_OPS or (op in ("reduce", "red") and args[0] in ("any", "all")):
        conds = conds | frozenset([n])
    n.free = free
    n.conds = conds
    n.size = min(size, 10 ** 9)
    n._poly = None
    n._leaves = None
    _TABLE[k] = n
    return n


ATOM_OPS = {"gt0", "ge0", "eq0", "eq", "isinst", "in_", "truth", "exc", "hasattr"}
# binder ops: args[0] is the bound variable
BIND_VAR = {"bind"}


def bound_vars(n):
    # bind(vars_tuple_node, body...)
    return n.args[0].args


def nf(v):
    """int when integral, else Fraction"""
    return v.numerator if v.denominator == 1 else v


def C(v):
    if v is None:
        return NONE_
    if v is True or v is False:
        return N("c", "bool", v)
    t = type(v)
    if t is int:
        return N("c", "num", v)
    if t is Fraction:
        return N("c", "num", nf(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return N("c", "float", repr(v))
        return N("c", "num", nf(Fraction(repr(v))))
    if isinstance(v, str):
        return N("c", "str", v)
    return N("c", "other", repr(v))


NONE_ = N("c", "none", "None")
TRUE = N("c", "bool", True)
FALSE = N("c", "bool", False)
ZERO = N("c", "num", 0)
ONE = N("c", "num", 1)


def is_const(n):
    return isinstance(n, Node) and n.op == "c"


def is_num(n):
    return n.op == "c" and n.args[0] == "num"


def is_str(n):
    return n.op == "c" and n.args[0] == "str"


def num(n):
    return n.args[1]


def cval(n):
    """python value of a constant term"""
    t, v = n.args
    if t == "none":
        return None
    if t == "num":
        return int(v) if v.denominator == 1 else float(v)
    return v


# ---------------------------------------------------------------- display
def show(n, limit=200):
    out = []
    budget = [limit]

    def w(s):
        out.append(s)
        budget[0] -= len(s)

    def go(n):
        if budget[0] <= 0:
            if not out or out[-1] != "…":
                out.append("…")
            return
        if not isinstance(n, Node):
            if isinstance(n, tuple):
                w("(")
                for i, a in enumerate(n):
                    if i:
                        w(",")
                    go(a)
                w(")")
            else:
                w(str(n))
            return
        o = n.op
        if o == "c":
            v = n.args[1]
            w(repr(v) if n.args[0] == "str" else (str(float(v)) if isinstance(v, Fraction) and v.denominator != 1 else str(v)))
        elif o == "in":
            w(n.args[0])
        elif o in ("iv", "st", "bv"):
            w("%s%s" % (o, n.args[0]))
        elif o == "add":
            w("(")
            for i, a in enumerate(n.args):
                if i:
                    w(" + ")
                go(a)
            w(")")
        elif o == "mul":
            for i, a in enumerate(n.args):
                if i:
                    w("*")
                go(a)
        elif o == "pow":
            go(n.args[0]); w("^"); go(n.args[1])
        elif o == "gt0":
            go(n.args[0]); w(" > 0")
        elif o == "ge0":
            go(n.args[0]); w(" >= 0")
        elif o == "eq0":
            go(n.args[0]); w(" == 0")
        elif o == "eq":
            go(n.args[0]); w(" == "); go(n.args[1])
        elif o == "not":
            w("not "); go(n.args[0])
        elif o == "attr":
            go(n.args[0]); w("." + n.args[1])
        elif o == "getitem":
            go(n.args[0]); w("["); go(n.args[1]); w("]")
        elif o == "ite":
            w("("); go(n.args[1]); w(" if "); go(n.args[0]); w(" else "); go(n.args[2]); w(")")
        elif o == "tuple":
            w("(")
            for a in n.args:
                go(a); w(",")
            w(")")
        elif o == "list":
            w("[")
            for i, a in enumerate(n.args):
                if i:
                    w(", ")
                go(a)
            w("]")
        elif o == "mm":
            for i, a in enumerate(n.args):
                if i:
                    w(" @ ")
                go(a)
        elif o == "call":
            w(n.args[0] + "(")
            for i, a in enumerate(n.args[1:]):
                if i:
                    w(", ")
                go(a)
            w(")")
        elif o == "kw":
            w(n.args[0] + "="); go(n.args[1])
        else:
            w(o + "(")
            for i, a in enumerate(n.args):
                if i:
                    w(", ")
                go(a)
            w(")")
    go(n)
    return "".join(out)


def leaves(n):
    """set of input leaves a term depends on"""
    if n._leaves is not None:
        return n._leaves
    # iterative post-order to avoid deep recursion
    stack = [n]
    while stack:
        x = stack[-1]
        if x._leaves is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a._leaves is None]
        if todo:
            stack.extend(todo)
            continue
        s = EMPTY
        for a in x.args:
            if isinstance(a, Node):
                s = s | a._leaves
        if x.op == "in":
            s = frozenset([x.args[0]])
        elif x.op == "attr" and x.args[0].op in ("in", "attr") and not x.args[0].conds:
            s = s | frozenset([show(x, 200)])
        x._leaves = s
        stack.pop()
    return n._leaves


# ---------------------------------------------------------------- polynomials
MAXTERMS = 48


def to_poly(n):
    """dict: monomial (tuple of (atom, exponent) sorted by key) -> coefficient"""
    if n._poly is not None:
        return n._poly
    if n.op == "c":
        t, v = n.args
        if t == "num":
            p = {(): v} if v != 0 else {}
        elif t == "bool":
            p = {(): 1} if v else {}
        else:
            p = {((n, 1),): 1}
    elif n.op == "add":
        p = {}
        for a in n.args:
            for m, c in to_poly(a).items():
                p[m] = p.get(m, 0) + c
    elif n.op == "mul":
        c = 1
        m = []
        for a in n.args:
            if is_num(a):
                c *= num(a)
            elif a.op == "pow" and is_num(a.args[1]):
                m.append((a.args[0], num(a.args[1])))
            else:
                m.append((a, 1))
        p = {tuple(m): c}
    elif n.op == "pow" and is_num(n.args[1]):
        p = {((n.args[0], num(n.args[1])),): 1}
    else:
        p = {((n, 1),): 1}
    n._poly = p
    return p


def from_poly(p):
    # coefficients and exponents are ints or non-integral Fractions
    terms = []
    for m, c in p.items():
        if c == 0:
            continue
        fs = []
        for a, e in m:
            if e == 1:
                fs.append(a)
            else:
                fs.append(N("pow", a, C(e)))
        if c != 1 or not fs:
            fs = [C(c)] + fs
        terms.append(fs[0] if len(fs) == 1 else N("mul", *fs))
    if not terms:
        return ZERO
    if len(terms) == 1:
        return terms[0]
    terms.sort(key=lambda t: t.key)
    return N("add", *terms)


def add(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and x.args[0] == "np.zeros" and x is not y:
            return mul(N("call", "np.ones", *x.args[1:]), y)         # an array of one value
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        s = p.get(m, 0) + c
        if s == 0:
            p.pop(m, None)
        else:
            p[m] = s if type(s) is int else nf(s)
    return from_poly(p)


def scale(a, c):
    if c == 0:
        return ZERO
    return from_poly({m: nf(k * c) for m, k in to_poly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e if type(e) is int else nf(e)) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        if len(pa) > 1 and len(pb) > 1:
            # keep the factors opaque
            fs = sorted([a, b], key=lambda x: x.key)
            m = _mono_mul(((fs[0], 1),), ((fs[1], 1),))
            return from_poly({m: 1})
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            s = p.get(m, 0) + c1 * c2
            if s == 0:
                p.pop(m, None)
            else:
                p[m] = s if type(s) is int else nf(s)
    return from_poly(p)


def power(a, e):
    """a ** e for rational constant e"""
    e = nf(Fraction(e))
    if e == 0:
        return ONE
    if e == 1:
        return a
    pa = to_poly(a)
    if not pa:
        return ZERO if e > 0 else N("pow", ZERO, C(e))
    if e.denominator == 1 and e > 0 and (len(pa) <= 3 and e <= 3 or len(pa) == 1):
        if len(pa) == 1:
            (m, c), = pa.items()
            return from_poly({tuple((x, nf(k * e)) for x, k in m): nf(Fraction(c) ** int(e))})
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    if e.denominator == 1 and len(pa) == 1:
        (m, c), = pa.items()
        return from_poly({tuple((x, nf(k * e)) for x, k in m): nf(Fraction(c) ** int(e))})
    if e.denominator != 1 and len(pa) == 1:
        (m, c), = pa.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return from_poly({((m[0][0], e),): 1})
        if not m and c > 0:
            f = float(c) ** float(e)
            if f == int(f):
                return C(int(f))
    # normalise the scalar content out of a sum (only integral exponents)
    if e.denominator == 1 and len(pa) > 1:
        lead = pa[min(pa, key=lambda m: tuple((x.key, k) for x, k in m))]
        if lead != 1:
            base = scale(a, nf(1 / Fraction(lead)))
            return from_poly({((base, e),): nf(Fraction(lead) ** int(e))})
    return from_poly({((a, e),): 1})


def div(a, b):
    if is_num(b) and num(b) == 0:
        return N("call", "div0", a)
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- types (very coarse)
BOOL_OPS = {"gt0", "ge0", "eq0", "eq", "not", "isinst", "in_", "truth", "any", "all", "isnan", "isnull", "isfinite", "exc", "hasattr", "issubset"}


def is_bool(n):
    if n.op == "c":
        return n.args[0] == "bool"
    if n.op in BOOL_OPS:
        return True
    if n.op == "ite":
        return is_bool(n.args[1]) and is_bool(n.args[2])
    if n.op == "call":
        f = n.args[0]
        return f in BOOLCALLS
    if n.op == "ret":
        return False
    return False


BOOLCALLS = {"os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.isabs", ".exists", ".is_absolute", ".isnull", ".isna", ".notna", ".notnull", ".isin", "np.isnan", "np.isinf",
             "np.isin", "np.array_equal", "np.allclose", "np.isclose", ".startswith", ".endswith", ".isdigit", "pd.isna", "pd.isnull", ".is_dir", ".is_file", ".empty", "np.isfinite", "np.any", "np.all"}


def is_strlike(n):
    return (n.op == "c" and n.args[0] == "str") or n.op == "fstr" or (n.op == "ite" and (is_strlike(n.args[1]) or is_strlike(n.args[2]))) \
        or (n.op == "call" and n.args[0] in ("str", ".lower", ".upper", ".strip", ".replace", ".join", "os.path.join", ".strftime"))


LIST_OPS = {"list", "map", "fmap", "lcat", "append"}


def is_listlike(n):
    return n.op in LIST_OPS or (n.op == "call" and n.args[0] in ("list", "sorted", ".split", ".tolist")) \
        or (n.op == "mul" and any(is_listlike(a) for a in n.args)) or (n.op == "repeat")


INTCALLS = {"int", "len"}


def is_int(n):
    """integer valued scalar"""
    if n.op == "c":
        return n.args[0] == "num" and n.args[1].denominator == 1 or n.args[0] == "bool"
    if n.op in ("iv", "bv"):
        return True
    if n.op == "len" or n.op == "dim":
        return True
    if n.op == "call":
        return n.args[0] in INTCALLS
    if n.op in ("add", "mul"):
        return all(is_int(a) for a in n.args)
    if n.op == "pow":
        return is_int(n.args[0]) and is_num(n.args[1]) and num(n.args[1]) > 0 and num(n.args[1]).denominator == 1
    if n.op == "ite":
        return is_int(n.args[1]) and is_int(n.args[2])
    if n.op in ("minn", "maxn"):
        return all(is_int(a) for a in n.args)
    if n.op in ("floordiv", "mod"):
        return is_int(n.args[0]) and is_int(n.args[1])
    if n.op in ("argmin", "argmax"):
        return True
    if n.op == "red" and n.args[0] in ("count",):
        return True
    return False


def is_nonneg(n):
    if is_num(n):
        return num(n) >= 0
    if n.op in ("len", "dim", "iv", "bv"):
        return True
    return False


# ---------------------------------------------------------------- comparisons and booleans
def _lead(p):
    """deterministic leading monomial of a polynomial, constants last"""
    ms = [m for m in p if m]
    if not ms:
        return ()
    return min(ms, key=lambda m: tuple((a.key, e) for a, e in m))


def gt0(p, strict=True):
    pp = to_poly(p)
    m = _lead(pp)
    if m == ():
        c = pp.get((), 0)
        return C(c > 0 if strict else c >= 0)
    if len(m) == 1 and m[0][1] == 1 and set(pp) <= {m, ()} and m[0][0].op in ("reduce", "red") and m[0][0].args[0] in ("min", "max"):
        # an extreme value against a constant: some or every element against the constant
        r, c, s = m[0][0], pp.get((), 0), pp[m]
        if r.op == "red" and len(r.args) == 3 or r.op == "reduce" and len(r.args) == 3 and r.args[2] is NONE_:
            every = (r.args[0] == "min") == (s > 0)
            def el(x):
                e = gt0(add(scale(x, s), C(c)), strict)
                return mk_not(e) if every else e
            if r.op == "reduce":
                o = mk_reduce("any", el(r.args[1]), NONE_)
            else:
                v = fresh()
                o = mk_red("any", r.args[1], v, el(open_bind(r.args[2], (v,))))
            return mk_not(o) if every else o
    lc = abs(pp[m])
    if lc != 1:
        p = scale(p, nf(1 / Fraction(lc)))
        pp = to_poly(p)
    if is_int(p):
        # integers: p >= 0  <=>  p + 1 > 0
        if not strict:
            p = add(p, ONE)
            pp = to_poly(p)
            strict = True
    sgn = pp[m]
    if strict and len(pp) == 1 and sgn > 0 and False:
        pass
    # constant sign for a nonneg atom
    if len(m) == 1 and m[0][1] == 1 and is_nonneg(m[0][0]) and set(pp) <= {m, ()}:
        c = pp.get((), 0)
        if sgn > 0 and (c > 0 if strict else c >= 0):
            return TRUE
        if sgn < 0 and (c <= 0 if strict else c < 0):
            return FALSE
    if is_int(p) and strict and sgn < 0:
        # -q > 0 (int)  <=>  not (q + 1 > 0)   with positive leading term
        q = neg(p)
        return mk_not(gt0(add(q, ONE)))
    if sgn < 0:
        # p > 0 <=> not (-p >= 0);  p >= 0 <=> not (-p > 0)
        return mk_not(N("ge0" if strict else "gt0", neg(p)))
    return N("gt0" if strict else "ge0", p)


def cmp_lt(a, b):
    return gt0(sub(b, a))


def cmp_le(a, b):
    return gt0(sub(b, a), strict=False)


def _nonnumeric(n):
    if n.op == "c":
        return n.args[0] in ("str", "none", "bool", "other")
    return n.op in ("fstr", "tuple", "list", "dict") or is_bool(n) or is_strlike(n)


def cmp_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return C(a.args[1] == b.args[1] and a.args[0] == b.args[0])
    if is_bool(a) and b is TRUE:
        return a
    if is_bool(b) and a is TRUE:
        return b
    if is_bool(a) and b is FALSE:
        return mk_not(a)
    if is_bool(b) and a is FALSE:
        return mk_not(b)
    # equality of a conditional with a constant
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and is_const(y):
            return mk_ite(x.args[0], cmp_eq(x.args[1], y), cmp_eq(x.args[2], y))
    if b is NONE_ or a is NONE_:
        x = a if b is NONE_ else b
        if x.op in ("list", "tuple", "dict", "map", "fmap", "fstr", "add", "mul", "mm", "rec", "new", "scatter", "lcat", "dictu", "pow", "abs",
                    "len", "dim", "reduce", "setitem", "T", "repeat", "cat") or is_bool(x) or (x.op == "c"):
            return FALSE
        if x.op == "call" and (x.args[0].startswith("np.") or x.args[0] in ("round", "float", "int", "list", "sorted", ".astype", ".reshape", ".flatten", ".copy")):
            return FALSE
    if _nonnumeric(a) or _nonnumeric(b):
        if a.key > b.key:
            a, b = b, a
        return N("eq", a, b)
    p = sub(a, b)
    pp = to_poly(p)
    m = _lead(pp)
    if m == ():
        return C(pp.get((), 0) == 0)
    lc = pp[m]
    if lc != 1:
        p = scale(p, nf(1 / Fraction(lc)))
        pp = to_poly(p)
    if len(pp) == 1 and len(m) == 1 and m[0][1] == 1 and is_nonneg(m[0][0]):
        return mk_not(gt0(p))
    return N("eq0", p)


def mk_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ite":
        return mk_ite(a.args[0], mk_not(a.args[1]), mk_not(a.args[2]))
    return N("not", a)


def mk_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return mk_ite(a, b, FALSE)


def mk_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return mk_ite(a, TRUE, b)


def truth(n):
    if n.op == "c":
        t, v = n.args
        if t == "none":
            return FALSE
        if t in ("num", "bool", "str"):
            return C(bool(v))
        return TRUE
    if is_bool(n):
        return n
    if n.op == "ite":
        return mk_ite(n.args[0], truth(n.args[1]), truth(n.args[2]))
    if n.op in ("list", "tuple"):
        return C(bool(n.args))
    if is_listlike(n):
        return gt0(mk_len(n))
    if n.op in ("rec", "new", "closure"):
        return TRUE
    if n.op == "fstr":
        return TRUE if any(is_str(a) and a.args[1] for a in n.args) else N("truth", n)
    return N("truth", n)


def mk_len(n):
    if n.op in ("list", "tuple"):
        if not any(a.op == "star" for a in n.args):
            return C(len(n.args))
    if is_str(n):
        return C(len(n.args[1]))
    if n.op == "map":
        return n.args[0]
    if n.op == "lcat":
        r = ZERO
        for a in n.args:
            r = add(r, mk_len(a))
        return r
    if n.op == "repeat" and n.args[0].op == "list":
        return mul(mk_len(n.args[0]), n.args[1])
    if n.op == "call" and n.args[0] in ("sorted", "list", "np.array", "np.asarray", "np.sort", "reversed") and len(n.args) >= 2:
        return mk_len(n.args[1])
    if n.op == "ite":
        return mk_ite(n.args[0], mk_len(n.args[1]), mk_len(n.args[2]))
    if n.op in ("mm", "unordered"):
        return mk_len(n.args[0])
    if n.op == "call" and n.args[0] in (".keys", ".values", ".items") and len(n.args) == 2:
        return mk_len(n.args[1])
    if n.op == "T":
        return N("dim", n.args[0], ONE)
    if n.op == "setitem":
        # item assignment keeps the length of an array / list (dicts may grow: keep opaque)
        if n.args[0].op in ("repeat", "zeros", "map", "list"):
            return mk_len(n.args[0])
    return N("len", n)


def slope(t, v):
    """constant nonzero factor of v in a term that is linear in v, else None"""
    if v not in t.free:
        return None
    pp = to_poly(t)
    c = None
    for m, q in pp.items():
        for a, e in m:
            if a is v:
                if len(m) != 1 or e != 1:
                    return None
                c = q
            elif v in a.free:
                return None
    return c


def mk_sorted(x, items):
    """sorted(x, key=.., reverse=..)"""
    y = x
    while True:
        if y.op == "call" and y.args[0] in ("list", "tuple") and len(y.args) == 2:
            y = y.args[1]
        elif y.op == "unordered":
            y = y.args[0]
        else:
            break
    if y.op == "map" and all(k.args[0] == "key" for k in items):
        v = fresh()
        body = open_bind(y.args[1], (v,))
        if items:
            lam = items[0].args[1]
            key = open_multi(lam.args[0], (body,))[0] if lam.op == "lam" and len(lam.args[0].args[0].args) == 1 else None
        else:
            key = body
        while key is not None and key.op == "tuple" and key.args:
            key = key.args[0]
        if key is not None:
            c = slope(key, v)
            if c is not None and c > 0:
                return y
    return N("call", "sorted", x, *items)


def order_free(t, iv):
    """t with unordered(m)[iv] replaced by m[iv]"""
    m = {}
    stack, seen = [t], set()
    while stack:
        z = stack.pop()
        if z in seen or not isinstance(z, Node):
            continue
        seen.add(z)
        if z.op == "unordered":
            m[z] = z.args[0]
            continue
        stack += [a for a in z.args if isinstance(a, Node)]
    return replace(t, m) if m else t


# -- theory of related atoms ------------------------------------------------
def _lin(atom):
    """(base poly without constant, constant, kind)"""
    if atom.op in ("gt0", "ge0", "eq0"):
        pp = dict(to_poly(atom.args[0]))
        c = pp.pop((), 0)
        return (tuple(sorted(((m, k) for m, k in pp.items()), key=lambda x: tuple((a.key, e) for a, e in x[0]))), c, atom.op)
    return None


_LIN = {}


def lin(atom):
    r = _LIN.get(atom, 0)
    if r == 0:
        r = _lin(atom)
        _LIN[atom] = r
    return r


def _norm_dir(l):
    """normalise base sign: returns (base, sign, const, kind): atom is sign*base + const ? 0"""
    base, c, k = l
    if base and base[0][1] < 0:
        return tuple((m, -q) for m, q in base), -1, c, k
    return base, 1, c, k


def implied(atom, val, other):
    """value of `other` given atom == val, or None"""
    if atom is other:
        return val
    if atom.op == "eq" and other.op == "eq" and val:
        for x, y in ((0, 1), (1, 0)):
            if is_const(atom.args[x]):
                for z, w in ((0, 1), (1, 0)):
                    if is_const(other.args[z]) and other.args[w] is atom.args[y]:
                        return other.args[z] is atom.args[x]
        return None
    if atom.op == "eq" and val and other.op in ("truth", "isinst", "gt0", "ge0", "eq0"):
        for x, y in ((0, 1), (1, 0)):
            if atom.args[x] is NONE_ and other.args[0] is atom.args[y] and other.op in ("truth", "isinst"):
                if other.op == "truth":
                    return False
                return False
            if other.op == "truth" and is_const(atom.args[x]) and other.args[0] is atom.args[y]:
                return bool(cval(atom.args[x]))
        return None
    if atom.op == "truth" and val and other.op == "eq":
        for x, y in ((0, 1), (1, 0)):
            if is_const(other.args[x]) and other.args[y] is atom.args[0] and not cval(other.args[x]):
                return False
        return None
    if atom.op == "isinst" and val and other.op == "eq":
        for x, y in ((0, 1), (1, 0)):
            if other.args[x] is NONE_ and other.args[y] is atom.args[0]:
                return False
        return None
    la, lo = lin(atom), lin(other)
    if la is None or lo is None:
        return None
    ba, sa, ca, ka = _norm_dir(la)
    bo, so, co, ko = _norm_dir(lo)
    if ba != bo:
        return None
    # interval of x = base under atom==val :  sa*x + ca ? 0
    lo_, hi_, los, his = None, None, False, False     # bounds and strictness
    ne = None
    if ka == "eq0":
        v = Fraction(-ca) / sa
        if val:
            lo_, hi_ = v, v
        else:
            ne = v
    else:
        strict = (ka == "gt0")
        if not val:
            # not (s x + c > 0): s x + c <= 0
            s, c, strict = -sa, -ca, not strict
        else:
            s, c = sa, ca
        b = Fraction(-c) / s
        if s > 0:
            lo_, los = b, strict
        else:
            hi_, his = b, strict
    # evaluate other
    if ko == "eq0":
        v = Fraction(-co) / so
        if lo_ is not None and hi_ is not None and lo_ == hi_:
            return v == lo_
        if ne is not None and v == ne:
            return False
        if lo_ is not None and (v < lo_ or (v == lo_ and los)):
            return False
        if hi_ is not None and (v > hi_ or (v == hi_ and his)):
            return False
        return None
    strict = (ko == "gt0")
    b = Fraction(-co) / so
    if so > 0:      # x > b (or >=)
        if lo_ is not None and (lo_ > b or (lo_ == b and (los or not strict))):
            return True
        if hi_ is not None and (hi_ < b or (hi_ == b and (his or strict))):
            return False
    else:           # x < b (or <=)
        if hi_ is not None and (hi_ < b or (hi_ == b and (his or not strict))):
            return True
        if lo_ is not None and (lo_ > b or (lo_ == b and (los or strict))):
            return False
    return None


_REL = {}
_RELSET = {}
_RELATED = {}


def relkeys(c):
    """atoms can only decide each other when they share one of these keys"""
    r = _REL.get(c)
    if r is None:
        ks = {c}
        if c.op in ("gt0", "ge0", "eq0"):
            l = lin(c)
            ks.add(_norm_dir(l)[0])
        elif c.op == "eq":
            ks |= {("v", x) for x in c.args if not is_const(x)}
        elif c.op in ("truth", "isinst"):
            ks.add(("v", c.args[0]))
        r = _REL[c] = frozenset(ks)
    return r


def related(atom, conds):
    """some condition among conds is decided by atom"""
    if not conds:
        return False
    k = (atom, conds)
    r = _RELATED.get(k)
    if r is None:
        rs = _RELSET.get(conds)
        if rs is None:
            rs = {}
            for c in conds:
                for q in relkeys(c):
                    rs.setdefault(q, []).append(c)
            _RELSET[conds] = rs
        cand = {c for q in relkeys(atom) for c in rs.get(q, ())}
        r = _RELATED[k] = bool(cand) and related_(atom, cand)
    return r


def related_(atom, conds):
    for c in conds:
        if c is atom or (c.op in ("eq", "truth", "isinst", "gt0", "ge0", "eq0") and atom.op in ("eq", "truth", "isinst", "gt0", "ge0", "eq0")
                         and (implied(atom, True, c) is not None or implied(atom, False, c) is not None
                              or c.op == "eq0" and atom.op in ("gt0", "ge0") and c.args[0] is atom.args[0])):
            return True
    return False


_RESTRICT = {}


def restrict(n, atom, val):
    """n under the assumption atom == val"""
    if n is atom:
        return C(val)
    if not n.conds and n.size < 2:
        return n
    k = (n, atom, val)
    r = _RESTRICT.get(k)
    if r is not None:
        return r
    if not related(atom, n.conds):
        _RESTRICT[k] = n
        return n
    if n.op in ATOM_OPS:
        v = implied(atom, val, n)
        if v is not None:
            r = C(v)
            _RESTRICT[k] = r
            return r
        if n.op == "eq0" and atom.op in ("gt0", "ge0") and n.args[0] is atom.args[0]:
            # equal, knowing the order already: one more comparison
            if atom.op == "gt0" and not val:
                n = N("ge0", n.args[0])
            elif atom.op == "ge0" and val:
                n = mk_not(N("gt0", n.args[0]))
            _RESTRICT[k] = n
            return n
    if n.op == "ite":
        c = n.args[0]
        v = implied(atom, val, c)
        if v is True:
            r = restrict(n.args[1], atom, val)
        elif v is False:
            r = restrict(n.args[2], atom, val)
        else:
            c2 = restrict(c, atom, val)
            r = mk_ite(c2, restrict(n.args[1], atom, val), restrict(n.args[2], atom, val))
    else:
        args = tuple(restrict(a, atom, val) if isinstance(a, Node) and (a.conds or a is atom) else a for a in n.args)
        r = n if args == n.args else rebuild(n.op, args)
    _RESTRICT[k] = r
    return r


_ITE = {}


def lit(c):
    """(atom, positive?)"""
    if c.op == "not":
        return c.args[0], False
    return c, True


ITE_BUDGET = [200000]


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if c.op == "ite":
        return mk_ite(c.args[0], mk_ite(c.args[1], a, b), mk_ite(c.args[2], a, b))
    if c.op == "not":
        return mk_ite(c.args[0], b, a)
    if c.op == "ge0" and _extreme(c, a, b):
        c = N("gt0", c.args[0])         # equal outcomes at the boundary
    elif c.op == "gt0" and is_int(c.args[0]) and (c1 := gt0(sub(c.args[0], ONE))).op == "gt0" and _extreme(c1, a, b):
        c = c1
    k = (c, a, b)
    r = _ITE.get(k)
    if r is not None:
        return r
    a2 = restrict(a, c, True)
    b2 = restrict(b, c, False)
    if c.op == "eq":
        # y == "text": an outcome y of this branch is that text
        for x, y in (c.args, c.args[::-1]):
            if is_const(x) and is_str(x) and not is_const(y):
                a2 = known_leaf(a2, y, x)
    if a2 is b2:
        r = a2
    elif c.op in ATOM_OPS and b2.op == "ite" and related(c, b2.conds) and restrict(b2, c, True) is a2:
        r = b2          # the other branch gives the same outcome here
    elif c.op in ATOM_OPS and a2.op == "ite" and related(c, a2.conds) and restrict(a2, c, False) is b2:
        r = a2
    elif a2 is TRUE and b2 is FALSE:
        r = c
    elif a2 is FALSE and b2 is TRUE:
        r = mk_not(c)
    else:
        # ordered decision diagram: smaller conditions first
        tops = [topcond(x) for x in (a2, b2)]
        tops = [t for t in tops if t is not None and okey(t) < okey(c)]
        if tops and ITE_BUDGET[0] > 0:
            ITE_BUDGET[0] -= 1
            t = min(tops, key=okey)
            r = mk_ite(t, mk_ite(restrict(c, t, True), restrict(a2, t, True), restrict(b2, t, True)),
                       mk_ite(restrict(c, t, False), restrict(a2, t, False), restrict(b2, t, False)))
        else:
            r = N("ite", c, a2, b2)
    _ITE[k] = r
    return r


NOTNUM = frozenset("ite tuple list dict rec fstr scatter setitem map fmap new".split())


def _extreme(c, a, b):
    """c compares a with b"""
    if a.op in NOTNUM or b.op in NOTNUM or _nonnumeric(a) or _nonnumeric(b):
        return False
    d = to_poly(c.args[0])
    if len(d) > 6:
        return False
    e = to_poly(sub(a, b))
    return set(d) == set(e) and len({Fraction(e[m]) / Fraction(d[m]) for m in d}) == 1


def mk_choose(kind, a, b):
    """min(a, b) and max(a, b) of two scalars"""
    if is_num(a) and is_num(b) or a is b:
        return mk_minmax(kind + "n", (a, b))
    g = gt0(sub(a, b))
    return mk_ite(g, a, b) if kind == "max" else mk_ite(g, b, a)


def known_leaf(n, y, x):
    """decision diagram n with the outcome y replaced by x"""
    if n is y:
        return x
    if n.op == "ite":
        p, q = known_leaf(n.args[1], y, x), known_leaf(n.args[2], y, x)
        return n if p is n.args[1] and q is n.args[2] else mk_ite(n.args[0], p, q)
    return n


_OK = {"gt0": 0, "ge0": 1, "eq0": 2}


def okey(c):
    """order of the conditions of a decision diagram: comparisons of one quantity together, order before equality"""
    return (c.args[0].key, _OK[c.op]) if c.op in _OK else (c.key, 0)


def topcond(x):
    if x.op == "ite":
        return x.args[0]
    if x.op == "not":
        return x.args[0]
    if x.op in ATOM_OPS or (x.op in ("reduce", "red") and x.args[0] in ("any", "all")):
        return x
    return None


# ---------------------------------------------------------------- other constructors
def mm(*xs):
    fs = []
    coef = 1
    for x in xs:
        p = to_poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c != 1 and m:
                coef *= c
                x = from_poly({m: 1})
        if x.op == "mm":
            fs.extend(x.args)
        else:
            fs.append(x)
    if len(fs) == 2 and fs[1].op == "list" and len(fs[1].args) == 1 and fs[0].op == "getitem" and fs[0].args[1] is N("tuple", N("slice", NONE_, NONE_, NONE_), NONE_):
        r = mul(fs[0], fs[1].args[0])          # a column times a row
        return r if coef == 1 else scale(r, coef)
    r = N("mm", *fs)
    return r if coef == 1 else scale(r, coef)


def transpose(x):
    if x.op == "T":
        return x.args[0]
    if x.op == "c":
        return x
    if x.op == "mm":
        return N("mm", *[transpose(a) for a in reversed(x.args)])
    if x.op in ("add", "mul"):
        r = ZERO if x.op == "add" else ONE
        for a in x.args:
            t = transpose(a)
            r = add(r, t) if x.op == "add" else mul(r, t)
        return r
    if x.op == "pow":
        return power(transpose(x.args[0]), num(x.args[1])) if is_num(x.args[1]) else N("T", x)
    if x.op in ("len", "dim", "iv", "bv", "sum0"):
        return x
    return N("T", x)


def mk_abs(x):
    p = to_poly(x)
    m = _lead(p)
    if m == ():
        return C(abs(p.get((), 0))) if is_num(x) else N("abs", x)
    if p[m] < 0:
        x = neg(x)
        p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            return scale(mk_abs(from_poly({m: 1})), abs(c))
    if x.op == "abs":
        return x
    return N("abs", x)


def is_slice_full(k):
    return k.op == "slice" and all(a is NONE_ for a in k.args)


def is_scalar_index(k):
    return k.op in ("iv", "bv", "len") or (k.op == "c" and k.args[0] in ("num", "str", "bool")) or is_int(k) or k.op == "fstr"


def mk_getitem(x, k):
    if x.op == "attr" and x.args[1] == "loc" and (is_mask(k) or k.op == "ite" and (is_mask(k.args[1]) and is_mask(k.args[2]))):
        return mk_getitem(x.args[0], k)           # rows selected by a condition
    if k.op == "ite" and is_bool(k):
        c = scalar_cond(k)
        if c is not None:
            return mk_ite(c, mk_getitem(x, restrict(k, c, True)), mk_getitem(x, restrict(k, c, False)))
    if x.op == "getitem" and is_mask(k) and is_mask(x.args[1]) and has_sub(k, x.args[0]) and not has_sub(k, x):
        return mk_getitem(x.args[0], mk_and(x.args[1], k))          # rows selected by one condition, then by another of the same table
    if k.op == "tuple" and k.args and x.op not in ("attr", "dict", "scatter", "dictu") and all(is_scalar_index(a) for a in k.args) and len(k.args) > 1:
        r = x
        for a in k.args:
            r = mk_getitem(r, a)
        return r
    if k.op == "tuple" and len(k.args) == 2 and is_slice_full(k.args[1]) and is_scalar_index(k.args[0]) and x.op != "attr":
        return mk_getitem(x, k.args[0])
    if x.op == "ite" and (x.args[1].op in ("list", "tuple", "dict", "map", "setitem", "scatter") or x.args[2].op in ("list", "tuple", "dict", "map", "setitem", "scatter")):
        return mk_ite(x.args[0], mk_getitem(x.args[1], k), mk_getitem(x.args[2], k))
    if k.op == "ite" and is_const(k.args[1]) and is_const(k.args[2]):
        return mk_ite(k.args[0], mk_getitem(x, k.args[1]), mk_getitem(x, k.args[2]))
    if x.op in ("tuple", "list") and is_num(k) and num(k).denominator == 1:
        i = int(num(k))
        if -len(x.args) <= i < len(x.args) and not any(a.op == "star" for a in x.args):
            return x.args[i]
    if x.op in ("tuple", "list") and k.op == "slice" and all(a is NONE_ or is_num(a) for a in k.args):
        sl = slice(*[None if a is NONE_ else int(num(a)) for a in k.args])
        return N(x.op, *x.args[sl])
    if x.op == "dict":
        hit = None
        ok = True
        for kk, vv in zip(x.args[::2], x.args[1::2]):
            if kk is k:
                hit = vv
            elif not (is_const(kk) and is_const(k)):
                ok = False
        if hit is not None and ok:
            return hit
        if hit is not None and x.args[-2] is k:
            return hit
    if x.op == "setitem":
        b, j, v = x.args
        if j is k:
            return v
        if is_const(j) and is_const(k):
            return mk_getitem(b, k)
        if is_int(j) and is_int(k) and is_num(sub(j, k)):
            return mk_getitem(b, k)
    if x.op == "map" and (k.op in ("iv", "bv") or (is_num(k) and num(k) >= 0) or (is_int(k) and k.op != "c" and not (k.op == "add"))):
        return open_bind(x.args[1], (k,))
    if x.op == "repeat" and x.args[0].op == "list" and len(x.args[0].args) == 1 and is_scalar_index(k) and not is_str(k):
        return x.args[0].args[0]
    if x.op == "scatter" and x.args[1] is not NONE_:
        # scatter(init, n, bind(iv -> cond, key, val)) with key == iv and no condition
        cond, key, val = x.args[2].args[1:]
        bvn = x.args[2].args[0].args[0]
        if key is bvn and cond is TRUE and k.op in ("iv", "bv"):
            return open_bind(x.args[2], (k,))[2] if False else open_multi(x.args[2], (k,))[2]
    if x.op == "T" and is_scalar_index(k) and not is_str(k):
        return N("getitem", x.args[0], N("tuple", N("slice", NONE_, NONE_, NONE_), k))
    if x.op == "T" and k.op == "tuple" and len(k.args) == 2 and is_slice_full(k.args[0]):
        return mk_getitem(x.args[0], k.args[1])
    if x.op == "attr" and x.args[1] == "shape" and is_num(k):
        i = int(num(k))
        if i == 0:
            return mk_len(x.args[0])
        if i > 0:
            return mk_dim(x.args[0], C(i))
    return N("getitem", x, k)


def scalar_cond(n):
    """a condition of a decision diagram that is one truth value, not one per row"""
    found, stack, seen = [], [n], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack += x.args
        elif x.op in ("not", "and", "or"):
            stack += x.args
        elif x.op in ("eq0", "eq", "gt0", "ge0"):
            if all(is_int(a) or a is NONE_ for a in x.args) or any(a is NONE_ or a.op in ("set", "setof") or
                    a.op == "add" and any(b.op in ("set", "setof") for b in a.args) for a in x.args):
                found.append(x)
        elif x.op in ("isinst", "exc", "hasattr", "issubset"):
            found.append(x)
    return min(found, key=lambda x: x.key) if found else None


def mk_dim(x, i):
    if is_num(i) and num(i) == 0:
        return mk_len(x)
    if x.op == "T" and is_num(i) and num(i) == 1:
        return mk_len(x.args[0])
    if x.op == "mm" and is_num(i) and num(i) == 1:
        return mk_dim(x.args[-1], i)
    return N("dim", x, i)


def has_op(n, ops, seen=None):
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            return True
        st.extend(a for a in x.args if isinstance(a, Node))
    return False


def _unmask(v, mask):
    """v assigned to x[mask]: elementwise value, or None"""
    if v.op == "c":
        return v
    if v.op == "getitem":
        if v.args[1] is mask:
            return v.args[0]
        return None
    if v.op in ("add", "mul"):
        r = None
        for a in v.args:
            u = _unmask(a, mask)
            if u is None:
                return None
            r = u if r is None else (add(r, u) if v.op == "add" else mul(r, u))
        return r
    if v.op == "pow":
        u = _unmask(v.args[0], mask)
        return None if u is None or not is_num(v.args[1]) else power(u, num(v.args[1]))
    if v.op in ("in", "attr", "iv", "bv", "ret", "call", "st"):
        # unknown scalar or compressed array
        return None
    return None


def is_mask(k):
    return (is_bool(k) and not is_const(k))


def _full_slice(a):
    return a.op == "slice" and all(q is NONE_ for q in a.args)


def mk_setitem(x, k, v):
    if k.op == "tuple" and len(k.args) > 1 and x.op not in ("dict", "scatter", "dictu") and all(is_scalar_index(a) for a in k.args):
        h, t = k.args[0], k.args[1:]
        inner = mk_getitem(x, h)
        return mk_setitem(x, h, mk_setitem(inner, t[0] if len(t) == 1 else N("tuple", *t), v))
    if k.op == "tuple" and len(k.args) > 1 and is_scalar_index(k.args[0]) and all(_full_slice(a) for a in k.args[1:]) \
            and x.op not in ("dict", "scatter", "dictu", "attr"):
        k = k.args[0]
    if is_mask(k):
        u = _unmask(v, k)
        if u is not None:
            return mk_ite(k, u, x)
    if v.op == "getitem" and v.args[0] is x and v.args[1] is k:
        return x
    if x.op == "setitem" and x.args[1] is k:
        return mk_setitem(x.args[0], k, v)
    if x.op == "list" and is_num(k) and -len(x.args) <= num(k) < len(x.args):
        a = list(x.args)
        a[int(num(k))] = v
        return N("list", *a)
    if x.op == "dict" and is_const(k) and all(is_const(q) for q in x.args[::2]):
        a = list(x.args)
        for i in range(0, len(a), 2):
            if a[i] is k:
                a[i + 1] = v
                return N("dict", *a)
        return N("dict", *(a + [k, v]))
    if x.op == "setitem" and is_const(x.args[1]) and is_const(k) and k.key < x.args[1].key:
        # independent constant keys: canonical order
        return N("setitem", mk_setitem(x.args[0], k, v), x.args[1], x.args[2])
    if v.op == "ite" and v.args[2].op == "getitem" and v.args[2].args[0] is x and v.args[2].args[1] is k:
        return mk_ite(v.args[0], mk_setitem(x, k, v.args[1]), x) if not is_mask_like(v.args[0]) else N("setitem", x, k, v)
    return N("setitem", x, k, v)


def is_mask_like(c):
    return False


def mk_attr(x, name):
    if x.op == "rec":
        for f in x.args[1:]:
            if f.args[0] == name:
                return f.args[1]
    if x.op == "setattr":
        if x.args[1] == name:
            return x.args[2]
        return mk_attr(x.args[0], name)
    if x.op == "ite":
        if x.args[1].op in ("rec", "setattr", "new", "after") or x.args[2].op in ("rec", "setattr", "new", "after"):
            return mk_ite(x.args[0], mk_attr(x.args[1], name), mk_attr(x.args[2], name))
    if name == "T":
        return transpose(x)
    if x.op == "setitem" and is_str(x.args[1]) and name not in TABLE_ATTRS and not (x.args[0].op == "attr"):
        return x.args[2] if x.args[1].args[1] == name else mk_attr(x.args[0], name)
    return N("attr", x, name)


TABLE_ATTRS = frozenset("columns shape values index loc iloc at iat size ndim dtypes dtype axes empty flags T str dt plot attrs keys items".split())


def sub_ops(n, op):
    """subterms with an operator"""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == op:
            out.add(x)
        stack += [a for a in x.args if isinstance(a, Node)]
    return out


def has_sub(n, s, seen=None):
    """s occurs in n"""
    if n is s:
        return True
    if n.size <= s.size:
        return False
    seen = set() if seen is None else seen
    if n in seen:
        return False
    seen.add(n)
    return any(isinstance(a, Node) and has_sub(a, s, seen) for a in n.args)


def mk_setattr(x, name, v):
    if v.op == "attr" and v.args[0] is x and v.args[1] == name:
        return x
    if x.op == "setattr":
        if x.args[1] == name:
            return mk_setattr(x.args[0], name, v)
        if name < x.args[1]:
            return N("setattr", mk_setattr(x.args[0], name, v), x.args[1], x.args[2])
    if x.op == "rec":
        fs = [f for f in x.args[1:] if f.args[0] != name] + [N("kw", name, v)]
        return N("rec", x.args[0], *sorted(fs, key=lambda f: f.args[0]))
    return N("setattr", x, name, v)


def mk_fstr(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            out.extend(p.args)
        elif p.op == "c" and p.args[0] in ("str", "num", "bool", "none") and not (p.args[0] == "num" and p.args[1].denominator != 1):
            out.append(C(str(cval(p))))
        elif p.op == "call" and p.args[0] == "str" and len(p.args) == 2:
            out.append(p.args[1])
        else:
            out.append(p)
    m = []
    for p in out:
        if is_str(p) and p.args[1] == "":
            continue
        if m and is_str(p) and is_str(m[-1]):
            m[-1] = C(m[-1].args[1] + p.args[1])
        else:
            m.append(p)
    if not m:
        return C("")
    if len(m) == 1 and is_str(m[0]):
        return m[0]
    return N("fstr", *m)


def mk_lcat(*xs):
    out = []
    for x in xs:
        if x.op == "lcat":
            out.extend(x.args)
        else:
            out.append(x)
    m = []
    for x in out:
        if x.op == "list" and not x.args:
            continue
        if m and x.op == "list" and m[-1].op == "list":
            m[-1] = N("list", *(m[-1].args + x.args))
        else:
            m.append(x)
    if not m:
        return N("list")
    if len(m) == 1:
        return m[0]
    return N("lcat", *m)


def py_add(a, b):
    if is_strlike(a) or is_strlike(b):
        return mk_fstr([a, b])
    if is_listlike(a) or is_listlike(b):
        return mk_lcat(a, b)
    if a.op == "tuple" and b.op == "tuple":
        return N("tuple", *(a.args + b.args))
    return add(a, b)


def py_mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "list":
            if is_num(y) and num(y).denominator == 1 and 0 <= num(y) <= 16:
                return N("list", *(x.args * int(num(y))))
            return N("repeat", x, y)
        if x.op == "tuple":
            return N("repeat", x, y)
    return mul(a, b)


# ---------------------------------------------------------------- binders
_fresh = [0]


def fresh(op="iv", hint="h"):
    """a new variable; its ordering key depends on the hint only, so normal forms do not depend on numbering"""
    _fresh[0] += 1
    n = N(op, "#%d" % _fresh[0])
    n.key = hashlib.blake2b((op + "~" + hint).encode(), digest_size=10).digest()
    return n


_HEIGHT = {}


def height(n):
    """largest bv index bound inside n"""
    if not isinstance(n, Node):
        return 0
    h = _HEIGHT.get(n)
    if h is None:
        h = 0
        if n.op == "bind":
            h = max(int(v.args[0]) for v in n.args[0].args) if n.args[0].args else 0
        for a in n.args:
            if isinstance(a, Node):
                h = max(h, height(a))
        _HEIGHT[n] = h
    return h


def bind(vars_, *bodies):
    """close the free variables vars_ over the bodies"""
    h = max([height(b) for b in bodies] + [0])
    bvs = tuple(N("bv", str(h + 1 + i)) for i in range(len(vars_)))
    m = dict(zip(vars_, bvs))
    bodies = tuple(subst(b, m) for b in bodies)
    h2 = max([height(b) for b in bodies] + [0])
    if h2 != h:
        # simplification changed the nesting: renumber
        bvs2 = tuple(N("bv", str(h2 + 1 + i)) for i in range(len(vars_)))
        if bvs2 != bvs:
            tmp = {b: fresh(hint="h" + b.args[0]) for b in bvs}
            bodies = tuple(subst(subst(b, tmp), {tmp[o]: n for o, n in zip(bvs, bvs2)}) for b in bodies)
            bvs = bvs2
    return N("bind", N("vars", *bvs), *bodies)


def rebind(bvs, bodies):
    """close already numbered bodies again, renumbering only when the nesting changed"""
    h = max([height(b) for b in bodies] + [0])
    if not bvs or bvs[0].args[0] == str(h + 1):
        return N("bind", N("vars", *bvs), *bodies)
    tmp = {b: fresh(hint="h" + b.args[0]) for b in bvs}
    return bind(tuple(tmp[b] for b in bvs), *[subst(b, tmp) for b in bodies])


def open_multi(b, vals):
    m = dict(zip(b.args[0].args, vals))
    return tuple(subst(x, m) for x in b.args[1:])


def open_bind(b, vals):
    return open_multi(b, vals)[0]


_SUBST_CACHE = {}


def subst(n, m):
    """capture-free substitution of variables (iv/st/bv nodes) and re-simplification"""
    if not m or n.free.isdisjoint(m):
        return n
    keys = frozenset(x for x in m if x in n.free)
    if len(keys) != len(m):
        m = {x: m[x] for x in keys}
    ck = frozenset(m.items())
    cache = _SUBST_CACHE.get(ck)
    if cache is None:
        if len(_SUBST_CACHE) > 20000:
            _SUBST_CACHE.clear()
        cache = _SUBST_CACHE[ck] = {}

    def go(x):
        if x.free.isdisjoint(keys):
            return x
        r = cache.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op == "bind":
            # bound numbers are heights: values substituted here never contain the bound ones
            bvs = x.args[0].args
            clash = any(v in val.free for v in bvs for val in m.values())
            if clash:
                tmp = tuple(fresh(hint="h" + b.args[0]) for b in bvs)
                bodies = open_multi(x, tmp)
                r = bind(tmp, *[subst(b, m) for b in bodies])
            else:
                r = rebind(bvs, tuple(go(b) for b in x.args[1:]))
        else:
            args = tuple(go(a) if isinstance(a, Node) else a for a in x.args)
            r = rebuild(x.op, args)
        cache[x] = r
        return r
    return go(n)


_RSUB = {}


def replace(n, m):
    """replace arbitrary sub-terms (not only variables)"""
    cache = {}

    def go(x):
        if x in m:
            return m[x]
        r = cache.get(x)
        if r is not None:
            return r
        args = tuple(go(a) if isinstance(a, Node) else a for a in x.args)
        r = x if args == x.args else rebuild(x.op, args)
        cache[x] = r
        return r
    return go(n)


def mk_map(n, var, body):
    """[body for var in range(n)]"""
    # identity map
    if body.op == "getitem" and body.args[1] is var and var not in body.args[0].free and mk_len(body.args[0]) is n:
        return N("call", "list", body.args[0]) if not is_listlike(body.args[0]) else body.args[0]
    if is_num(n) and 0 <= num(n) <= 8:
        return N("list", *[subst(body, {var: C(i)}) for i in range(int(num(n)))])
    if var not in body.free and body.op not in ("list", "dict", "map", "new", "repeat", "scatter", "lcat", "call", "after"):
        return N("repeat", N("list", body), n)
    return N("map", n, bind((var,), body))


def mk_fmap(n, var, cond, body):
    if cond is TRUE:
        return mk_map(n, var, body)
    if cond is FALSE:
        return N("list")
    return N("fmap", n, bind((var,), cond, body))


def mk_red(kind, n, var, body):
    """kind in sum, any, all, max, min, prod"""
    if is_num(n) and 0 <= num(n) <= 8 and kind in ("sum", "any", "all"):
        r = {"sum": ZERO, "any": FALSE, "all": TRUE}[kind]
        for i in range(int(num(n))):
            b = subst(body, {var: C(i)})
            r = add(r, b) if kind == "sum" else (mk_or(r, b) if kind == "any" else mk_and(r, b))
        return r
    if kind == "all":
        return mk_not(mk_red("any", n, var, mk_not(body)))
    if kind == "any":
        if body is FALSE:
            return FALSE
    if kind == "sum":
        # linearity: pull constants and split sums
        p = to_poly(body)
        if not p:
            return ZERO
        tot = ZERO
        for m, c in p.items():
            inner = tuple((a, e) for a, e in m if var in a.free)
            outer = tuple((a, e) for a, e in m if var not in a.free)
            if not inner:
                t = mul(n, from_poly({outer: 1}))
            else:
                t = mul(N("red", "sum", n, bind((var,), from_poly({inner: 1}))), from_poly({outer: 1}))
            tot = add(tot, scale(t, c))
        return tot
    return N("red", kind, n, bind((var,), body))


def rebuild(op, args):
    """smart reconstruction"""
    if op == "add":
        p = {}
        for a in args:
            for m, c in to_poly(a).items():
                p[m] = p.get(m, 0) + c
        return from_poly({m: (c if type(c) is int else nf(c)) for m, c in p.items() if c != 0})
    if op == "mul":
        r = args[0]
        for a in args[1:]:
            r = mul(r, a)
        return r
    if op == "pow":
        return power(args[0], num(args[1])) if is_num(args[1]) else N("pow", *args)
    if op == "gt0":
        return gt0(args[0])
    if op == "ge0":
        return gt0(args[0], False)
    if op == "eq0":
        return cmp_eq(args[0], ZERO)
    if op == "eq":
        return cmp_eq(*args)
    if op == "not":
        return mk_not(args[0])
    if op == "ite":
        return mk_ite(*args)
    if op == "truth":
        return truth(args[0])
    if op == "len":
        return mk_len(args[0])
    if op == "dim":
        return mk_dim(*args)
    if op == "getitem":
        return mk_getitem(*args)
    if op == "setitem":
        return mk_setitem(*args)
    if op == "attr":
        return mk_attr(*args)
    if op == "setattr":
        return mk_setattr(*args)
    if op == "fstr":
        return mk_fstr(args)
    if op == "lcat":
        return mk_lcat(*args)
    if op == "mm":
        return mm(*args)
    if op == "T":
        return transpose(args[0])
    if op == "abs":
        return mk_abs(args[0])
    if op == "map":
        v = fresh(hint="h%d" % height(args[1]))
        return mk_map(args[0], v, open_bind(args[1], (v,)))
    if op == "fmap":
        v = fresh(hint="h%d" % height(args[1]))
        c, b = open_multi(args[1], (v,))
        return mk_fmap(args[0], v, c, b)
    if op == "red":
        v = fresh(hint="h%d" % height(args[2]))
        return mk_red(args[0], args[1], v, open_bind(args[2], (v,)))
    if op == "bind":
        return rebind(args[0].args, args[1:])
    if op == "maxn" or op == "minn":
        return mk_minmax(op, args)
    if op == "reduce":
        return mk_reduce(*args)
    return N(op, *args)


def mk_minmax(op, args):
    s = []
    for a in args:
        if a.op == op:
            s.extend(a.args)
        else:
            s.append(a)
    s = sorted(set(s), key=lambda x: x.key)
    if all(is_num(a) for a in s):
        return C((max if op == "maxn" else min)(num(a) for a in s))
    return s[0] if len(s) == 1 else N(op, *s)


def mk_reduce(kind, x, axis):
    """whole-array reduction"""
    if axis is NONE_ and kind in ("sum", "any", "all", "max", "min") and x.op == "map":
        v = fresh()
        return mk_red(kind, x.args[0], v, open_bind(x.args[1], (v,)) if kind not in ("any", "all") else truth(open_bind(x.args[1], (v,))))
    if kind == "all":
        if is_bool(x):
            r = mk_reduce("any", mk_not(x), axis)
            return mk_not(r)
    if kind == "any" and axis is NONE_:
        if x.op == "reduce" and x.args[0] == "any":
            return mk_reduce("any", x.args[1], NONE_)
        if x.op in ("list", "tuple"):
            r = FALSE
            for a in x.args:
                r = mk_or(r, truth(a))
            return r
    if kind == "all" and axis is NONE_ and x.op in ("list", "tuple"):
        r = TRUE
        for a in x.args:
            r = mk_and(r, truth(a))
        return r
    if kind == "sum" and x.op in ("add", "mul") and x.op == "mul" and is_num(x.args[0]):
        return scale(mk_reduce("sum", from_poly({m: 1 for m in to_poly(x)}), axis), num(x.args[0]))
    if kind == "sum" and axis is NONE_ and x.op == "list":
        r = ZERO
        for a in x.args:
            r = add(r, a)
        return r
    if kind in ("max", "min") and axis is NONE_ and x.op in ("list", "tuple") and x.args:
        return mk_minmax(kind + "n", x.args)
    if kind in ("max", "min") and x.op == "mul" and is_num(x.args[0]) and num(x.args[0]) < 0:
        return neg(mk_reduce("min" if kind == "max" else "max", neg(x), axis))
    if kind == "mean":
        pass
    if kind in ("any",):
        return N("anyr", x, axis) if False else N("reduce", kind, x, axis)
    return N("reduce", kind, x, axis)


BOOL_OPS.add("in_")
_old_is_bool = is_bool


def is_bool(n):          # noqa: F811
    if n.op in ("reduce", "red") and n.args[0] in ("any", "all"):
        return True
    return _old_is_bool(n)


COMM = {"add", "mul", "maxn", "minn", "set", "bitand", "bitor"}


def colour(n, m, memo):
    """hash of a term modulo the names of the variables in m and modulo the ordering of
    commutative arguments and of the conditions of a decision diagram"""
    c = m.get(n)
    if c is not None:
        return c
    if n.free.isdisjoint(m):
        return n.key
    c = memo.get(n)
    if c is not None:
        return c
    o = n.op
    if o == "not":
        c = memo[n] = colour(n.args[0], m, memo)
        return c
    h = hashlib.blake2b(digest_size=10)
    if o in ("gt0", "ge0", "eq0"):
        p = n.args[0]
        if o == "eq0":
            parts = sorted([colour(p, m, memo), colour(neg(p), m, memo)])
        else:
            other = "ge0" if o == "gt0" else "gt0"
            parts = sorted([o.encode() + colour(p, m, memo), other.encode() + colour(neg(p), m, memo)])
            o = "ineq"
    elif o == "ite":
        conds, lv, todo, seen = set(), set(), [n], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                conds.add(colour(x.args[0], m, memo))
                todo += [x.args[1], x.args[2]]
            elif is_bool(x) and x.op != "c":
                conds.add(colour(x, m, memo))
            elif x is not TRUE and x is not FALSE:
                lv.add(colour(x, m, memo))
        parts = sorted(conds) + [b"/"] + sorted(lv)
    else:
        parts = [colour(a, m, memo) if isinstance(a, Node) else _akey(a) for a in n.args]
        if o in COMM or o == "eq":
            parts.sort()
    h.update(o.encode())
    for p in parts:
        h.update(b"|")
        h.update(p)
    c = memo[n] = h.digest()
    return c


def mk_mu(n, inits, iv, sts, ex, steps, bvals):
    """fixed point of several loop-carried values; the first one is the result.  The order of the
    others is fixed by colour refinement, so it does not depend on names or on statement order."""
    k = len(sts)
    if steps[0] is sts[0] and (not bvals or bvals[0] is sts[0]):
        return inits[0]
    # keep only the reachable ones
    by = {v: i for i, v in enumerate(sts)}
    reach, todo = [], [0]
    exf = [by[z] for z in ex.free if z in by]
    while todo:
        q = todo.pop(0)
        if q in reach:
            continue
        reach.append(q)
        z = steps[q].free | (bvals[q].free if bvals else EMPTY)
        todo += sorted(by[w] for w in z if w in by and by[w] not in reach)
        if ex is not FALSE:
            todo += [w for w in exf if w not in reach]
    col = {q: hashlib.blake2b(inits[q].key + (b"root" if q == 0 else b""), digest_size=10).digest() for q in reach}

    def refine(col):
        ncls = len(set(col.values()))
        for _ in range(len(reach) + 1):
            m = {sts[q]: col[q] for q in reach}
            m[iv] = b"iv"
            memo = {}
            ce = colour(ex, m, memo) if ex is not FALSE else b""
            new = {}
            for q in reach:
                users = b""
                new[q] = hashlib.blake2b(col[q] + colour(steps[q], m, memo) + (colour(bvals[q], m, memo) if bvals else b"") + ce + users, digest_size=10).digest()
            col = new
            nc = len(set(col.values()))
            if nc == ncls and _ > 0:
                break
            ncls = nc
        return col
    if len(reach) > 1:
        col = refine(col)
        while len(set(col.values())) < len(reach):
            # split the first tied class by its first member (symmetric members give the same result)
            classes = {}
            for q in reach:
                classes.setdefault(col[q], []).append(q)
            t = min(c for c, qs in classes.items() if len(qs) > 1)
            q = min(classes[t])
            col[q] = hashlib.blake2b(col[q] + b"split", digest_size=10).digest()
            col = refine(col)
    order = [0] + sorted([q for q in reach if q != 0], key=lambda q: col[q])
    vars_ = (iv,) + tuple(sts[q] for q in order)
    bodies = [ex] + [steps[q] for q in order]
    if bvals:
        bodies += [bvals[q] for q in order]
    return N("mu", n, N("tuple", *[inits[q] for q in order]), bind(vars_, *bodies))


_CANON = {}


def canon(n):
    """final form: the state order of every fixed point is recomputed with the final variable names"""
    r = _CANON.get(n)
    if r is not None:
        return r
    if not isinstance(n, Node):
        return n
    if not has_mu(n):
        r = n
    else:
        if n.op == "bind":
            r = rebind(n.args[0].args, tuple(canon(b) for b in n.args[1:]))
        else:
            args = tuple(canon(a) if isinstance(a, Node) else a for a in n.args)
            if n.op == "mu":
                r = rebuild_mu(args)
            else:
                r = n if args == n.args else rebuild(n.op, args)
    _CANON[n] = r
    return r


_HASMU = {}


def has_mu(n):
    r = _HASMU.get(n)
    if r is None:
        r = n.op == "mu" or any(has_mu(a) for a in n.args if isinstance(a, Node))
        _HASMU[n] = r
    return r


def rebuild_mu(args):
    n, inits, b = args
    k = len(inits.args)
    vs = tuple(fresh(hint="h" + v.args[0]) for v in b.args[0].args)
    bodies = open_multi(b, vs)
    ex, steps, bv = bodies[0], bodies[1:1 + k], bodies[1 + k:]
    return mk_mu(n, inits.args, vs[0], vs[1:], ex, steps, bv if ex is not FALSE else ())
