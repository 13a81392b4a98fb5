"""Observables of public entry points and their comparison with the reference model."""
import os
import signal
import sys
import time

from . import terms as T
from .compare import Comparer, HARD, Mismatch
from .interp import Interp, Unsupported
from .loader import Tree
from .terms import N, TRUE, FALSE

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESATLINT_REPO", "/repo")
REF = os.path.join(HERE, "ref")

BOUNDARY = {"SA.train", "SA.initialize", "BatchSA.train", "LSNMF.update", "WSNMF.update", "Bootstrap.run", "Displacement.run", "BSDISP.run",
            "ConstrainedModel.train"}
CLASSES = {"SA", "BatchSA", "Bootstrap", "Displacement", "BSDISP", "DataHandler", "ConstrainedModel", "FactorCompare", "Simulator",
           "BatchAnalysis", "ModelAnalysis"}


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def qualname(m, c, f):
    return m.name + ":" + ((c.name + ".") if c else "") + f.name


def is_public(name):
    return not name.startswith("_") or name == "__init__"


def entries(tree):
    """public entry points of a tree"""
    out = []
    for m, c, f in tree.all_functions():
        if is_public(f.name) and (c is None or not c.name.startswith("_")):
            out.append(qualname(m, c, f))
    return out


def signatures(tree):
    """parameter names of every function of the reference (short names, as call nodes carry them)"""
    out = {}
    for m, c, f in tree.all_functions():
        q = (c.name + "." if c else "") + f.name
        a = f.args
        out[q] = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    return out


def analyse(tree, qual, sigs, limit=60):
    it = Interp(tree, BOUNDARY, CLASSES)
    it.ref_sigs = sigs
    T.ITE_BUDGET[0] = 200000
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        s = it.analyse(qual)
        why = None
    except Timeout:
        s, why = None, "time limit"
    except Unsupported as e:
        s, why = None, "construct not modelled: %s (%s:%s)" % (e, it.curfile, it.curline)
    except RecursionError:
        s, why = None, "term too deep"
    except Exception as e:         # a construct the interpreter does not know
        s, why = None, "interpreter: %s %s (%s:%s)" % (type(e).__name__, e, it.curfile, it.curline)
    finally:
        signal.alarm(0)
    return s, why, it


class Finding:
    __slots__ = ("entry", "observable", "kind", "text", "loc", "key", "inputs", "broken", "ms", "weak")

    def __init__(self, entry, observable, kind, text, loc=None, ms=()):
        self.entry, self.observable, self.kind, self.text, self.loc = entry, observable, kind, text, loc
        self.inputs = sorted({str(x) for m in ms for n in (m.a, m.b) for x in T.leaves(n)})
        self.key = "%s#%s" % (entry, observable)
        self.broken = ""
        self.ms = ms
        # nothing but "the two terms differ": no operation, constant or input that is certainly wrong
        self.weak = bool(ms) and kind == "definite" and all(m.why == "different value" or m.why.startswith("depends on different inputs") for m in ms)


BROKEN = {"undef": "a name that may be unbound", "missing": "an argument the call does not pass"}


def broken(n, memo={}):
    """operators standing for an internal error: unbound names and arguments that were not passed"""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in BROKEN:
            out.add(x.op)
        stack += [y for y in x.args if isinstance(y, T.Node)]
    return out


def eff_name(n):
    if n.op == "io" and isinstance(n.args[0], T.Node):
        return eff_name(n.args[0])
    if n.op in ("ret", "after") and isinstance(n.args[0], T.Node):
        return eff_name(n.args[0])
    if n.op in ("call", "new", "raise"):
        return n.op + ":" + str(n.args[0])
    if n.op == "loopeff":
        return "loopeff"
    return n.op


def rename_inputs(sa, sb):
    """renamed parameters of the analysed function, by position"""
    pa, pb = list(sa.sig), list(sb.sig)
    na, nb = [p[0] for p in pa], [p[0] for p in pb]
    m = {}
    if len(na) >= len(nb):
        for x, y in zip(na, nb):
            if x != y and y not in na and x not in nb:
                m[x] = y
    return m


ARRAYISH = {"getitem", "setitem", "T", "mm", "reduce", "dim", "row", "rowof"}
SOLVED = {"mu", "popped", "unordered", "iv", "st"}


def data_leaves(n):
    """inputs used as arrays, tables or objects (not only as plain numbers)"""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        kids = [y for y in x.args if isinstance(y, T.Node)]
        stack += kids
        base = kids[:1] if x.op in ARRAYISH or x.op == "attr" else (kids if x.op in ("mm", "reduce") else [])
        if x.op == "call" and str(x.args[0]).startswith("."):
            base = kids[:1]
        for y in base:
            if y.op == "in":
                out.add(y.args[0])
            elif y.op == "attr" and y.args[0].op in ("in", "attr"):
                out.add(T.show(y, 200))
    return out


def ops(n):
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x.op)
        stack += [y for y in x.args if isinstance(y, T.Node)]
    return out


def lost_inputs(a, b):
    """data the reference value depends on and the analysed value does not mention at all; nothing new may stand in for it"""
    la, lb = T.leaves(a), T.leaves(b)
    if not la < lb:
        return []
    lost = sorted(x for x in (lb - la) & data_leaves(b) if x != "self" and not x.endswith("rng"))
    if not lost or (ops(a) - ops(b)) & HARD - SOLVED:
        return []
    return lost


def rewritten(v, old):
    """v is old after element assignments, at least on one path"""
    seen, stack = set(), [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack += x.args[1:]
        elif x.op in ("scatter", "setitem") and old in ops_nodes(x.args[0]):
            return True
        elif x.op == "mu":
            # loop state that starts as the old value and receives element assignments
            vs = [i for i, z in enumerate(x.args[1].args) if z is old]
            body = x.args[2]
            for i in vs:
                nb = body.args[2 + i] if len(body.args) > 2 + i else None
                if nb is not None and any(y.op in ("scatter", "setitem") for y in ops_nodes(nb)):
                    return True
    return False


def ops_nodes(n):
    out, stack = set(), [n]
    while stack:
        x = stack.pop()
        if x not in out:
            out.add(x)
            stack += [y for y in x.args if isinstance(y, T.Node)]
    return out


def compare_entry(qual, sa, sb, known_fields=frozenset()):
    """findings of one entry point: (obligations, discharged, [Finding])"""
    cmp = Comparer()
    cmp.known_fields = known_fields
    out = []
    obl = ok = 0

    def one(obs, a, b, loc=None):
        nonlocal obl, ok
        obl += 1
        ms = cmp.settle(a, b)
        if not ms:
            ok += 1
            return
        defs = [m for m in ms if m.kind == "definite"]
        unk = [m for m in ms if m.kind == "unknown"]
        kind = "definite" if defs and not unk else ("mixed" if defs else "unknown")
        if kind != "definite":
            lost = lost_inputs(a, b)
            if lost:
                kind = "definite"
                defs = [Mismatch("definite", a, b, "no longer depends on " + ", ".join(lost))] + defs
        out.append(Finding(qual, obs, kind, [(m.kind, m.why, T.show(m.a, 400), T.show(m.b, 400)) for m in (defs + unk)[:6]] + [len(defs), len(unk)], loc, ms))
        out[-1].broken = ", ".join(BROKEN[x] for x in sorted(broken(a) - broken(b)))

    one("return value", sa.ret, sb.ret)
    base = sa.selfbase if getattr(sa, "selfbase", None) is not None else N("in", "self")
    for k, v in sorted(sb.fields.items()):
        if k in sa.fields:
            one("self." + k, sa.fields[k], v)
        elif sa.selfbase is None:
            obl += 1
            out.append(Finding(qual, "self." + k, "definite", [("definite", "attribute is no longer set", "(unset)", T.show(v, 300)), 1, 0]))
        else:
            one("self." + k, T.mk_attr(N("in", "self"), k), v)
    for k, v in sorted(sa.fields.items()):
        if k not in sb.fields and (sb.selfbase is not None) and k in known_fields:
            one("self." + k, v, T.mk_attr(N("in", "self"), k))
            if out and out[-1].observable == "self." + k and out[-1].kind != "definite" and rewritten(v, T.mk_attr(N("in", "self"), k)):
                out[-1].kind = "definite"
                out[-1].text[:0] = [("definite", "elements are replaced although the call must leave it alone", T.show(v, 300), "(unchanged)")]
    for what, xa, xb in (("argument ", sa.params, sb.params), ("object ", sa.deep, sb.deep)):
        if what == "argument ":
            xa, xb = ({k: v for k, v in x.items() if v is not N("in", k)} for x in (xa, xb))
        for k in sorted(set(xa) | set(xb)):
            if what == "object " and k.startswith("self.") and k.split(".")[1] in (set(sa.fields) | set(sb.fields)):
                continue
            if what == "object " and k.startswith("self.") and k.split(".")[1] not in known_fields:
                continue
            obl += 1
            if k in xa and k in xb:
                obl -= 1
                one(what + k, xa[k], xb[k])
            elif k in xa:
                out.append(Finding(qual, what + k, "definite", [("definite", "changed although the call must leave it alone", T.show(xa[k], 300), "(unchanged)"), 1, 0]))
            else:
                out.append(Finding(qual, what + k, "definite", [("definite", "no longer changed", "(unchanged)", T.show(xb[k], 300)), 1, 0]))
    if sa.raises is not None or sb.raises is not None:
        one("raises", sa.raises if sa.raises is not None else FALSE, sb.raises if sb.raises is not None else FALSE)
    # reported data: compared in order, when both sides report equally often
    pa, pb = [x for x in sa.eff if is_report(x[1])], [x for x in sb.eff if is_report(x[1])]
    if len(pa) == len(pb):
        for (g, n, loc), (g2, n2, _) in zip(pa, pb):
            one("report", N("tuple", g, n), N("tuple", g2, n2), loc)
    # effects: multiset comparison, gates included
    ea, eb = merge_effects(x for x in sa.eff if not is_report(x[1])), merge_effects(x for x in sb.eff if not is_report(x[1]))
    ra, rb = dict(ea), dict(eb)
    for n in list(ra):
        if n in rb:
            one("effect " + eff_name(n), ra[n][0], rb[n][0], ra[n][1])
            del ra[n]
            del rb[n]
    la, lb = sorted(ra, key=lambda n: (eff_name(n), n.key)), sorted(rb, key=lambda n: (eff_name(n), n.key))
    for n in list(la):
        c = [x for x in lb if eff_name(x) == eff_name(n)]
        if c:
            best = min(c, key=lambda x: len(cmp.diff(n, x)))
            one("effect " + eff_name(n), N("tuple", ra[n][0], n), N("tuple", rb[best][0], best), ra[n][1])
            la.remove(n)
            lb.remove(best)
    loopy = any(n.op == "loopeff" for n in la) or any(n.op == "loopeff" for n in lb)
    for n in la:
        obl += 1
        out.append(Finding(qual, "effect " + eff_name(n), "unknown" if loopy else "definite",
                           [("definite", "effect the call must not have", T.show(n, 300), "(none)"), 1, 0], ra[n][1]))
    for n in lb:
        obl += 1
        out.append(Finding(qual, "effect " + eff_name(n), "unknown" if loopy else "definite",
                           [("definite", "effect is missing", "(none)", T.show(n, 300)), 1, 0]))
    # defaults of public parameters
    da, db = dict(sa.sig), dict(sb.sig)
    for k, v in db.items():
        obl += 1
        if k not in da:
            ok += 1
            continue
        if da[k] == v:
            ok += 1
        elif not literal(da[k]) or not literal(v):
            out.append(Finding(qual, "default of " + k, "unknown", [("unknown", "default", str(da[k]), str(v)), 0, 1]))
        elif v is None:
            ok += 1        # a required parameter became optional
        else:
            out.append(Finding(qual, "default of " + k, "definite", [("definite", "default changed", str(da[k]), str(v)), 1, 0]))
    return obl, ok, out


def literal(v):
    import ast
    if v is None:
        return True
    try:
        ast.literal_eval(v)
        return True
    except ValueError:
        return False


def is_report(n):
    """a log message (or a loop that only logs)"""
    if n.op == "report":
        return True
    if n.op == "loopeff":
        found, stack, seen = False, [n], set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("io", "show"):
                return False
            found = found or x.op == "report"
            stack += [y for y in x.args if isinstance(y, T.Node)]
        return found
    return False


def merge_effects(eff):
    """effect node -> (gate, loc); repeated effects get an ordinal"""
    out = {}
    for g, n, loc in eff:
        if g is FALSE:
            continue
        if n in out:
            out[n] = (T.mk_or(out[n][0], g), out[n][1])
        else:
            out[n] = (g, loc)
    return out.items()
