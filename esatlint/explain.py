"""Locates the smallest pair of sub-terms whose exchange explains the difference of two normal forms.

a and b are normal forms with a != b.  If a single context K and sub-terms x, y
exist with a = K[x] and b = K[y] (K may use the hole several times and below
binders), the two observables differ exactly by the exchange of x and y.  The
context is verified by rebuilding both terms with a hole in place of x and y
and comparing the normal forms, so decision-diagram order, loop state order and
binder numbering, which all depend on the content, do not matter."""
from . import terms as T
from .terms import N

LIMIT = 12000


class TooLarge(Exception):
    pass


def lv(i):
    n = N("bv", "L%03d" % i)
    return n


def level(v):
    s = v.args[0]
    return s if isinstance(s, str) else str(s)


def canonical(n, memo={}):
    """n with its open variables renamed in level order"""
    r = memo.get(n)
    if r is None:
        if len(memo) > 60000:
            memo.clear()
        fs = sorted((v for v in n.free if v.op == "bv" and str(v.args[0]).startswith("L")), key=level)
        m = {v: N("bv", "V%03d" % i) for i, v in enumerate(fs)}
        if fs and n not in m:
            r = T.subst(n, m)
        else:
            r = m.get(n, n)
        memo[n] = r
    return r


def opened(b, lvl):
    vs = tuple(lv(lvl + i) for i in range(len(b.args[0].args)))
    return vs, T.open_multi(b, vs)


def region(n):
    out, seen, stack = [], set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("ite", "not"):
            stack.extend(x.args)
        else:
            out.append(x)
    return out


class Graph:
    def __init__(self, root):
        self.root = root
        self.kids = {}
        self.croot = None
        self.count = 0
        self.memo = {}
        self.croot = self.visit(root, 0)

    def visit(self, n, lvl):
        k = (n, lvl)
        c = self.memo.get(k)
        if c is not None:
            return c
        self.count += 1
        if self.count > LIMIT:
            raise TooLarge()
        c = self.memo[k] = canonical(n)
        if c in self.kids and n.op != "bind":
            # sub-terms of an already visited shape are already recorded
            return c
        ks = []
        if n.op == "bind":
            vs, bodies = opened(n, lvl)
            for x in bodies:
                ks.append(self.visit(x, lvl + len(vs)))
        elif n.op == "ite" or n.op == "not":
            # a decision diagram counts as one node over its conditions and outcomes: its inner order depends on the content
            for x in region(n):
                ks.append(self.visit(x, lvl))
        else:
            for x in n.args:
                if isinstance(x, T.Node):
                    ks.append(self.visit(x, lvl))
        self.kids.setdefault(c, set()).update(ks)
        return c


def dominators(g, other):
    """nodes of g that every path from the root to a minimal difference passes, deepest first"""
    da = {c for c in g.kids if c not in other.kids}
    if g.croot not in da:
        return [g.croot]
    mins = [c for c in da if not any(k in da for k in g.kids[c])]
    # topological order of the subgraph
    order, state = [], {}
    stack = [(g.croot, iter([k for k in g.kids[g.croot] if k in da]))]
    state[g.croot] = 1
    while stack:
        n, it = stack[-1]
        for k in it:
            if k not in state:
                state[k] = 1
                stack.append((k, iter([z for z in g.kids[k] if z in da])))
                break
        else:
            stack.pop()
            order.append(n)
    order.reverse()
    par = {}
    for n in order:
        for k in g.kids[n]:
            if k in da:
                par.setdefault(k, []).append(n)
    dom = {}
    for n in order:
        ps = par.get(n)
        if not ps:
            dom[n] = frozenset([n])
        else:
            d = None
            for p in ps:
                x = dom.get(p)
                if x is None:
                    continue
                d = x if d is None else d & x
            dom[n] = (d or frozenset()) | {n}
    common = None
    for m in mins:
        if m in dom:
            common = dom[m] if common is None else common & dom[m]
    out = sorted(common or [g.croot], key=lambda n: (-len(dom.get(n, ())), n.key))
    return out


class Holes:
    def __init__(self, g):
        self.g = g

    def with_hole(self, x, neg=False):
        return with_holes(self.g.root, {x: (0, neg)})


def with_holes(root, holes):
    """root with the given canonical sub-terms replaced"""
    if holes:
        memo = {}
        shape = [0]

        def go(n, lvl):
            k = (n, lvl)
            r = memo.get(k)
            if r is not None:
                return r
            shape[0] += 1
            if shape[0] > LIMIT:
                raise TooLarge()
            hit = holes.get(canonical(n)) if n.op != "bind" else None
            if hit is not None:
                fs = sorted((v for v in n.free if v.op == "bv" and str(v.args[0]).startswith("L")), key=level)
                r = N("hole", hit[0], *fs)
                if hit[1]:
                    r = T.mk_not(r)
            elif n.op == "bind":
                vs, bodies = opened(n, lvl)
                nb = tuple(go(z, lvl + len(vs)) for z in bodies)
                r = T.bind(vs, *nb)
            elif n.op == "mu":
                args = tuple(go(z, lvl) if isinstance(z, T.Node) else z for z in n.args)
                r = T.rebuild_mu(args)
            else:
                args = tuple(go(z, lvl) if isinstance(z, T.Node) else z for z in n.args)
                r = n if all(p is q for p, q in zip(args, n.args)) else T.rebuild(n.op, args)
            memo[k] = r
            return r
        return T.canon(go(root, 0))


def explain(a, b, tries=6):
    """(x, y) or None"""
    try:
        ga, gb = Graph(a), Graph(b)
        xs, ys = dominators(ga, gb)[:tries], dominators(gb, ga)[:tries]
        ha, hb = Holes(ga), Holes(gb)
        seen = {}
        fa, fb = [], []
        best = None
        for i in range(max(len(xs), len(ys))):
            if i < len(xs):
                fa.append((xs[i], ha.with_hole(xs[i])))
            if i < len(ys):
                fb.append((ys[i], hb.with_hole(ys[i])))
                if ys[i].op in T.ATOM_OPS:
                    fb.append((ys[i], hb.with_hole(ys[i], True)))
            hits = [(x, y) for x, p in fa for y, q in fb if p is q]
            if hits:
                x, y = min(hits, key=lambda t: (t[0].size + t[1].size, t[0].key))
                if x is ga.croot and y is gb.croot:
                    return None
                return x, y
    except (TooLarge, RecursionError):
        pass
    return None


def learned(a, b, pairs):
    """do a and b become equal when every known pair (x, y) of differing sub-terms is identified"""
    hx, hy = {}, {}
    for i, (x, y) in enumerate(pairs):
        hx.setdefault(x, (i, False))
        hy.setdefault(y, (hx[x][0], False))
    try:
        pa = with_holes(a, hx)
        return pa is with_holes(b, hy)
    except (TooLarge, RecursionError):
        return False
