"""Shape of the difference between two versions of a function.

Used only for observables whose normal forms differ but whose comparison ended
in a place the algebra cannot decide.  Rewriting that keeps behaviour either
stays within the equalities the normal form already decides (commuted operands,
negated tests with exchanged branches, renamed locals, equal constants) or
restructures the code: a helper, another kind of loop, other statements, another
order, another library function.  A change that does none of that -- operators,
constants, names, attributes, arguments or sub-expressions over the same
functions exchanged in place, or statements that disappeared -- while the normal
forms differ leaves no rewriting that could explain the difference.
"""
import ast

from . import terms as T  # noqa: F401  (kept: recursion limit is set on import)

LOG = ("logger", "logging", "print", "warnings")
OPEQ = (ast.operator, ast.cmpop, ast.unaryop, ast.boolop)


def quiet(s):
    """statements without a value: docstrings, pass, logging"""
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr):
        v = s.value
        if isinstance(v, ast.Constant):
            return True
        if isinstance(v, ast.Call):
            f = v.func
            while isinstance(f, ast.Attribute):
                f = f.value
            return isinstance(f, ast.Name) and f.id in LOG
    return False


def stmts(body):
    return [s for s in body if not quiet(s)]


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}


def parts(n):
    """names, attributes, constants and operators of an expression"""
    return {x.id if isinstance(x, ast.Name) else "." + x.attr if isinstance(x, ast.Attribute) else repr(x.value) if isinstance(x, ast.Constant) else type(x).__name__
            for x in ast.walk(n) if isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.operator, ast.cmpop, ast.unaryop))}


def called(n):
    return {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}


def vocabulary(n):
    """functions and methods called, and constructs that iterate"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            out.add(x.func.attr if isinstance(x.func, ast.Attribute) else (x.func.id if isinstance(x.func, ast.Name) else "?"))
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.IfExp, ast.Starred, ast.NamedExpr)):
            out.add(type(x).__name__)
        elif isinstance(x, ast.Attribute) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
            out.add("." + x.attr)
    return out


FAMILIES = [{"min", "max", "mean", "sum", "median", "std", "var", "prod"}, {"nanmin", "nanmax", "nanmean", "nansum", "nanmedian"}, {"argmin", "argmax", "idxmin", "idxmax"}, {"any", "all"}, {"zeros", "ones"},
            {"floor", "ceil", "round"}, {"log", "log10", "log2", "exp"}, {"isna", "notna"}, {"vstack", "hstack"}, {"minimum", "maximum"}, {"ffill", "bfill"}, {"isnan", "isinf"}]
REDUCERS = {"min", "max", "mean", "sum", "median", "std", "var", "prod", "any", "all", "argmin", "argmax", "idxmin", "idxmax", "count_nonzero", "nanmin", "nanmax", "nanmean",
            "nansum", "nanmedian", "nanstd", "nanvar", "nanargmin", "nanargmax", "nunique", "ptp"}
DISTINCT = [REDUCERS, {"fit", "transform", "fit_transform"}, {"read_csv", "read_excel"}, {"integers", "random", "choice", "normal", "uniform", "lognormal", "permutation"},
            {"multiply", "divide", "add", "subtract"}, {"matmul", "multiply"}, {"ls_nmf", "ws_nmf"}, {"dropna", "fillna"}, {"keys", "values", "items"}, {"extend", "append"},
            {"exists", "isabs"}, {"linspace", "logspace"}, {"dump", "dumps"}]
LIBRARY = {".values", ".T", ".shape", ".size", ".iloc", ".loc", ".index", ".columns", ".dtype", ".ndim", ".flat", ".real", ".at", ".iat", ".name", ".parent", ".keys", ".items"}
NEUTRAL = {"list", "tuple", "len", "set"}
FAM = {n: i for i, f in enumerate(FAMILIES) for n in f}


class Shape:
    def __init__(self, ref, new):
        """ref, new: function (or module) nodes"""
        a, b = names(ref), names(new)
        self.fresh = {x for x in b if x not in a and not x.endswith(("Error", "Exception"))}
        self.gone = {x for x in a if x not in b}
        self.ren = {}
        # attributes of the library's own objects the function reads anyway: aliasing is exact in the normal form
        self.plain = NEUTRAL | {"." + x.attr for x in ast.walk(ref) if isinstance(x, ast.Attribute)} - LIBRARY - {"." + f for f in called(ref)}
        self.skip = set()
        self.edits = []
        self.ok = True
        self.why = None

    def fail(self, why):
        if self.ok:
            self.ok, self.why = False, why

    def edit(self, node, text):
        self.edits.append("line %s: %s" % (getattr(node, "lineno", "?"), text))

    # ------------------------------------------------------------ statements
    def same(self, a, b):
        """structurally equal, without recording"""
        s = Probe(self)
        s.node(a, b)
        return s.ok and not s.edits

    @staticmethod
    def retyped(a, b):
        """the same target is set by a statement of another kind (accumulated against overwritten, guarded against always)"""
        if isinstance(b, ast.If) and not b.orelse and len(stmts(b.body)) == 1 and ast.dump(stmts(b.body)[0]) == ast.dump(a):
            return True
        flow = (ast.Break, ast.Continue)
        if isinstance(a, flow) and isinstance(b, flow):
            return True
        if not isinstance(b, (ast.Assign, ast.AugAssign)):
            return False
        t = ast.dump(b.targets[0] if isinstance(b, ast.Assign) else b.target)
        if isinstance(a, (ast.Assign, ast.AugAssign)):
            return ast.dump(a.targets[0] if isinstance(a, ast.Assign) else a.target) == t
        if isinstance(a, ast.If) and not a.orelse and len(stmts(a.body)) == 1:
            return isinstance(a.body[-1], (ast.Assign, ast.AugAssign)) and Shape.retyped(a.body[-1], b)
        return False

    def cost(self, a, b):
        """number of edits to turn one statement into the other, None when the kinds differ"""
        if type(a) is not type(b) and not self.retyped(a, b):
            return None
        s = Probe(self)
        s.node(a, b)
        return len(s.edits) + (6 if not s.ok else 0)

    def moved(self, ra, rb):
        """fresh starting values (x = literal) that moved out of, or into, the loop which goes on changing x"""
        A, B = starts(ra), starts(rb)
        for k in set(A) & set(B):
            if len(A[k]) == len(B[k]) == 1 and A[k][0][1] != B[k][0][1]:
                (x, la, lna), (y, lb, lnb) = A[k][0], B[k][0]
                # hoisted or sunk along one chain of loops; the loop in between changes the name
                short, long = (la, lb) if len(la) < len(lb) else (lb, la)
                node = (lna if len(la) > len(lb) else lnb)
                if long[:len(short)] == short and node and x.targets[0].id in changed(node[len(short)], x if node is lna else y):
                    self.skip |= {id(x), id(y)}
                    self.edit(y, "%s moved %s the loop that changes it" % (ast.unparse(y)[:50], "out of" if len(lb) < len(la) else "into"))

    def block(self, ra, rb):
        A, B = [x for x in stmts(ra) if id(x) not in self.skip], [x for x in stmts(rb) if id(x) not in self.skip]
        # leading and trailing equal statements
        while A and B and self.same(A[0], B[0]):
            self.node(A[0], B[0])
            A, B = A[1:], B[1:]
        while A and B and self.same(A[-1], B[-1]):
            self.node(A[-1], B[-1])
            A, B = A[:-1], B[:-1]
        if not A and not B:
            return
        if not B:
            for s in A:
                self.edit(s, "statement dropped: " + ast.unparse(s).split("\n")[0][:80])
            return
        if len(B) > len(A):
            return self.fail("statements added")
        n, m = len(A), len(B)
        if n == m and n > 1 and sorted(ast.dump(x) for x in A) == sorted(ast.dump(x) for x in B):
            return self.edit(B[0], "statements in another order")
        if n * m > 400:
            return self.fail("many statements changed")
        INF = 10 ** 6
        cst = [[self.cost(x, y) for y in B] for x in A]
        best = [[INF] * (m + 1) for _ in range(n + 1)]
        best[n][m] = 0
        for i in range(n, -1, -1):
            for j in range(m, -1, -1):
                if i < n:
                    best[i][j] = min(best[i][j], best[i + 1][j] + 2)
                if i < n and j < m and cst[i][j] is not None:
                    best[i][j] = min(best[i][j], best[i + 1][j + 1] + cst[i][j])
        if best[0][0] >= INF:
            return self.fail("statements of another kind")
        i = j = 0
        while i < n:
            if j < m and cst[i][j] is not None and best[i][j] == best[i + 1][j + 1] + cst[i][j]:
                self.node(A[i], B[j])
                i, j = i + 1, j + 1
            else:
                self.edit(A[i], "statement dropped: " + ast.unparse(A[i]).split("\n")[0][:80])
                i += 1

    # ------------------------------------------------------------ nodes
    def node(self, a, b):
        if not self.ok:
            return
        if type(a) is not type(b):
            if self.retyped(a, b):
                if names(b) & self.fresh - set(self.ren.values()) or vocabulary(b) - vocabulary(a) - self.plain:
                    return self.fail("statements of another kind")
                return self.edit(b, "%s replaced by %s" % (ast.unparse(a).split("\n")[0][:60], ast.unparse(b)[:60]))
            return self.expr(a, b)
        if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if a.name != b.name or [x.arg for x in a.args.args] != [x.arg for x in b.args.args] and not self.renamed_args(a, b):
                return self.fail("another signature")
            for x, y in zip(a.args.defaults + a.args.kw_defaults, b.args.defaults + b.args.kw_defaults):
                if x is not None and y is not None:
                    self.node(x, y)
            if len(a.args.defaults) != len(b.args.defaults):
                return self.fail("another signature")
            return self.block(a.body, b.body)
        if isinstance(a, ast.Lambda):
            return self.node(a.body, b.body)
        if isinstance(a, (ast.For, ast.AsyncFor)):
            self.strict(a.target, b.target)
            self.strict(a.iter, b.iter)
            self.block(a.body, b.body)
            return self.block(a.orelse, b.orelse)
        if isinstance(a, (ast.While, ast.If)):
            self.node(a.test, b.test)
            self.block(a.body, b.body)
            if bool(stmts(a.orelse)) != bool(stmts(b.orelse)) and stmts(b.orelse):
                return self.fail("branch added")
            return self.block(a.orelse, b.orelse)
        if isinstance(a, ast.Try):
            if len(a.handlers) != len(b.handlers):
                return self.fail("handlers")
            self.block(a.body, b.body)
            for x, y in zip(a.handlers, b.handlers):
                if x.type is not None and y.type is not None:
                    self.node(x.type, y.type)
                self.block(x.body, y.body)
            self.block(a.orelse, b.orelse)
            return self.block(a.finalbody, b.finalbody)
        if isinstance(a, ast.With):
            if len(a.items) != len(b.items):
                return self.fail("with items")
            for x, y in zip(a.items, b.items):
                self.node(x.context_expr, y.context_expr)
            return self.block(a.body, b.body)
        if isinstance(a, ast.ClassDef):
            return self.block([s for s in a.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], [s for s in b.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))])
        if isinstance(a, ast.Assign) and (len(a.targets) != len(b.targets) or any(type(x) is not type(y) for x, y in zip(a.targets, b.targets))):
            return self.fail("another target")
        if isinstance(a, ast.stmt):
            return self.fields(a, b)
        return self.expr(a, b)

    def renamed_args(self, a, b):
        return len(a.args.args) == len(b.args.args)

    def name(self, x, y):
        """same name up to a consistent renaming of locals"""
        if x == y:
            return True
        if x in self.gone and y in self.fresh:
            if self.ren.setdefault(x, y) == y:
                return True
        return False

    def fields(self, a, b):
        for f in a._fields:
            x, y = getattr(a, f, None), getattr(b, f, None)
            if f in ("ctx", "type_comment", "kind", "annotation", "returns"):
                continue
            if isinstance(x, ast.AST) and isinstance(y, ast.AST):
                self.node(x, y)
            elif isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y):
                    return self.fail("another number of parts")
                for p, q in zip(x, y):
                    if isinstance(p, ast.AST) and isinstance(q, ast.AST):
                        self.node(p, q)
                    elif p != q and not (isinstance(p, str) and self.name(p, q)):
                        return self.fail("different %s" % f)
            elif x != y:
                if isinstance(x, str) and isinstance(y, str) and self.name(x, y):
                    continue
                if x is None or y is None:
                    return self.fail("part added or dropped")
                self.edit(a, "%s replaced by %s" % (x, y))

    def strict(self, a, b):
        """only leaves may change (loop headers)"""
        s = Probe(self)
        s.leafonly = True
        s.node(a, b)
        if not s.ok:
            return self.fail("loop header rewritten")
        self.node(a, b)

    leafonly = False

    def expr(self, a, b):
        if not self.ok:
            return
        if type(a) is type(b):
            if isinstance(a, ast.Name):
                if not self.name(a.id, b.id):
                    if b.id in self.fresh:
                        return self.fail("new name %s" % b.id)
                    self.edit(b, "%s replaced by %s" % (a.id, b.id))
                return
            if isinstance(a, ast.Constant):
                if a.value != b.value or type(a.value) is not type(b.value):
                    self.edit(b, "%r replaced by %r" % (a.value, b.value))
                return
            if isinstance(a, ast.Attribute):
                self.node(a.value, b.value)
                if a.attr != b.attr:
                    if self.known(a.attr, b.attr) or (isinstance(a.value, ast.Name) and a.value.id == "self" and isinstance(b.value, ast.Name) and b.value.id == "self"):
                        self.edit(b, ".%s replaced by .%s" % (a.attr, b.attr))
                    else:
                        self.fail("attribute %s" % b.attr)
                return
            if isinstance(a, ast.Compare) and len(a.ops) == len(b.ops):
                self.node(a.left, b.left)
                for x, y in zip(a.comparators, b.comparators):
                    self.node(x, y)
                for x, y in zip(a.ops, b.ops):
                    if type(x) is not type(y):
                        self.edit(b, "%s replaced by %s" % (type(x).__name__, type(y).__name__))
                return
            if isinstance(a, (ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.AugAssign)) and type(a.op) is not type(b.op):
                self.edit(b, "%s replaced by %s" % (type(a.op).__name__, type(b.op).__name__))
                if isinstance(a, ast.BinOp):
                    self.node(a.left, b.left)
                    self.node(a.right, b.right)
                elif isinstance(a, ast.UnaryOp):
                    self.node(a.operand, b.operand)
                elif isinstance(a, ast.BoolOp):
                    if len(a.values) != len(b.values):
                        return self.replaced(a, b)
                    for x, y in zip(a.values, b.values):
                        self.node(x, y)
                return
            if isinstance(a, ast.Call):
                return self.call(a, b)
            s = Probe(self)
            s.leafonly = self.leafonly
            s.fields(a, b)
            if s.ok:
                return self.fields(a, b)
        elif isinstance(a, OPEQ) and isinstance(b, OPEQ):
            return self.edit(b, "%s replaced by %s" % (type(a).__name__, type(b).__name__))
        self.replaced(a, b)

    def known(self, x, y):
        return x != y and (x in FAM and FAM.get(y) == FAM[x] or any(x in d and y in d for d in DISTINCT))

    def call(self, a, b):
        fa, fb = a.func, b.func
        if isinstance(fa, ast.Name) and isinstance(fb, ast.Name) and fa.id != fb.id and not self.name(fa.id, fb.id):
            if not self.known(fa.id, fb.id):
                return self.replaced(a, b)
            self.edit(b, "%s replaced by %s" % (fa.id, fb.id))
        elif type(fa) is not type(fb):
            return self.replaced(a, b)
        else:
            self.node(fa, fb)
        ka, kb = {k.arg: k.value for k in a.keywords}, {k.arg: k.value for k in b.keywords}
        if set(kb) - set(ka) or len(b.args) > len(a.args):
            if len(a.args) + len(ka) == len(b.args) + len(kb):
                return self.fail("arguments passed differently")
            return self.fail("argument added")
        if set(ka) != set(kb) and len(a.args) != len(b.args):
            return self.fail("arguments passed differently")
        for k in ka:
            if k in kb:
                self.node(ka[k], kb[k])
            else:
                self.edit(b, "argument %s dropped" % k)
        if len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                self.node(x, y)
        else:
            for x, y in zip(a.args, b.args):
                if not self.same(x, y):
                    return self.fail("arguments passed differently")
            self.edit(b, "argument dropped")

    def replaced(self, a, b):
        """a sub-expression over the same names and functions took the place of another"""
        if self.leafonly:
            return self.fail("rewritten")
        if not isinstance(a, ast.expr) or not isinstance(b, ast.expr):
            return self.fail("rewritten")
        if names(b) & self.fresh - set(self.ren.values()):
            return self.fail("new names")
        comp = (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)
        if isinstance(a, comp) != isinstance(b, comp) and not any(g.ifs for x in (a, b) if isinstance(x, comp) for g in x.generators):
            return self.fail("comprehension rewritten")
        if type(a) is not type(b) and parts(a) == parts(b):
            return self.fail("rearranged")
        new = vocabulary(b) - vocabulary(a) - self.plain
        if new:
            return self.fail("uses %s" % ", ".join(sorted(new)))
        self.edit(b, "%s replaced by %s" % (ast.unparse(a)[:60], ast.unparse(b)[:60]))


def starts(fn):
    """x = <literal>: dump -> [(statement, headers of the loops around it, loops)]"""
    out = {}

    def go(body, heads, loops):
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and fresh_value(s.value):
                out.setdefault(ast.dump(s), []).append((s, heads, loops))
            h, l = heads, loops
            if isinstance(s, (ast.For, ast.While)):
                h, l = heads + (ast.dump(s.iter if isinstance(s, ast.For) else s.test),), loops + [s]
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    go(getattr(s, f), h, l)
    go(fn.body, (), [])
    return out


def fresh_value(v):
    if isinstance(v, ast.UnaryOp):
        v = v.operand
    if isinstance(v, ast.Constant):
        return True
    if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
        return all(fresh_value(x) for x in v.elts)
    return isinstance(v, ast.Dict) and all(x is not None and fresh_value(x) for x in v.keys) and all(fresh_value(x) for x in v.values)


def changed(loop, but):
    """names a loop assigns or changes in place, other than by one statement"""
    out = set()
    for x in ast.walk(loop):
        if x is but:
            continue
        if isinstance(x, (ast.Assign, ast.AugAssign)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                for y in ast.walk(t):
                    if isinstance(y, ast.Name):
                        out.add(y.id)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "extend", "add", "update", "insert", "pop", "remove"):
            out.add(x.func.value.id)
    return out


class Probe(Shape):
    def __init__(self, parent):
        self.fresh, self.gone, self.ren = parent.fresh, parent.gone, dict(parent.ren)
        self.edits, self.ok, self.why = [], True, None
        self.plain = parent.plain
        self.skip = parent.skip
        self.leafonly = parent.leafonly


def toplevel(mod):
    """module or class code outside functions"""
    return ast.Module(body=[s for s in mod.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))], type_ignores=[])


class Change:
    """per function: None (same), list of edits (changed in place) or a string (restructured)"""

    def __init__(self, ref, repo):
        self.ref, self.repo = ref, repo
        self.status = {}
        self.short = {}
        A, B = self.table(ref), self.table(repo)
        for q in set(A) | set(B):
            sn = q.split(":")[-1]
            self.short.setdefault(sn, set()).add(q)
            self.short.setdefault(sn.split(".")[-1], set()).add(q)
            if q not in A:
                self.status[q] = "function added"
            elif q not in B:
                self.status[q] = "function removed"
            else:
                self.status[q] = self.compare(A[q][0], B[q][0], B[q][1])

    @staticmethod
    def table(tree):
        out = {}
        for m in tree.modules.values():
            out[m.name + ":<module>"] = (toplevel(m.tree), m.path)
            for c in m.classes.values():
                out[m.name + ":" + c.name + ".<class>"] = (toplevel(c.node), m.path)
        for m, c, f in tree.all_functions():
            out[m.name + ":" + (c.name + "." if c else "") + f.name] = (f, m.path)
        return out

    @staticmethod
    def compare(a, b, path):
        if ast.dump(a) == ast.dump(b):
            return None
        s = Shape(a, b)
        s.moved(a, b)
        if isinstance(a, ast.Module):
            s.block(a.body, b.body)
        else:
            s.node(a, b)
        if not s.ok:
            return s.why or "restructured"
        return ["%s %s" % (path, e) for e in s.edits] or None

    def restructured(self, q, used):
        """the functions behind an entry point were rewritten, not edited in place"""
        return any(isinstance(self.status[k], str) and not self.status[k].startswith(("uses ", "attribute ", "argument ")) for k in self.reaching(q, used)) or any(v in ("function added", "function removed") for v in self.status.values())

    def entry(self, q, used):
        """edits that reach an entry point when all of them are in place, else None"""
        out = []
        # a function added or removed anywhere in the package is taken as restructuring
        if any(v in ("function added", "function removed") for v in self.status.values()):
            return None
        for k in sorted(self.reaching(q, used)):
            v = self.status[k]
            if isinstance(v, str):
                return None
            out += v
        return out or None

    def reaching(self, q, used):
        """changed functions behind an entry point"""
        todo = {q}
        for u in used:
            todo |= self.short.get(u, set())
            todo |= {x for x in self.short.get(u.split(".")[-1], ())}
        m = {x.split(":")[0] for x in todo}
        todo |= {k for k in self.status if k.endswith(("<module>", "<class>")) and (k.split(":")[0] in m or self.status[k])}
        return [k for k in todo if self.status.get(k) is not None]
