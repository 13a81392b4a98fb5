"""Regenerates /verif/ref: the audited reference model (repo sources without docstrings and comments).

Run by hand after an audited repair of the repository, never by a check."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from esatlint.loader import SKIP
src, dst = sys.argv[1], sys.argv[2]


class Strip(ast.NodeTransformer):
    def generic_visit(self, n):
        super().generic_visit(n)
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) \
                and isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            n.body = b[1:] or [ast.Pass()]
        return n


for pkg in ("esat", "eval"):
    for d, dirs, files in os.walk(os.path.join(src, pkg)):
        for f in files:
            if f.endswith(".py") and f not in SKIP:
                p = os.path.join(d, f)
                t = Strip().visit(ast.parse(open(p, encoding="utf-8").read()))
                o = os.path.join(dst, os.path.relpath(p, src))
                os.makedirs(os.path.dirname(o), exist_ok=True)
                open(o, "w", encoding="utf-8").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
