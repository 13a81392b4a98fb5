"""Reference-free rules for randomness, the native interface, caches of state and dictionary interfaces."""
import ast
import os
import re

from .rules_c29 import finding, owners, where, role, swapped

# ---------------------------------------------------------------- C03
LEGACY = {"rand", "randn", "randint", "random", "random_sample", "choice", "shuffle", "permutation", "uniform", "normal", "seed", "lognormal", "poisson", "exponential", "gamma", "beta"}
SEEDED = {"kmeans2": ("seed", 6), "KMeans": ("random_state", 99), "IterativeImputer": ("random_state", 99), "NMF": ("random_state", 99), "PCA": ("random_state", 99),
          "train_test_split": ("random_state", 99), "ShuffleSplit": ("random_state", 99), "KFold": None}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def entropy(e):
    """expressions whose value differs from run to run"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            d = dotted(x.func) or ""
            if d in ("time.time", "time.perf_counter", "time.time_ns", "os.getpid", "os.urandom", "uuid.uuid4", "id", "datetime.now", "datetime.datetime.now", "secrets.randbits"):
                return d
    return None


def seeds(repo, ref):
    """every source of random numbers is given a seed"""
    n, out = 0, []
    for m, c, f in owners(repo):
        for x in ast.walk(f):
            if not isinstance(x, ast.Call):
                continue
            d = dotted(x.func) or ""
            last = d.split(".")[-1]
            root = m.imports.get(d.split(".")[0])
            isnp = d.startswith(("np.random.", "numpy.random."))
            if last in ("default_rng", "RandomState", "SeedSequence") and (isnp or d == last):
                n += 1
                v = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg in ("seed", "entropy")), None)
                if v is None or isinstance(v, ast.Constant) and v.value is None:
                    out.append(finding(m, x, where(c, f), "%s() is not given a seed" % d, "seed"))
                elif entropy(v):
                    out.append(finding(m, x, where(c, f), "%s is seeded from %s" % (d, entropy(v)), "seed"))
            elif isnp and last in LEGACY or d.startswith("random.") and last in LEGACY and "random" in m.imports:
                n += 1
                out.append(finding(m, x, where(c, f), "%s draws from the process-wide generator" % d, "seed"))
            elif last in SEEDED and SEEDED[last] is not None and d.split(".")[0] in m.imports:
                n += 1
                kw, pos = SEEDED[last]
                v = next((k.value for k in x.keywords if k.arg == kw), x.args[pos] if len(x.args) > pos else None)
                if any(k.arg is None for k in x.keywords):
                    continue
                if v is None or isinstance(v, ast.Constant) and v.value is None:
                    out.append(finding(m, x, where(c, f), "%s is not given %s" % (d, kw), "seed"))
                elif entropy(v):
                    out.append(finding(m, x, where(c, f), "%s is seeded from %s" % (d, entropy(v)), "seed"))
            # a constructor of the library that takes a seed must not be fed from the clock
            for k in x.keywords:
                if k.arg in ("seed", "random_state", "random_seed") and entropy(k.value):
                    out.append(finding(m, x, where(c, f), "%s is seeded from %s" % (d or last, entropy(k.value)), "seed"))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- C05
def rust_functions(root):
    """exported native functions: name -> parameter names (the interpreter handle left out)"""
    p = os.path.join(root, "rust", "lib.rs")
    if not os.path.exists(p):
        return None
    src = open(p, encoding="utf-8", errors="replace").read()
    src = re.sub(r"//[^\n]*", "", src)
    out = {}
    for mt in re.finditer(r"#\[pyfunction\](?:\s*#\[[^\]]*\])*\s*(?:pub\s+)?fn\s+(\w+)\s*(?:<[^>]*>)?\s*\(([^{]*?)\)\s*->", src):
        ps = []
        for part in split_top(mt.group(2)):
            if ":" in part:
                nm = part.split(":")[0].strip()
                if nm not in ("py", "_py"):
                    ps.append(nm)
        out[mt.group(1)] = ps
    return out


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


SYN = {"static_h": {"hold_h", "static_h"}, "prefer_gpu": {"use_gpu", "prefer_gpu"}, "max_iter": {"max_iter", "max_iterations"}}


def base_role(e):
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("astype", "copy") or isinstance(e, ast.Call) and (dotted(e.func) or "") in ("np.array", "np.asarray", "np.ascontiguousarray", "float", "int", "bool"):
        e = e.func.value if isinstance(e.func, ast.Attribute) and e.func.attr in ("astype", "copy") else (e.args[0] if e.args else e.func)
    return role(e)


def native(repo, ref):
    """values handed to the native solver are in the order of its parameters"""
    fs = rust_functions(repo.root)
    n, out = 0, []
    if not fs:
        return {"sites": 0, "ok": 0, "note": "no native source"}, out
    for m, c, f in owners(repo):
        names = {}
        for x in ast.walk(c.node if c is not None else f):
            # attributes that hold a native function
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == "esat_rust":
                for t in x.targets:
                    r = role(t)
                    if r:
                        names.setdefault(r, set()).add(x.value.attr)
                        if x.value.attr not in fs:
                            out.append(finding(m, x, where(c, f), "esat_rust.%s does not exist" % x.value.attr, "native"))
        for x in ast.walk(f):
            if not isinstance(x, ast.Call):
                continue
            r = role(x.func)
            tg = names.get(r) if r in names else ({x.func.attr} if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "esat_rust" else None)
            if not tg:
                continue
            for g in tg:
                ps = fs.get(g)
                if ps is None or any(isinstance(a, ast.Starred) for a in x.args):
                    continue
                n += 1
                if len(x.args) > len(ps):
                    out.append(finding(m, x, where(c, f), "%s takes %d values, %d are given" % (g, len(ps), len(x.args)), "native"))
                    continue
                want = [{p} | SYN.get(p, set()) for p in ps]
                for i, a in enumerate(x.args):
                    b = base_role(a)
                    b = b.lower().lstrip("_") if b else None
                    if b is None or b in want[i]:
                        continue
                    j = [k for k, s in enumerate(want) if b in s]
                    if j:
                        out.append(finding(m, a, where(c, f), "%s: %s is passed where %s expects %s" % (g, ast.unparse(a), g, ps[i]), "native"))
                for k in x.keywords:
                    if k.arg is not None and k.arg not in ps:
                        out.append(finding(m, x, where(c, f), "%s has no parameter %s" % (g, k.arg), "native"))
    return {"sites": n, "ok": n - len(out)}, out


# ---------------------------------------------------------------- shared mutable state
def defaults(repo, ref):
    """no default value or class attribute is an object that calls or instances change for each other"""
    n, out = 0, []
    for m, c, f in owners(repo):
        a = f.args
        ps = a.posonlyargs + a.args
        prs = list(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in prs:
            n += 1
            if not isinstance(d, (ast.List, ast.Dict, ast.Set)) and not (isinstance(d, ast.Call) and (dotted(d.func) or "") in ("list", "dict", "set", "np.zeros", "np.array")):
                continue
            why = changed(f, p)
            if why:
                out.append(finding(m, d, where(c, f), "%s: the default object of this parameter is %s" % (p, why), "default"))
    for m in repo.modules.values():
        for c in m.classes.values():
            for s in c.node.body:
                if isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Dict, ast.Set)) and isinstance(s.targets[0], ast.Name):
                    n += 1
                    nm = s.targets[0].id
                    init = c.methods.get("__init__")
                    rebound = init is not None and any(isinstance(x, ast.Attribute) and x.attr == nm and isinstance(x.ctx, ast.Store) for x in ast.walk(init))
                    if rebound:
                        continue
                    for g in c.methods.values():
                        for x in ast.walk(g):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "update", "add", "insert", "pop", "clear", "setdefault") \
                                    and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == nm:
                                out.append(finding(m, s, c.name + "." + g.name, "%s is one object for all instances and is changed here" % nm, "shared"))
                            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == nm:
                                out.append(finding(m, s, c.name + "." + g.name, "%s is one object for all instances and is changed here" % nm, "shared"))
    return {"sites": n, "ok": n - len(out)}, out


def changed(f, p):
    rebound = [x.lineno for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store)]
    first = min(rebound) if rebound else 10 ** 9
    for x in ast.walk(f):
        if getattr(x, "lineno", 0) >= first:
            continue
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == p \
                and x.func.attr in ("append", "extend", "update", "add", "insert", "pop", "clear", "setdefault", "remove", "sort"):
            return "changed by .%s" % x.func.attr
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == p:
            return "changed by an item assignment"
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p and any(isinstance(t, ast.Attribute) for t in x.targets):
            return "kept in an attribute of the object"
    return None
