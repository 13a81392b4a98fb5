"""Development aid: records a planted bug after confirming it in a scratch copy.

plant(id, property, file, old, new, demo, needs, breaks)
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
PRE = '''import os, sys, types
import warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
_stub = types.ModuleType("esat_rust")
_stub.clear_screen = lambda *a, **k: None
sys.modules["esat_rust"] = _stub
import copy, json, tempfile, pickle
import numpy as np
import pandas as pd
import logging
logging.disable(logging.CRITICAL)
%s
del sys.modules["esat_rust"]


def data(seed=0, n=40, m=6, k=3):
    r = np.random.default_rng(seed)
    W = r.gamma(1.0, 1.0, (n, k)); H = r.gamma(1.0, 1.0, (k, m)) + 0.01
    V = W @ H * r.uniform(0.9, 1.1, (n, m)) + 0.01
    U = V * 0.1 + 0.05
    return V, U


def main():
%s


if __name__ == "__main__":
    main()
    print("demo: ok")
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
D="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(bid, prop, file, old, new, demo, needs, breaks, imports="", tests=True, count=1):
    edits = [(file, old, new)] if isinstance(file, str) else file
    os.makedirs(SCR, exist_ok=True)
    R = os.path.join(SCR, "repo-%d" % os.getpid())
    shutil.rmtree(R, ignore_errors=True)
    sh("git", "-C", "/repo", "worktree", "prune")
    sh("cp", "-a", "/repo", R)
    sh("git", "-C", R, "checkout", "-q", "--", ".")
    base = sh("git", "-C", R, "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
    first = "0e140d9"
    try:
        for f, o, n in edits:
            p = os.path.join(R, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            if s.count(o) != count:
                return print(bid, "FAIL: old text occurs", s.count(o), "times in", f)
            open(p, "w", newline="").write(s.replace(o, n))
        patch = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        bad, rem = [], 0
        for f, _, _ in edits:
            old_n = 0
            bl = [l.split()[0] for l in sh("git", "-C", R, "blame", "-s", "HEAD", "--", f).stdout.split("\n") if l]
            d1 = sh("git", "-C", R, "diff", "-U0", "--", f).stdout
            for l in d1.split("\n"):
                m = re.match(r"@@ -(\d+)", l)
                if m:
                    old_n = int(m.group(1))
                elif l.startswith("-") and not l.startswith("---"):
                    rem += 1
                    if not bl[old_n - 1].startswith(("^0e140d9"[:8], "0e140d9")):
                        bad.append(l)
                    old_n += 1
        if bad or not rem:
            return print(bid, "FAIL: changes no original line, or lines which are not original:", bad)
        d = os.path.join(HERE, "seeded", bid)
        tmp = os.path.join(SCR, "demo-%d" % os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        body = "\n".join("    " + l for l in demo.strip("\n").split("\n"))
        open(os.path.join(tmp, "demo.py"), "w").write(PRE % (imports, body))
        open(os.path.join(tmp, "demo.sh"), "w").write(SH)
        r1 = sh("bash", os.path.join(tmp, "demo.sh"), cwd=R, timeout=300)
        if r1.returncode == 0:
            return print(bid, "FAIL: demo passes with the patch", r1.stdout[-800:])
        sh("git", "-C", R, "checkout", "-q", "--", ".")
        r0 = sh("bash", os.path.join(tmp, "demo.sh"), cwd=R, timeout=300)
        if r0.returncode != 0:
            return print(bid, "FAIL: demo fails on the unchanged tree", r0.stdout[-1800:])
        if tests:
            pf = os.path.join(tmp, "p.diff")
            open(pf, "wb").write(patch)
            if sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip():
                return print("repo not clean")
            try:
                a = sh("git", "-C", "/repo", "apply", pf)
                if a.returncode:
                    return print(bid, "FAIL apply", a.stdout)
                b = sh("bash", "/opt/vp/build.sh")
                t = sh("bash", "/opt/vp/test.sh", os.path.join(tmp, "o.json"))
                o = json.load(open(os.path.join(tmp, "o.json")))
                st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                miss = [x for x in st if x not in o["passed"]]
                if b.returncode or miss:
                    return print(bid, "FAIL: build/tests", b.returncode, miss)
            finally:
                sh("git", "-C", "/repo", "checkout", "--", ".")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        for x in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(tmp, x), os.path.join(d, x))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # what the check says
        open(os.path.join(R, ".x"), "w").close()
        sh("git", "-C", R, "apply", os.path.join(d, "patch.diff"))
        c = sh("python3", os.path.join(HERE, "check.py"), prop, env=dict(os.environ, ESATLINT_REPO=R))
        print(bid, prop, "kept; demo says", r1.stdout.strip().split("\n")[-1][:140], "| check exit", c.returncode, c.stdout.strip().split("\n")[-1][:200])
    finally:
        shutil.rmtree(R, ignore_errors=True)
        shutil.rmtree(os.path.join(SCR, "demo-%d" % os.getpid()), ignore_errors=True)
