"""Runs the analysis of one property and reports."""
import ast
import json
import multiprocessing as mp
import os
import resource
import re
import sys
import time
import traceback

from . import core, props, rules, shape
from .loader import Tree

HERE = core.HERE
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, "replay")
KNOWN = os.path.join(HERE, "known_findings.txt")
G = {}


def known_fields(tree):
    out = set()
    for m in tree.modules.values():
        for c in m.classes.values():
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    out.add(x.attr)
    return frozenset(out)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def work(q):
    """analyse one entry point in both trees; plain data only"""
    t = time.time()
    r = {"entry": q, "obl": 0, "ok": 0, "findings": [], "why": None, "inlined": [], "opaque": [], "loc": None, "wall": 0, "per": []}
    try:
        sb, wb, _ = core.analyse(G["ref"], q, G["sigs"], G["limit"])
        if sb is None:
            r["why"] = "reference: " + str(wb)
            return r
        if G["repo"].find(q) is None:
            r["why"] = "entry point not found"
            return r
        sa, wa, _ = core.analyse(G["repo"], q, G["sigs"], G["limit"])
        if sa is None:
            r["why"] = wa
            return r
        r["loc"] = "%s:%s" % (sa.path, sa.line)
        r["inlined"] = sorted(map(str, sa.inlined))
        r["opaque"] = sorted(map(str, sa.opaque))
        obl, ok, fs = core.compare_entry(q, sa, sb, G["kf"])
        r["obl"], r["ok"] = obl, ok
        for f in fs:
            r["findings"].append({"observable": f.observable, "kind": f.kind, "text": f.text, "loc": str(f.loc), "key": f.key, "inputs": f.inputs, "broken": f.broken, "weak": f.weak and G["change"].restructured(q, set(sa.inlined) | set(sb.inlined)),
                                  "point": G["change"].entry(q, set(sa.inlined) | set(sb.inlined)) if f.kind != "definite" else None})
    except (Exception, MemoryError):
        r["why"] = "analysis error: " + traceback.format_exc()[-400:]
    r["wall"] = time.time() - t
    return r


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
            if m:
                out.append(m.groups())
    return out


def reported(prop, f):
    """does this disagreement count as a violation of the property"""
    if prop == "C29":
        return bool(f["broken"])
    if f["kind"] != "definite" and not f.get("point"):
        return False
    if f.get("weak"):
        return False         # rewritten code, and no difference that is wrong in itself
    if prop == "C01" and f["observable"].startswith("self.") and any("elements are replaced" in str(x) for x in f["text"]):
        return True          # an object handed over earlier and kept
    if not props.matches(prop, f["entry"], f["observable"]):
        return False
    if prop == "C28":
        return any(props.SELECT.search(x) for x in f["inputs"]) or f["observable"] == "raises"
    return True


def main(argv):
    t0 = time.time()
    if not argv or argv[0] not in props.SPEC:
        print("usage: check.py <property>", file=sys.stderr)
        return 2
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        repo, ref = Tree(core.REPO), Tree(core.REF)
    except (SyntaxError, OSError) as e:
        print("analysis error: %s" % e, file=sys.stderr)
        return 2
    sigs = core.signatures(ref)
    G.update(repo=repo, ref=ref, sigs=sigs, change=shape.Change(ref, repo), kf=known_fields(ref), limit=120 if tier == "quick" else 400)
    ents = [q for q in core.entries(ref) if props.entry_matches(prop, q)]
    if tier == "thorough":
        # every entry point that reaches the mapped ones is analysed as well
        ents = [q for q in core.entries(ref)]
    res = []
    if ents:
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), initializer=limit_memory) as pool:
            res = pool.map(work, ents, chunksize=1)
    if ents and not any(r["why"] is None for r in res):
        for r in res:
            print("analysis error: %s: %s" % (r["entry"], r["why"]), file=sys.stderr)
        return 2
    viol, quiet = [], []
    for r in res:
        for f in r["findings"]:
            f["entry"] = r["entry"]
            (viol if reported(prop, f) else quiet).append(f)
    rule_stats = {}
    for name, fn in rules.RULES.get(prop, []):
        st, fs = fn(repo, ref)
        rule_stats[name] = st
        for f in fs:
            f.setdefault("kind", "definite")
            f.setdefault("observable", name)
            viol.append(f)
    known = [(k, d) for p, k, d in load_known() if p == prop]
    rest = []
    seen = set()
    for f in viol:
        hit = [d for k, d in known if k == f["key"].replace(" ", "_")]
        if hit:
            if f["key"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
            seen.add(f["key"])
        else:
            rest.append(f)
    rest.sort(key=lambda f: (f["key"]))
    mine = [r for r in res if props.entry_matches(prop, r["entry"])]
    undec = [{"entry": r["entry"], "why": r["why"]} for r in res if r["why"]]
    unk = [f for f in quiet if f["kind"] != "definite" or f.get("weak")]
    funcs = sorted({x for r in res for x in r["inlined"]} | {r["entry"] for r in res if not r["why"]})
    cov = {
        "explanation": "The current source of /repo was parsed and every entry point mapped to the property was evaluated over the value-flow domain "
                       "(gated normal forms, private helpers inlined); each observable (return value, fields, changed arguments, raised errors, effects, defaults) "
                       "is one obligation, discharged when its normal form equals the one of the audited reference model.  Reference-free rules are listed under rules.",
        "obligations": sum(r["obl"] for r in res) + sum(s.get("sites", 0) for s in rule_stats.values()),
        "discharged": sum(r["ok"] for r in res) + sum(s.get("ok", s.get("sites", 0)) for s in rule_stats.values()),
        "undecided_entries": undec, "undecided_observables": [f["key"] for f in unk][:40],
        "entry_points": len(res), "mapped_entry_points": len(mine), "functions_analysed": len(funcs), "rules": rule_stats,
        "samples": [{"entry": r["entry"], "at": r["loc"], "obligations": r["obl"], "discharged": r["ok"], "inlined": len(r["inlined"])} for r in mine[:12]],
    }
    ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["the reference model under /verif/ref was audited by reading", "external functions (numpy, pandas, scipy, sklearn, plotly) are deterministic functions of their arguments "
                          "unless listed as random or as changing an argument", "arithmetic is exact (rounding is not modelled)"],
          "wall_s": round(time.time() - t0, 3), "violations": len(rest)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s: %d entry points, %d obligations, %d discharged, %d undecided, %d rules, %.1f s"
          % (prop, len(res), cov["obligations"], cov["discharged"], len(unk) + len(undec), len(rule_stats), time.time() - t0))
    if rest:
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, prop + ".json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "repo": core.REPO, "findings": rest}, fh, indent=1)
        for f in rest[:10]:
            print("  %s  %s  (%s)" % (f["entry"], f["observable"], f.get("loc")))
            for e in (f.get("point") or [])[:3]:
                print("      changed in place: %s" % e)
            if f.get("broken"):
                print("      newly depends on %s" % f["broken"])
            for m in f["text"][:2]:
                if isinstance(m, (list, tuple)):
                    print("      %s: found %s; expected %s" % (m[1], str(m[2])[:300], str(m[3])[:300]))
                else:
                    print("      %s" % (m,))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
