"""Development aid: applies hand-written changes to the current tree in memory and reports how they are classified.

usage: probe.py FILE [label-regex]; FILE defines PROBES = [(property, label, file, [(old, new), ...]), ...]
"""
import os, re, sys, multiprocessing as mp, runpy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from esatlint import core, props, rules, runner, shape
from esatlint.loader import Tree


def run(p):
    prop, label, path, edits = p
    t = Tree(core.REPO)
    byfile = {}
    for e in edits:
        f, o, n = e if len(e) == 3 else (path,) + tuple(e)
        byfile.setdefault(f, []).append((o, n))
    mods = {os.path.relpath(m.path, t.root) if os.path.isabs(m.path) else m.path: m for m in t.modules.values()}
    for f, es in byfile.items():
        src = open(os.path.join(core.REPO, f), newline="").read().replace("\r\n", "\n")
        for o, n in es:
            if src.count(o) != 1:
                return p, "bad-edit", ["%d matches: %s" % (src.count(o), o[:80])]
            src = src.replace(o, n)
        try:
            t.replace_source(mods[f].name, src)
        except SyntaxError as e:
            return p, "syntax", [str(e)]
    ch = shape.Change(G["ref"], t)
    runner.G.update(change=ch, repo=t, ref=G["ref"], sigs=G["sigs"], kf=G["kf"], limit=120)
    out, hit, sure = [], set(), set()
    for k, v in sorted(ch.status.items()):
        if v:
            out.append("   shape %s: %s" % (k, v))
    for q in G["ents"]:
        if not touched(q, set(byfile)) or not ALLP and not props.entry_matches(prop, q):
            continue
        r = runner.work(q)
        if r["why"]:
            out.append("   %s not analysed: %s" % (q, r["why"][-200:]))
        for f in r["findings"]:
            f["entry"] = q
            hs = [x for x in props.SPEC if runner.reported(x, f)]
            hit |= set(hs)
            if not f.get("weak"):
                sure |= set(hs)
            out.append("   " + ("weak " if f.get("weak") else "") + "%s %s %s %s %s" % (f["kind"], q, f["observable"], str(f["text"])[:300], f["broken"]))
    for pr, rs in rules.RULES.items():
        if pr in ("C29", prop):
            for name, fn in rs:
                st, fs = fn(t, G["ref"])
                for f in [f for f in fs if "either sign" not in str(f) and "either_sign" not in str(f)]:
                    hit.add(pr)
                    sure.add(pr)
                    out.append("   rule %s %s %s" % (pr, name, f["text"][0][:200]))
    v = "CAUGHT" if prop in hit else ("other:" + ",".join(sorted(hit)) if hit else ("undecided" if len(out) > sum(1 for v in ch.status.values() if v) else "EQUAL"))
    if hit and not (prop in sure if prop in hit else sure):
        v = "weak-" + v
    return p, v, out


def touched(q, files):
    m = G["ref"].find(q)[0]
    return True if q not in G["inl"] else bool(G["inl"][q] & files)


G = {}
ALLP = "--all" in sys.argv


def setup():
    ref = Tree(core.REF)
    G.update(ref=ref, sigs=core.signatures(ref), kf=runner.known_fields(ref), ents=core.entries(ref))
    import ast
    idx = {}
    for m, c, f in ref.all_functions():
        idx.setdefault(f.name, []).append((os.path.relpath(m.path, ref.root) if os.path.isabs(m.path) else m.path, f))
    inl = {}
    for q in G["ents"]:
        m, c, f = ref.find(q)
        seen, todo, fs = {f}, [f], {os.path.relpath(m.path, ref.root) if os.path.isabs(m.path) else m.path}
        while todo:
            for x in ast.walk(todo.pop()):
                n = x.attr if isinstance(x, ast.Attribute) else (x.id if isinstance(x, ast.Name) else None)
                for p2, f2 in idx.get(n, []):
                    if f2 not in seen:
                        seen.add(f2)
                        todo.append(f2)
                        fs.add(p2)
        inl[q] = fs
    G["inl"] = inl


if __name__ == "__main__":
    P = runpy.run_path(sys.argv[1])["PROBES"]
    if len(sys.argv) > 2 and sys.argv[2] != '--all':
        P = [p for p in P if re.search(sys.argv[2], p[1])]
    setup()
    with mp.Pool(8, maxtasksperchild=3) as pool:
        n = {}
        for p, v, out in pool.imap(run, P, chunksize=1):
            n[v.split(":")[0]] = n.get(v.split(":")[0], 0) + 1
            print("%-10s %s %s" % (v, p[0], p[1]))
            if v != "CAUGHT" or len(sys.argv) > 2 and sys.argv[2] != "--all":
                print("\n".join(x[:700] for x in out[:8]))
            sys.stdout.flush()
    print(n)
