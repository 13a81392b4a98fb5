"""Development aid: how every planted change under seeded/ is classified, in memory.

usage: seeds.py [name-regex]
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import probe
from esatlint import core


def edits(d):
    patch = os.path.join(d, "patch.diff")
    files = re.findall(r"^\+\+\+ b/(\S+)", open(patch, newline="").read().replace("\r", ""), re.M)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
            shutil.copy(os.path.join(core.REPO, f), os.path.join(tmp, f))
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp, patch], cwd="/", capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "--binary", "-s", "-i", patch], cwd=tmp, capture_output=True, text=True)
            if r.returncode:
                return None
        out = []
        for f in files:
            a, b = (open(os.path.join(x, f), newline="").read().replace("\r\n", "\n") for x in (core.REPO, tmp))
            out.append((f, a, b))
        return out
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    P = []
    for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", "*"))):
        if len(sys.argv) > 1 and not re.search(sys.argv[1], os.path.basename(d)):
            continue
        e = edits(d)
        if not e:
            print("no-patch", d)
            continue
        P.append((json.load(open(os.path.join(d, "meta.json")))["property"], os.path.basename(d), e[0][0], e))
    probe.setup()
    n = {}
    with mp.Pool(8, maxtasksperchild=3) as pool:
        for p, v, out in pool.imap(probe.run, P, chunksize=1):
            n[v.split(":")[0]] = n.get(v.split(":")[0], 0) + 1
            if v != "CAUGHT" or len(sys.argv) > 1:
                print("%-10s %s %s" % (v, p[0], p[1]))
                print("\n".join(x[:400] for x in out[:8]))
            sys.stdout.flush()
    print(n)
