"""Development aid: the same source analysed repeatedly (shifted fresh numbering) must give identical normal forms."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from esatlint import core, terms as T
from esatlint.compare import Comparer
from esatlint.loader import Tree
t = Tree(core.REF); sigs = core.signatures(t)
first = {}
qs = [q for q in core.entries(t) if len(sys.argv) < 2 or sys.argv[1] in q]
for rnd in range(3):
    random.Random(rnd).shuffle(qs)
    for q in qs:
        t2 = t
        s, why, it = core.analyse(t2, q, sigs)
        if s is None:
            print(q, why); continue
        obs = {"ret": s.ret, **{"." + k: v for k, v in s.fields.items()}, **{"P" + k: v for k, v in s.params.items()}, **{"D" + k: v for k, v in s.deep.items()}, **{"E%d" % i: T.N("tuple", g, n) for i, (g, n, l) in enumerate(s.eff)}}
        if q in first:
            for k, v in obs.items():
                if first[q].get(k) is not v:
                    ms = Comparer().diff(v, first[q].get(k))
                    print("UNSTABLE" if ms else "unstable", q, k, "size", v.size, ms[:3])
                    if ms: break
        else:
            first[q] = obs
