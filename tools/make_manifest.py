"""Writes MANIFEST.json from properties.jsonl (run by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from esatlint import props
NA = {
    "C40": "Descent of the weighted loss for every matrix is a numerical theorem about real arithmetic (and fails up to rounding); no dataflow or syntactic "
           "fact about the source bounds it.  The structural part, that one step is exactly the published update, is decided under C07.",
    "C41": "The compiled extension is not built in this environment and its kernels (Rust, candle/nalgebra, optional GPU) would have to be proved numerically equal to the "
           "numpy code; a static argument over two languages' floating point loops is out of reach.  The argument order and settings handed over are decided under C05.",
    "C42": "Recovery of synthetic factors is a statistical statement about random starts and optimisation landscapes; no static fact about the source decides it.",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": props.TECHNIQUE.get(i, props.DEFAULT_TECHNIQUE),
        "level": "other",
        "level_note": props.NOTE.get(i, props.DEFAULT_NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 -c 'import esatlint.runner'", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo. Every check parses /repo's current source (never runs it); see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks")
