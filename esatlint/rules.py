"""Rules that need no reference model: property -> [(name, rule)]."""
from . import rules_c29, rules_more, rules_sign

RULES = {"C29": list(rules_c29.ALL), "C03": [("generators seeded", rules_more.seeds)], "C05": [("native call order", rules_more.native)],
         "C01": [("mutable defaults and shared class attributes", rules_more.defaults)], "C04": [("mutable defaults and shared class attributes", rules_more.defaults)]}
for p in ("C02", "C07", "C10"):
    RULES.setdefault(p, []).append(("signs", rules_sign.rule(p)))
