#!/opt/veriftools/pyvenv/bin/python
"""writes MANIFEST.json: every property with rules is claimed, the others are listed with a reason"""
import importlib, json, os, pkgutil, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import rules
from rules.common import PROPS, NOTES
for m in pkgutil.iter_modules(rules.__path__):
    importlib.import_module("rules." + m.name)
NA = json.load(open(os.path.join(H, "tools", "na.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS and i not in NA:
        rs = "; ".join((f.__doc__ or f.__name__).strip().replace("\n", " ") for f in PROPS[i])
        checks.append({"property": i,
                       "quick_cmd": "/verif/check.py --property %s --tier quick" % i,
                       "thorough_cmd": "/verif/check.py --property %s --tier thorough" % i,
                       "technique": "static analysis: gated value-graph (value numbering / dataflow) and effect analysis of the source, compared with reference definitions and repository-specific rules",
                       "level": "other",
                       "level_note": ("Decides, for all inputs at the level of the source: " + rs + ". " + NOTES.get(i, "") +
                                      " Library behaviour (numpy, pandas, ...) is taken as documented and arithmetic is compared over the reals.").replace("  ", " ")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
