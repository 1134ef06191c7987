#!/opt/veriftools/pyvenv/bin/python
"""check.py --property ID [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse, importlib, json, os, pkgutil, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument("--property", required=True)
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--root", default=None, help="development only: a scratch copy of the repository")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
if a.root:
    os.environ["SA_REPO"] = a.root
from sa.program import AnalysisError, Program  # noqa
from sa import ambient  # noqa
import rules  # noqa
from rules.common import PROPS, SPECS  # noqa
for m in sorted(pkgutil.iter_modules(rules.__path__), key=lambda m: m.name):
    importlib.import_module("rules." + m.name)
from sa.rule import Ctx  # noqa


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    try:
        return [k for k in json.load(open(p)) if k["property"] == prop and k.get("status") == "known"]
    except FileNotFoundError:
        return []


def main():
    t0 = time.time()
    fns = PROPS.get(a.property)
    if not fns:
        print("ERROR no rules for property", a.property)
        return 3
    ctx = Ctx(a.property, a.tier, SPECS)
    errors, times = [], {}
    for f in fns + [ambient.decide]:
        t = time.time()
        try:
            f(ctx)
        except AnalysisError as e:
            errors.append("%s: %s" % (f.__name__, e))
        except Exception:
            errors.append("%s: internal error\n%s" % (f.__name__, traceback.format_exc()))
        times[f.__name__] = round(time.time() - t, 2)
    kf = known(a.property)
    new, old = [], []
    for f in ctx.findings:
        k = next((k for k in kf if k["rule"] == f[0] and k["construct"] == f[1] and k.get("match", "") in f[2]), None)
        (old if k else new).append((f, k))
    ev = {
        "property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the source text: a gated value-graph interpretation of the named functions "
                           "(callees inlined, loops summarised, nothing executed); every obligation compares a fact extracted "
                           "from the current source with its reference or rule.",
            "obligations": sum(ctx.obl.values()),
            "obligations_by_rule": dict(sorted(ctx.obl.items())),
            "functions_analysed": len(ctx.analysed),
            "function_activations": sum(ctx.analysed.values()),
            "functions": sorted(ctx.analysed),
            "effects_recorded": ctx.effects, "loops_summarised": ctx.loops,
            "modules_parsed": len([m for m in ctx.prog.modules if not m.startswith("vspec.")]),
            "source_digest": ctx.prog.digest(),
            "rules": {f.__name__: (f.__doc__ or "").strip() for f in fns + [ambient.decide]},
            "rule_seconds": times,
            "facts": ctx.facts[:60],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": [
            "library calls (numpy, pandas, sqlite3, healpy, assist) behave as documented; arithmetic is compared over the reals",
            "the repository's Python modules under /repo/src are the program (no monkey-patching at run time)"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1, sort_keys=True)
    print("property %s: %d obligations over %d functions, %d findings (%d known), %d undecided, %.1fs" % (
        a.property, sum(ctx.obl.values()), len(ctx.analysed), len(ctx.findings), len(old), len(errors), time.time() - t0))
    if a.v:
        for k, v in sorted(ctx.obl.items()):
            print("   %5d %s" % (v, k))
        print("  ", times)
    seen = set()
    for (r, c, m), k in old:
        if id(k) not in seen:
            seen.add(id(k))
            print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    if new:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, ((r, c, m), _) in enumerate(new[:20]):
            p = os.path.join(d, "%s-%d.txt" % (a.property, i))
            open(p, "w").write("property %s\nrule: %s\nconstruct: %s\n%s\nrerun: %s --property %s\n" % (
                a.property, r, c, m, os.path.abspath(__file__), a.property))
            print("  [%s] %s: %s" % (r, c, m[:1500]))
            print("VIOLATION property=%s replay=%s" % (a.property, p))
        for e in errors:
            print("UNDECIDED", e)
        return 1
    if errors:
        for e in errors:
            print("ERROR analysis cannot decide:", e)
        return 2
    if not ctx.obl:
        print("ERROR no obligations")
        return 2
    return 0


sys.exit(main())
