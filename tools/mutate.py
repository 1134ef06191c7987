#!/opt/veriftools/pyvenv/bin/python
"""Development aid (no check uses it): small edits of one function at a time, run against every property that analyses
that function. Lists the edits that no property reports.
usage: mutate.py module[:function] ... [-j 8] [-v]"""
import ast, copy, importlib, os, pkgutil, sys, time, multiprocessing as mp
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import rules
from rules.common import PROPS, SPECS
from sa.program import Program, Module, AnalysisError
from sa.rule import Ctx
for m in sorted(pkgutil.iter_modules(rules.__path__), key=lambda m: m.name):
    importlib.import_module("rules." + m.name)

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
LOGS = {"info", "error", "warning", "debug", "verboselog", "exit", "print", "exception", "ValueError", "KeyError", "RuntimeError", "TypeError", "Exception"}


def callname(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""


def mutants(fn):
    """(description, line, apply) for one function node; apply edits a fresh copy in place"""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and callname(n) in LOGS or isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                if x is not n:
                    skip.add(id(x))
    nodes = list(ast.walk(fn))
    params = [a.arg for a in fn.args.args if a.arg != "self"]
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                out.append(("%s -> %s in %s" % (type(n.ops[0]).__name__, r.__name__, ast.unparse(n)[:60]), ln, i, lambda x, r=r: x.ops.__setitem__(0, r())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            r = BIN[type(n.op)]
            if not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", None), str)):
                out.append(("%s -> %s in %s" % (type(n.op).__name__, r.__name__, ast.unparse(n)[:60]), ln, i, lambda x, r=r: setattr(x, "op", r())))
        elif isinstance(n, ast.BoolOp):
            r = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append(("%s -> %s in %s" % (type(n.op).__name__, r.__name__, ast.unparse(n)[:60]), ln, i, lambda x, r=r: setattr(x, "op", r())))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = (not n.value) if isinstance(n.value, bool) else n.value + 1
            out.append(("%r -> %r" % (n.value, v), ln, i, lambda x, v=v: setattr(x, "value", v)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 60:
            out.append(("%r -> %r" % (n.value, n.value + "X"), ln, i, lambda x: setattr(x, "value", x.value + "X")))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append(("swap arguments of %s" % ast.unparse(n)[:60], ln, i, lambda x: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]])))
        if isinstance(n, ast.Call) and n.keywords and callname(n) not in LOGS:
            for k in range(len(n.keywords)):
                out.append(("drop %s= of %s" % (n.keywords[k].arg, ast.unparse(n)[:60]), ln, i, lambda x, k=k: x.keywords.pop(k)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append(("drop operator of %s" % ast.unparse(n)[:60], ln, i, "operand"))
        if isinstance(n, ast.If):
            out.append(("negate if %s" % ast.unparse(n.test)[:60], ln, i, lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test))))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise, ast.Expr, ast.Continue, ast.Break, ast.Return)):
                        if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or (isinstance(s.value, ast.Call) and callname(s.value) in LOGS - {"exit"})):
                            continue
                        out.append(("delete %s" % ast.unparse(s)[:70], s.lineno, i, lambda x, f=f, k=k: getattr(x, f).__setitem__(k, ast.Pass())))
                    if k + 1 < len(b) and isinstance(s, (ast.Assign, ast.Expr)) and isinstance(b[k + 1], (ast.Assign, ast.Expr)) and not isinstance(getattr(s, "value", None), ast.Constant):
                        out.append(("swap with next: %s" % ast.unparse(s)[:60], s.lineno, i, lambda x, f=f, k=k: getattr(x, f).__setitem__(slice(k, k + 2), [getattr(x, f)[k + 1], getattr(x, f)[k]])))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params and len(params) > 1:
            o = params[(params.index(n.id) + 1) % len(params)]
            out.append(("%s -> %s" % (n.id, o), ln, i, lambda x, o=o: setattr(x, "id", o)))
    return out


def parent_replace(fn, i, field):
    node = list(ast.walk(fn))[i]
    new = getattr(node, field)
    for p in ast.walk(fn):
        for f, v in ast.iter_fields(p):
            if v is node:
                setattr(p, f, new)
            elif isinstance(v, list) and any(x is node for x in v):
                setattr(p, f, [new if x is node else x for x in v])


def find(tree, path):
    node = tree
    for part in path.split("."):
        node = next(x for x in ast.walk(node) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part and x is not node)
    return node


def run_props(prog, props, first=True):
    res = []
    for p in props:
        ctx = Ctx(p, "quick", SPECS, prog)
        err = None
        for f in PROPS[p]:
            try:
                f(ctx)
            except AnalysisError as e:
                err = "ERR %s" % str(e)[:150]
            except Exception as e:
                err = "INTERNAL %s %s" % (type(e).__name__, str(e)[:150])
            if ctx.findings:
                break
        if ctx.findings:
            return [(p, "FOUND", ctx.findings[0][0])]
        if err:
            res.append((p, err, ""))
    return res


def job(a):
    modname, path, k, props = a
    prog = Program(extra=SPECS)
    m = prog.modules[modname]
    src = m.src
    tree = ast.parse(src)
    fn = find(tree, path)
    desc, ln, i, ap = mutants(fn)[k]
    try:
        if ap == "operand":
            parent_replace(fn, i, "operand")
        else:
            ap(list(ast.walk(fn))[i])
        ast.fix_missing_locations(tree)
        compile(tree, "x", "exec")
    except (SyntaxError, ValueError, TypeError):
        return (path, ln, desc, "SKIP")
    prog.modules[modname] = Module(modname, m.path, tree, ast.unparse(tree))
    t = time.time()
    r = run_props(prog, props)
    return (path, ln, desc, r, round(time.time() - t, 1))


def baseline(p):
    ctx = Ctx(p, "quick", SPECS)
    t = time.time()
    for f in PROPS[p]:
        f(ctx)
    return p, set(ctx.analysed), time.time() - t


if __name__ == "__main__":
    args = [x for x in sys.argv[1:] if not x.startswith("-")]
    verbose = "-v" in sys.argv
    with mp.Pool(8, maxtasksperchild=40) as pool:
        base = pool.map(baseline, sorted(PROPS), chunksize=1)
        jobs = []
        prog = Program(extra=SPECS)
        for a in args:
            mn, _, only = a.partition(":")
            mods = [x for x in prog.modules if x == mn or x.endswith("." + mn)]
            for md in mods:
                stack = [(n, n.name) for n in prog.modules[md].tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
                while stack:
                    n, path = stack.pop(0)
                    if isinstance(n, ast.ClassDef):
                        stack = [(x, path + "." + x.name) for x in n.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))] + stack
                        continue
                    if only and not (path == only or path.split(".")[-1] == only):
                        continue
                    q = md + ":" + path
                    ps = [(p, t) for p, an, t in base if q in an]
                    if not ps:
                        print("NOT ANALYSED", q)
                        continue
                    ps = [p for p, t in sorted(ps, key=lambda x: x[1])]
                    for k in range(len(mutants(find(ast.parse(prog.modules[md].src), path)))):
                        jobs.append((md, path, k, ps))
        tot, caught, err = 0, 0, 0
        for r in pool.imap(job, jobs, chunksize=4):
            if r[3] == "SKIP":
                continue
            tot += 1
            if any(x[1] == "FOUND" for x in r[3]):
                caught += 1
                if verbose:
                    print("ok   %s:%d %s  [%s %s]" % (r[0], r[1], r[2], r[3][0][0], r[3][0][2]))
            elif r[3]:
                err += 1
                print("ERR  %s:%d %s  %s" % (r[0], r[1], r[2], r[3][0]))
            else:
                print("LIVE %s:%d %s" % (r[0], r[1], r[2]))
        print("mutants %d caught %d errors %d live %d" % (tot, caught, err, tot - caught - err))
