"""P22: whatever stops a run is logged as an error first and ends in a failure status."""
import ast, builtins
from .common import *
from sa.flow import Flow, dotted, ERR, constbool

LOGGING = ("logging", "GetLogger")
_cache = {}


def flow(ctx):
    k = id(ctx.prog)
    if k not in _cache:
        _cache.clear()
        _cache[k] = Flow(ctx.prog)
    return _cache[k]


def logs(m):
    return any(x in m.src for x in LOGGING)


def zero(args):
    """exit status certainly a success"""
    if not args:
        return True
    a = args[0]
    return isinstance(a, ast.Constant) and (a.value is None or a.value is False or a.value == 0 and not isinstance(a.value, str))


def mark(ctx, q):
    ctx.analysed[q] = ctx.analysed.get(q, 0) + 1


@prop("P22")
def logged_first(ctx):
    """every way the run is ended is preceded, on every path, by an error in the log (helpers and callers included)"""
    fl = flow(ctx)
    called = set()
    for q, (m, c, f) in fl.funcs.items():
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                r = fl.resolve(m, c, n)
                if r in fl.funcs and r != q:
                    called.add(r)
    for q in sorted(fl.funcs):
        m, c, f = fl.funcs[q]
        s = fl.summary(q)
        if s.fate or s.unlogged or s.pending:
            mark(ctx, q)
        # an error in the log ends the run (a pure logging helper passes this on to its callers)
        for n, _ in s.fate:
            ctx.ob("an exit is preceded by an error in the log", True, q)
        if s.pending and not s.logs:
            for n in s.pending:
                ctx.bad("an error in the log ends the run", q, "after logging an error the function can go on normally (line %d)" % n.lineno)
        elif s.pending and q not in called and c is None:
            ctx.bad("an error in the log ends the run", q, "logs an error and returns; nothing ends the run")
        # roots: the obligation is with the callers otherwise
        if s.unlogged and (q not in called or not logs(m)):
            for n, chain in s.unlogged:
                mods = [fl.funcs[x][0] for x in chain] + [m]
                if q in called and not logs(m):
                    continue
                if any(logs(x) for x in mods if not x.name.startswith("sorcha_cmdline.") or x.name == "sorcha_cmdline.run") and not utility(mods):
                    ctx.bad("an exit is preceded by an error in the log", q, "line %d%s ends the run with nothing in the log" % (
                        n.lineno, " (through %s)" % " -> ".join(chain) if chain else ""))


def utility(mods):
    """a command that keeps no log: none of the modules on the way, file checks aside, uses one"""
    return not any(logs(x) for x in mods if x.name != "sorcha.utilities.fileAccessUtils")


@prop("P22")
def failure_status(ctx):
    """exits on a problem carry a failure status"""
    fl = flow(ctx)
    for q in sorted(fl.funcs):
        m, c, f = fl.funcs[q]
        parents = {}
        for n in ast.walk(f):
            for k in ast.iter_child_nodes(n):
                parents[id(k)] = n
        for n, args in fl.summary(q).fate:
            cond = False
            x = n
            while id(x) in parents:
                x = parents[id(x)]
                if isinstance(x, (ast.If, ast.ExceptHandler)) and not (isinstance(x, ast.If) and "__name__" in ast.unparse(x.test)):
                    cond = True
            if zero(args):
                ctx.ob("failure status", not (cond or logs(m)), q, "line %d ends the process with a success status" % n.lineno)
            else:
                ctx.ob("failure status", True, q)


BROAD = {"Exception", "BaseException"}


@prop("P22")
def not_swallowed(ctx):
    """an unspecific exception handler never lets the run go on; nothing hides an exit"""
    fl = flow(ctx)
    for q in sorted(fl.funcs):
        m, c, f = fl.funcs[q]
        for n in ast.walk(f):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    names = [None] if h.type is None else [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    wide = [x for x in names if x is None or x.split(".")[-1] in BROAD | {"SystemExit", "KeyboardInterrupt"}]
                    if not wide:
                        continue
                    ok = ends(fl, m, c, f, h.body)
                    ctx.ob("no handler swallows failures", ok, q, "the handler of %s (line %d) lets the run go on" % (wide[0] or "every exception", h.lineno))
                if any(isinstance(x, ast.Return) for s in n.finalbody for x in ast.walk(s)):
                    ctx.bad("no handler swallows failures", q, "a return inside finally (line %d) hides exceptions" % n.lineno)
            if isinstance(n, (ast.With,)):
                for it in n.items:
                    e = it.context_expr
                    if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "suppress":
                        bad = [dotted(a) for a in e.args if (dotted(a) or "").split(".")[-1] in BROAD | {"SystemExit"}]
                        ctx.ob("no handler swallows failures", not bad, q, "suppress(%s) (line %d) lets the run go on" % (bad, n.lineno))


def ends(fl, m, c, f, body):
    """every path through body raises or ends the process"""
    from sa.flow import Walk
    w = Walk(fl, m, c, f)
    w.rets = []
    w.loops.append((set(), set()))
    out = w.block(body, {(False, frozenset())})
    brk, cont = w.loops.pop()
    return not out and not w.rets and not brk and not cont


# ---------------------------------------------------------------- reports that fail themselves
def class_attrs(fl, mod, cls, seen=()):
    """attribute names of a class of the repository, None if unknown (outside bases)"""
    if (mod, cls) in seen:
        return set()
    m = fl.prog.modules.get(mod)
    node = next((x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef) and x.name == cls), None) if m else None
    if node is None:
        return None
    out = {"__class__", "__dict__", "__doc__", "__module__", "__name__"}
    for x in ast.walk(node):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.add(x.name)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls") and isinstance(x.ctx, ast.Store):
            out.add(x.attr)
        if isinstance(x, ast.Call) and dotted(x.func) == "setattr":
            return None
    for x in node.body:
        for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) else []):
            if isinstance(t, ast.Name):
                out.add(t.id)
    bs = list(fl.bases(mod, cls))
    known = [b for b in node.bases if dotted(b) not in ("object", "ABC", "abc.ABC", "Enum")]
    if len(bs) < len(known):
        return None
    for bm, bn in bs:
        a = class_attrs(fl, bm, bn, seen + ((mod, cls),))
        if a is None:
            return None
        out |= a
    return out


def annotations(fl, mod, cls):
    m = fl.prog.modules[mod]
    node = next((x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef) and x.name == cls), None)
    return {x.target.id: dotted(x.annotation) for x in node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)} if node else {}


def bound_names(f):
    out = set()
    a = f.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Lambda):
            out |= {x.arg for x in n.args.args}
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
    return out


def module_names(m):
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.id if isinstance(n, ast.Name) else n.name)
    return out | set(dir(builtins)) | {"__name__", "__file__", "__doc__"}


def is_str(e):
    return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str) or \
        isinstance(e, ast.Call) and (dotted(e.func) == "str" or isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "join")) or \
        isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)) and is_str(e.left)


def not_str(e, ann):
    if isinstance(e, ast.Constant) and not isinstance(e.value, str):
        return True
    if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
        return True
    if isinstance(e, ast.Call) and dotted(e.func) in ("int", "float", "len", "list", "set", "sorted", "round"):
        return True
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return ann.get(e.attr) in ("int", "float", "bool", "list", "dict")
    return False


def report_problem(fl, m, c, f, e, names, attrs, ann, excs):
    """why evaluating the expression of a report fails for certain, or None"""
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in names:
            return "name %s is not defined" % n.id
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            b = n.value.id
            if b == "self" and attrs is not None and n.attr not in attrs:
                return "%s has no attribute %s" % (c.name, n.attr)
            if b in excs:
                ok = any(hasattr(x, n.attr) for x in excs[b])
                if not ok:
                    return "exceptions have no attribute %s" % n.attr
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            if is_str(n.left) and not_str(n.right, ann) or is_str(n.right) and not_str(n.left, ann):
                return "adds text and %s" % ast.unparse(n.right if is_str(n.left) else n.left)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) \
                and isinstance(n.func.value.value, str) and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            import string
            try:
                fields = [x[1] for x in string.Formatter().parse(n.func.value.value) if x[1] is not None]
            except ValueError:
                return "malformed format text"
            auto = sum(1 for x in fields if x == "" or x[0] in ".[")
            named = {x.split(".")[0].split("[")[0] for x in fields if x and x[0] not in ".["}
            if auto > len(n.args) or any((int(x) >= len(n.args)) if x.isdigit() else x not in {k.arg for k in n.keywords} for x in named):
                return "fewer values than places in the text"
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            import re
            k = len(re.findall(r"%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]", n.left.value.replace("%%", "")))
            have = len(n.right.elts) if isinstance(n.right, ast.Tuple) else None
            if have is not None and have != k:
                return "the number of values differs from the number of places in the text"
    return None


def bound_before(f):
    """for each statement of f the local names some assignment can have reached by then"""
    out = {}

    def targets(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
            {(x.asname or x.name).split(".")[0] for y in ast.walk(n) if isinstance(y, (ast.Import, ast.ImportFrom)) for x in y.names} | \
            {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and x.name}

    def head(s):
        """names bound by the parts of a compound statement outside its blocks"""
        b = set()
        for k, v in ast.iter_fields(s):
            if k in ("body", "orelse", "finalbody", "handlers", "cases"):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    b |= targets(x)
        return b

    def block(ss, b):
        for s in ss:
            out[id(s)] = out.get(id(s), set()) | b
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                b = b | {s.name}
                continue
            b = b | head(s)
            out[id(s)] |= b & head(s) if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) else set()
            subs = [getattr(s, k) for k in ("body", "orelse", "finalbody") if getattr(s, k, None)]
            hs = [(h.body, {h.name} if h.name else set()) for h in getattr(s, "handlers", [])]
            hs += [(c.body, targets(c.pattern)) for c in getattr(s, "cases", [])]
            if isinstance(s, (ast.For, ast.While, ast.AsyncFor, ast.Try)):
                everything = set(b)
                for x in s.body:
                    everything |= targets(x)
                e = block(s.body, everything if not isinstance(s, ast.Try) else b) | (everything if isinstance(s, ast.Try) else set())
                r = b | e
                for x, nm in hs:
                    r |= block(x, e | nm)
                r |= block(s.orelse, r)
                if isinstance(s, ast.Try):
                    r |= block(s.finalbody, r)
                b = r
            elif subs or hs:
                r = set(b)
                for x in subs:
                    e = block(x, b)
                    r |= set() if leaves(x) else e
                for x, nm in hs:
                    e = block(x, b | nm)
                    r |= set() if leaves(x) else e
                b = r
        return b

    def leaves(ss):
        """the block certainly does not reach its end"""
        x = ss[-1]
        if isinstance(x, ast.If):
            return bool(x.orelse) and leaves(x.body) and leaves(x.orelse)
        return isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and \
            (dotted(x.value.func) or "") in ("sys.exit", "exit", "quit", "os._exit")

    a = f.args
    block(f.body, {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]})
    return out


@prop("P22")
def reports_bound(ctx):
    """every local name a report uses can have been assigned by then"""
    fl = flow(ctx)
    for q in sorted(fl.funcs):
        m, c, f = fl.funcs[q]
        own = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        free = {y for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        inner = {id(y) for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef))
                 and x is not f for y in ast.walk(x)}
        bb = bound_before(f)
        todo = []
        for s in ast.walk(f):
            if isinstance(s, ast.stmt) and id(s) in bb:
                e = s.value if isinstance(s, ast.Expr) else s.exc if isinstance(s, ast.Raise) else None
                if e is None or id(s) in inner:
                    continue
                for n in ast.walk(e):
                    if isinstance(n, ast.Call):
                        d = dotted(n.func) or ""
                        if isinstance(s, ast.Raise) or d in ("sys.exit", "exit") or isinstance(n.func, ast.Attribute) and n.func.attr in ERR | {"warning", "info"} and "log" in d.lower():
                            todo.append((s, n))
        for s, n in todo:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inner and x.id in own - free:
                    ctx.ob("reports never fail", x.id in bb[id(s)], q, "line %d: %s has no value yet" % (x.lineno, x.id))


@prop("P22")
def reports_work(ctx):
    """evaluating the text of a report never fails: names, attributes and formats it uses exist"""
    fl = flow(ctx)
    for q in sorted(fl.funcs):
        m, c, f = fl.funcs[q]
        todo, excs = [], {}
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                d = dotted(n.func) or ""
                if d in ("sys.exit", "exit") or isinstance(n.func, ast.Attribute) and n.func.attr in ERR | {"warning", "info"} and "log" in d.lower():
                    todo += [n.func] + n.args
            elif isinstance(n, ast.Raise) and n.exc is not None:
                todo.append(n.exc)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
                ks = [getattr(builtins, dotted(t) or "", None) for t in ts]
                if all(isinstance(k, type) for k in ks):
                    excs.setdefault(n.name, []).extend(k() if k is not UnicodeDecodeError else k for k in ks)
                    todo += [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.expr)]
        for a in f.args.posonlyargs + f.args.args:
            d = dotted(a.annotation) if a.annotation is not None else None
            k = getattr(builtins, d, None) if d else None
            if isinstance(k, type) and issubclass(k, BaseException):
                excs[a.arg] = [k()]
                todo += [x for s in f.body for x in ast.walk(s) if isinstance(x, ast.expr)]
        if not todo:
            continue
        names = bound_names(f) | module_names(m)
        for _, _, g in fl.funcs.values():
            if g is not f and any(x is f for x in ast.walk(g)):
                names |= bound_names(g)
        attrs = class_attrs(fl, m.name, c.name) if c is not None else None
        ann = annotations(fl, m.name, c.name) if c is not None else {}
        for e in todo:
            p = report_problem(fl, m, c, f, e, names, attrs, ann, excs)
            ctx.ob("reports never fail", p is None, q, "line %d: %s" % (e.lineno, p))
