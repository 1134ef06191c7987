"""Path-sensitive walk of a function's statements that tracks one thing: has an error been logged, and has
the run ended.  A state is (logged, facts): facts are truth values of test expressions and flags met on the way.
Helper functions are summarised, so moving a log call or an exit into a helper changes nothing."""
import ast
from .program import AnalysisError

ERR = {"error", "critical", "exception", "fatal"}
LIMIT = 300


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


class Summary:
    def __init__(self):
        self.normal = set()       # logged flags of normal returns
        self.unlogged = []        # (node, chain) exits reached with nothing logged
        self.pending = []         # nodes of returns with an error logged
        self.noreturn = False
        self.logs = False         # every normal return has logged (a log helper)
        self.fate = []            # (node, value expr) exits


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.funcs, self.by_name, self.methods = {}, {}, {}
        for m, c, f in prog.functions():
            if m.name.startswith("vspec"):
                continue
            q = m.name + ":" + (c.name + "." if c else "") + f.name
            self.funcs.setdefault(q, (m, c, f))
            if c is None:
                self.by_name.setdefault((m.name, f.name), q)
            else:
                self.methods.setdefault((m.name, c.name, f.name), q)
        self.imports = {m.name: self._imports(m) for m in prog.modules.values()}
        self.sums, self.stack = {}, []

    # ---- name resolution
    def _imports(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    out[a.asname or a.name] = base + "." + a.name
        return out

    def resolve(self, m, c, call):
        """qual of the repository function called, or a dotted external name"""
        fn = call.func if isinstance(call, ast.Call) else call
        d = dotted(fn)
        if d is None:
            return None
        parts = d.split(".")
        if parts[0] in ("self", "cls") and c is not None and len(parts) == 2:
            return self.method(m.name, c.name, parts[1])
        if len(parts) == 1 and (m.name, parts[0]) in self.by_name:
            return self.by_name[(m.name, parts[0])]
        base = self.imports[m.name].get(parts[0])
        if base is None:
            return d
        full = ".".join([base] + parts[1:])
        return self.global_name(full) or full

    def global_name(self, full, depth=0):
        mod, _, name = full.rpartition(".")
        if (mod, name) in self.by_name:
            return self.by_name[(mod, name)]
        if depth < 4 and mod in self.imports and name in self.imports[mod]:
            return self.global_name(self.imports[mod][name], depth + 1)
        return None

    def bases(self, mod, cls):
        m = self.prog.modules.get(mod)
        for n in ast.walk(m.tree) if m else ():
            if isinstance(n, ast.ClassDef) and n.name == cls:
                for b in n.bases:
                    d = dotted(b)
                    if d is None:
                        continue
                    if any(isinstance(x, ast.ClassDef) and x.name == d for x in ast.walk(m.tree)):
                        yield mod, d
                    else:
                        full = self.imports[mod].get(d.split(".")[0])
                        if full:
                            full = ".".join([full] + d.split(".")[1:])
                            bm, _, bn = full.rpartition(".")
                            if bm in self.prog.modules:
                                yield bm, bn

    def method(self, mod, cls, name, seen=()):
        if (mod, cls) in seen:
            return None
        q = self.methods.get((mod, cls, name))
        if q:
            return q
        for bm, bn in self.bases(mod, cls):
            q = self.method(bm, bn, name, seen + ((mod, cls),))
            if q:
                return q
        return None

    # ---- summaries
    def summary(self, q):
        s = self.sums.get(q)
        if s is not None:
            return s
        if q in self.stack:
            s = Summary()
            s.normal = {False}
            return s
        self.stack.append(q)
        m, c, f = self.funcs[q]
        w = Walk(self, m, c, f)
        s = w.run()
        self.stack.pop()
        self.sums[q] = s
        return s


class Walk:
    def __init__(self, flow, m, c, f):
        self.flow, self.m, self.c, self.f, self.s = flow, m, c, f, Summary()
        self.loops, self.raisers = [], []
        # a fact is worth keeping if it decides a later test under which something is logged or ended
        flags = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and constbool(n.value) is not None:
                flags.add(n.targets[0].id)
        count, deciding = {}, set()
        for n in ast.walk(f):
            if isinstance(n, (ast.If, ast.While)):
                ks = set(keys(n.test))
                for k in ks:
                    count[k] = count.get(k, 0) + 1
                if any(isinstance(x, ast.Call) and (self.kind(x) or self.flow.resolve(m, c, x) in flow.funcs) or isinstance(x, (ast.Raise, ast.Return)) for x in ast.walk(n)):
                    deciding |= ks
        # a variable that holds a test carries the facts of that test
        held = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Name, ast.UnaryOp, ast.BoolOp, ast.Compare)):
                held.setdefault(n.targets[0].id, set()).update(keys(n.value))
        self.keep = {k for k in deciding if count[k] > 1 or any(uses(k, x) for x in flags)}
        for _ in range(3):
            new = {k for x in deciding if x in held for k in held[x] if k in self.keep or any(uses(k, y) for y in flags) or k in held}
            self.keep |= {x for x in deciding if x in held and held[x] & new} | new
            deciding |= new

    def run(self):
        self.rets = []
        out = self.block(self.f.body, {(False, frozenset())})
        for st in out:
            self.rets.append((st, self.f))
        s = self.s
        s.normal = {st[0] for st, _ in self.rets}
        s.noreturn = not self.rets
        s.logs = s.normal == {True}
        s.pending = [n for st, n in self.rets if st[0]]
        return s

    # states: set of (logged, frozenset((key, bool)))
    def block(self, body, sts):
        for n in body:
            if not sts:
                break
            if len(sts) > LIMIT:
                sts = {(l, frozenset()) for l, _ in sts}
            for r in self.raisers:
                r |= sts
            sts = self.stmt(n, sts)
        for r in self.raisers:
            r |= sts
        return sts

    def stmt(self, n, sts):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.AsyncFunctionDef)):
            return sts
        if isinstance(n, ast.Return):
            sts = self.expr(n.value, sts)
            self.rets += [(s, n) for s in sts]
            return set()
        if isinstance(n, ast.Raise):
            sts = self.expr(n.exc, sts)
            if n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if dotted(e) == "SystemExit":
                    self.exit(n, n.exc.args if isinstance(n.exc, ast.Call) else [], sts)
            return set()
        if isinstance(n, ast.If):
            sts = self.expr(n.test, sts)
            return self.block(n.body, self.branch(n.test, sts, True)) | self.block(n.orelse, self.branch(n.test, sts, False))
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            return self.loop(n, sts)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                sts = self.expr(it.context_expr, sts)
                if it.optional_vars is not None:
                    sts = self.kill(it.optional_vars, sts)
            return self.block(n.body, sts)
        if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
            return self.try_(n, sts)
        if isinstance(n, ast.Match):
            sts = self.expr(n.subject, sts)
            out, rest = set(), sts
            for c in n.cases:
                out |= self.block(c.body, sts)
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    rest = set()
            return out | rest
        if isinstance(n, ast.Break):
            if self.loops:
                self.loops[-1][0].update(sts)
            return set()
        if isinstance(n, ast.Continue):
            if self.loops:
                self.loops[-1][1].update(sts)
            return set()
        if isinstance(n, ast.Assert):
            return self.expr(n.test, sts)
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = n.value
            if v is not None:
                sts = self.expr(v, sts)
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in tg:
                sts = self.kill(t, sts)
            if isinstance(n, ast.Assign) and len(tg) == 1 and isinstance(tg[0], ast.Name):
                b = constbool(v)
                if b is not None:
                    sts = {(l, f | {(tg[0].id, b)}) for l, f in sts} if tg[0].id in self.keep else sts
                elif tg[0].id in self.keep and isinstance(v, (ast.Name, ast.UnaryOp, ast.BoolOp, ast.Compare)) and not uses(ast.unparse(v), tg[0].id):
                    sts = {(l, f | {(tg[0].id, x)}) for x in (True, False) for l, f in self.branch(v, sts, x)}
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                if isinstance(n.op, ast.Add) and isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and v.value > 0 or isinstance(v, ast.List) and v.elts:
                    sts = {(l, f | {(n.target.id, True)}) for l, f in sts} if n.target.id in self.keep else sts
                if isinstance(n.op, ast.BitOr) and isinstance(v, ast.Constant) and v.value is True:
                    sts = {(l, f | {(n.target.id, True)}) for l, f in sts} if n.target.id in self.keep else sts
            return sts
        if isinstance(n, ast.Delete):
            for t in n.targets:
                sts = self.kill(t, sts)
            return sts
        if isinstance(n, ast.Expr):
            return self.expr(n.value, sts)
        return sts

    def loop(self, n, sts):
        it = n.iter if hasattr(n, "iter") else n.test
        seen = set()
        outs = set()
        self.loops.append((set(), set()))
        forever = isinstance(n, ast.While) and constbool(n.test) is True
        cur = self.expr(it, sts)
        while True:
            new = cur - seen
            if not new:
                break
            seen |= new
            if len(seen) > LIMIT:
                seen = {(l, frozenset()) for l, _ in seen}
                new = set(seen)
            if isinstance(n, ast.While):
                body = self.branch(n.test, new, True)
                outs |= self.branch(n.test, new, False)
            else:
                body = self.kill(n.target, new)
                outs |= new
            b = self.block(n.body, body)
            cont = self.loops[-1][1]
            cur = self.expr(it, b | set(cont)) if isinstance(n, ast.While) else (b | set(cont))
        brk, _ = self.loops.pop()
        if forever:
            outs = set()
        outs = self.block(n.orelse, outs) if n.orelse else outs
        return outs | brk

    def try_(self, n, sts):
        acc = set(sts)
        self.raisers.append(acc)
        out = self.block(n.body, sts)
        self.raisers.pop()
        out = self.block(n.orelse, out)
        for h in n.handlers:
            hs = set(acc)
            if h.name:
                hs = self.killname(h.name, hs)
            out |= self.block(h.body, hs)
        if n.finalbody:
            out = self.block(n.finalbody, out)
        return out

    # ---- expressions: calls in evaluation order
    def expr(self, e, sts):
        if e is None:
            return sts
        calls = []

        def go(x):
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                return
            for k in ast.iter_child_nodes(x):
                go(k)
            if isinstance(x, ast.Call):
                calls.append(x)

        go(e)
        for c in calls:
            sts = self.call(c, sts)
            if not sts:
                break
        return sts

    def call(self, c, sts):
        kind = self.kind(c)
        if kind == "log":
            return {(True, f) for _, f in sts}
        if kind == "exit":
            self.exit(c, c.args, sts)
            return set()
        if isinstance(c.func, ast.Attribute):
            b = dotted(c.func.value)
            if b in self.keep and c.func.attr in ("append", "add", "insert"):
                sts = {(l, frozenset(x for x in f if x[0] != b and not uses(x[0], b)) | {(b, True)}) for l, f in sts}
                return sts
            if b and c.func.attr in ("extend", "update", "pop", "clear", "remove"):
                sts = self.killname(b, sts)
        q = self.flow.resolve(self.m, self.c, c)
        if q in self.flow.funcs:
            s = self.flow.summary(q)
            if s.unlogged and any(not l for l, _ in sts):
                for node, chain in s.unlogged[:3]:
                    self.s.unlogged.append((c, chain + [q]))
            if s.noreturn:
                return set()
            if s.logs:
                return {(True, f) for _, f in sts}
        return sts

    def kind(self, c):
        d = dotted(c.func)
        if d in ("sys.exit", "exit", "quit", "os._exit", "os.abort"):
            return "exit"
        r = self.flow.resolve(self.m, self.c, c)
        if r in ("sys.exit", "os._exit", "os.abort"):
            return "exit"
        if isinstance(c.func, ast.Attribute) and c.func.attr in ERR:
            b = dotted(c.func.value)
            if b is None:
                return "log" if isinstance(c.func.value, ast.Call) and "ogger" in ast.unparse(c.func.value) else None
            if "parser" in b.lower():
                return "exit" if c.func.attr == "error" else None
            return "log"
        return None

    def exit(self, node, args, sts):
        self.s.fate.append((node, args))
        if any(not l for l, _ in sts):
            self.s.unlogged.append((node, []))

    # ---- facts
    def branch(self, test, sts, val):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, sts, not val)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == val:
                for t in test.values:
                    sts = self.branch(t, sts, val)
                return sts
            out, cur = set(), sts
            for t in test.values:
                out |= self.branch(t, cur, val)
                cur = self.branch(t, cur, not val)
            return out
        b = constbool(test)
        if b is not None:
            return sts if b == val else set()
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            rb = test.comparators[0]
            if isinstance(rb, ast.Constant) and isinstance(rb.value, bool):
                same = isinstance(test.ops[0], (ast.Is, ast.Eq)) == rb.value
                return self.branch(test.left, sts, val if same else not val)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) and dotted(test.left.func) == "len" \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value == 0:
            if isinstance(test.ops[0], (ast.Gt, ast.NotEq)):
                return self.branch(test.left.args[0], sts, val)
            if isinstance(test.ops[0], (ast.Eq,)):
                return self.branch(test.left.args[0], sts, not val)
        if any(isinstance(x, ast.Call) and not pure(x) for x in ast.walk(test)):
            return sts
        k = ast.unparse(test)
        out = set()
        for l, f in sts:
            d = dict(f)
            if k in d:
                if d[k] == val:
                    out.add((l, f))
            else:
                out.add((l, f | {(k, val)} if k in self.keep else f))
        return out

    def kill(self, t, sts):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                sts = self.killname(x.id, sts)
        return sts

    def killname(self, name, sts):
        return {(l, frozenset(x for x in f if not uses(x[0], name))) for l, f in sts}


def keys(test):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return keys(test.operand)
    if isinstance(test, ast.BoolOp):
        return [k for t in test.values for k in keys(t)]
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        rb = test.comparators[0]
        if isinstance(rb, ast.Constant) and isinstance(rb.value, bool):
            return keys(test.left)
        if isinstance(test.left, ast.Call) and dotted(test.left.func) == "len" and isinstance(rb, ast.Constant) and rb.value == 0:
            return keys(test.left.args[0])
    return [ast.unparse(test)]


def pure(c):
    return dotted(c.func) in ("len", "isinstance", "str", "int", "float", "bool", "set", "any", "all", "type")


def uses(key, name):
    import re
    return re.search(r"\b" + re.escape(name) + r"\b", key) is not None


def constbool(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
        return bool(getattr(e, "elts", None) or getattr(e, "keys", None))
    if isinstance(e, ast.Call) and dotted(e.func) in ("list", "dict", "set") and not e.args and not e.keywords:
        return False
    return None
