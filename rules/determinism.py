"""P01: what a simulation's result may depend on: generators, the clock, the process, unordered collections."""
import ast
from .common import *
from .errors import flow, mark
from sa.flow import dotted

spec("rng", '''
import hashlib
import numpy as np
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG

def real_generator(base_seed, module_name):
    return PerModuleRNG(base_seed).getModuleRNG(module_name)

def generator(base_seed, module_name):
    return np.random.default_rng((base_seed + int(hashlib.md5(module_name.encode()).hexdigest(), base=16)) % 2**31)

def real_same(base_seed):
    r = PerModuleRNG(base_seed)
    a = r.getModuleRNG("a")
    b = r.getModuleRNG("b")
    return a is r.getModuleRNG("a"), b is r.getModuleRNG("b"), a is b
''')


@prop("P01")
def generators(ctx):
    """a stage's generator is made once, from the seed and the stage's name only"""
    con = "sorcha.utilities.sorchaModuleRNG:PerModuleRNG"
    same(ctx, "generators", "vspec.rng:real_generator", "rng:generator", construct=con)
    I = ctx.run("vspec.rng:real_same")
    v = clean(I.term())
    ctx.ob("generators", v.op in ("tuple", "list") and [a is TRUE for a in v.args] == [True, True, False], con, "asking twice for a stage's generator gives %s" % show(v, 12)[:300])


# ---------------------------------------------------------------- sources
# modules that are no part of a simulation
OUTSIDE = {"sorcha.utilities.generateGoldens", "sorcha.utilities.diffTestUtils", "sorcha.utilities.check_output_logs", "sorcha.utilities.createResultsSQLDatabase",
           "sorcha.utilities.sorcha_copy_configs", "sorcha.utilities.sorcha_copy_demo_files", "sorcha.utilities.sorcha_demo_command", "sorcha.utilities.citation_text",
           "sorcha_cmdline.main", "sorcha_cmdline.init", "sorcha_cmdline.demo", "sorcha_cmdline.cite", "sorcha_cmdline.bootstrap", "sorcha_cmdline.outputs",
           "sorcha.utilities.test_data_utils", "sorcha.utilities.dataUtilitiesForTests"}
CLOCK = ("time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "time.localtime", "time.gmtime", "time.strftime", "time.ctime",
         "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "astropy.time.Time.now")
HOST = ("os.getpid", "os.getppid", "os.urandom", "os.environ", "os.getenv", "os.environ.get", "socket.gethostname", "os.uname", "os.cpu_count", "os.getlogin", "getpass.getuser",
        "builtins.hash", "builtins.id", "hash", "id", "os.times", "os.getloadavg", "threading.get_ident", "os.path.getmtime", "os.path.getctime", "os.path.getatime", "os.stat")
LISTING = ("os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk")
PREFIX = ("random.", "secrets.", "uuid.", "platform.", "concurrent.futures.as_completed", "tempfile.")
ALLOWED = {   # uses whose effect is compared with a reference elsewhere (rules of P01: generators, dispatch, command line, linking search)
    ("sorcha.utilities.sorchaModuleRNG", "numpy.random.default_rng"), ("sorcha.modules.PPMiniDifi", "numpy.random.default_rng"), ("sorcha.modules.PPMiniDifi", "numpy.random.rand"),
    ("sorcha.utilities.sorchaArguments", "os.urandom"), ("sorcha_cmdline.run", "os.environ"), ("sorcha.utilities.sorchaCommandLineParser", "glob.glob"),
}
LOGCALLS = {"info", "error", "warning", "debug", "critical", "exception", "log", "verboselog", "print", "FileHandler", "warn"}
CONVERT = {"str", "int", "float", "round", "format", "repr", "join", "strftime", "isoformat", "total_seconds", "timedelta", "timestamp", "replace", "zfill", "hexdigest", "hex", "abs"}


def source(name):
    if name is None:
        return None
    if name.startswith("numpy.random."):
        last = name.split(".")[2]
        return None if last in ("Generator", "BitGenerator") else name
    if name in CLOCK + HOST + LISTING or name.startswith(PREFIX):
        return name
    return None


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def argument(f, call, node):
    """name of the parameter of f that gets `node`, an argument of the call"""
    if any(isinstance(a, ast.Starred) for a in call.args) or f.args.posonlyargs:
        return None
    for k in call.keywords:
        if k is node:
            return k.arg
    ps = [x.arg for x in f.args.args]
    if ps[:1] == ["self"]:
        ps = ps[1:]
    for p, a in zip(ps, call.args):
        if a is node:
            return p
    return None


class Local:
    """where a value met in one scope goes to: names, arguments of repository functions and their results followed"""
    def __init__(self, scope, callee=None, sites=None):
        self.scope, self.up, self.callee, self.sites = scope, parents(scope), callee, sites
        self.loads = {}
        for n in ast.walk(scope):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.loads.setdefault(n.id, []).append(n)

    def names(self, t, seen):
        """the first escape of what is bound to the target"""
        if not isinstance(t, ast.Name):
            return t
        if (self.scope, t.id) in seen:
            return None
        seen.add((self.scope, t.id))
        for u in self.loads.get(t.id, ()):
            x = self.escape(u, seen)
            if x is not None:
                return x
        return None

    def result(self, p, node, seen):
        """the value is (an element of) what the return statement gives: the call sites, element by element"""
        if self.sites is None or len(seen) > 200 or not self.sites.known(self.scope):
            return p
        k = None
        if isinstance(p.value, ast.Tuple):
            k = [i for i, e in enumerate(p.value.elts) if any(x is node for x in ast.walk(e))][0]
        for loc, call in self.sites(self.scope):
            q = loc.up.get(call)
            if k is not None:
                if not (isinstance(q, ast.Assign) and all(isinstance(t, ast.Tuple) and len(t.elts) == len(p.value.elts) for t in q.targets)):
                    return p
                for t in q.targets:
                    x = loc.names(t.elts[k], seen)
                    if x is not None:
                        return x
                continue
            x = loc.escape(call, seen)
            if x is not None:
                return x
        return None

    def escape(self, node, seen=None):
        """the first use outside the log, or None"""
        seen = set() if seen is None else seen
        n = node
        while True:
            p = self.up.get(n)
            if p is None:
                return n
            if isinstance(p, ast.Call):
                fn = p.func
                last = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
                if n is fn:
                    n = p
                    continue
                if last in LOGCALLS:
                    return None
                if last in CONVERT:
                    n = p
                    continue
                f = self.callee(p) if self.callee is not None else None
                a = f and argument(f, p, n)
                if a is not None and len(seen) < 200:
                    # a function of the repository: where its parameter goes
                    if (f, a) in seen:
                        return None
                    seen.add((f, a))
                    inner = self.sites(f, own=True) if self.sites is not None else Local(f, None)
                    for u in inner.loads.get(a, ()):
                        x = inner.escape(u, seen)
                        if x is not None:
                            return p
                    return None
                return p
            if isinstance(p, (ast.Attribute, ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue, ast.List, ast.Tuple, ast.Starred, ast.keyword, ast.Subscript)):
                if isinstance(p, ast.Subscript) and n is p.slice:
                    return p
                n = p
                continue
            if isinstance(p, ast.Expr):
                return None
            if isinstance(p, ast.Return):
                return self.result(p, node, seen)
            if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                for t in ts:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(p.value, (ast.Tuple, ast.List)) and len(t.elts) == len(p.value.elts):
                        t = [x for x, e in zip(t.elts, p.value.elts) if any(y is node for y in ast.walk(e))][0]
                    if not isinstance(t, ast.Name):
                        return p
                    x = self.names(t, seen)
                    if x is not None:
                        return x
                return None
            return p


class Sites:
    """the scopes of the program and the calls of a function in them, made on demand"""
    def __init__(self, ctx, fl):
        self.fl, self.locs, self.calls = fl, {}, {}
        for q, m, c, f in scopes(ctx, fl):
            self.locs[f] = (q, m, c, f)
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    t = called(fl, m, c, n)
                    if t is not None:
                        self.calls.setdefault(t, []).append((f, n))
        self.made = {}

    def loc(self, f):
        if f not in self.made:
            q, m, c, _ = self.locs[f] if f in self.locs else (None, None, None, None)
            self.made[f] = Local(f, (lambda call: called(self.fl, m, c, call)) if m is not None else None, self)
        return self.made[f]

    def known(self, f):
        """every use of the function is one of the calls found"""
        if not isinstance(f, ast.FunctionDef) or f not in self.calls or self.locs[f][2] is not None:
            return False
        uses = sum(1 for m in self.fl.prog.modules.values() if not m.name.startswith("vspec") for n in ast.walk(m.tree)
                   if isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name)
        return uses == len(self.calls[f])

    def __call__(self, f, own=False):
        if own:
            return self.loc(f)
        return [(self.loc(g), n) for g, n in self.calls.get(f, ())]


def scopes(ctx, fl):
    """(name, module, class, scope, own nodes) of every function and module body of a simulation"""
    for m in sorted(ctx.prog.modules.values(), key=lambda m: m.name):
        if m.name in OUTSIDE or m.name.startswith("vspec"):
            continue
        inner = [f for q, (mm, c, f) in fl.funcs.items() if mm is m]
        own = {}
        for q, (mm, c, f) in fl.funcs.items():
            if mm is m:
                yield q, m, c, f
        top = ast.Module(body=[x for x in m.tree.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])
        yield m.name, m, None, top
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef):
                yield m.name + ":" + c.name, m, c, ast.Module(body=[x for x in c.body if not isinstance(x, ast.FunctionDef)], type_ignores=[])


def called(fl, m, c, call):
    """the repository function called, or None"""
    t = fl.funcs.get(fl.resolve(m, c, call))
    return t[2] if t is not None and isinstance(t[2], ast.FunctionDef) else None


@prop("P01")
def sources(ctx):
    """nothing but the seed, the inputs and the configuration reaches the result: no other generator, no clock, process or host"""
    fl = flow(ctx)
    sites = Sites(ctx, fl)
    for q, m, c, f in scopes(ctx, fl):
        mark(ctx, q)
        loc = None
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                name = fl.resolve(m, c, n)
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr == "getModuleRNG":
                    a = n.args[0] if n.args else None
                    ok = isinstance(a, ast.Name) and a.id == "__name__" or isinstance(a, ast.Constant) and isinstance(a.value, str)
                    ctx.ob("a generator is asked for by the stage's own name", ok, q, "line %d asks for the generator of %s" % (n.lineno, ast.unparse(a) if a is not None else None))
                if name and name.endswith(":PerModuleRNG"):
                    ctx.ob("one set of generators", m.name == "sorcha.utilities.sorchaArguments", q, "line %d makes a second set of generators" % n.lineno)
                if isinstance(fn, ast.Attribute) and fn.attr == "sample" and name is None or name and name.endswith(".sample") and "random" not in name and not name.startswith("sorcha"):
                    kw = {k.arg for k in n.keywords}
                    ctx.ob("no other source of chance", "random_state" in kw, q, "line %d draws rows at random from a generator of its own" % n.lineno)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and dotted(n) and fl.resolve(m, c, n) == "os.environ":
                name = "os.environ"
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and fl.imports[m.name].get(n.id) == "os.environ":
                name = "os.environ"
            else:
                continue
            src = source(name)
            if src is None:
                continue
            if (m.name, src) in ALLOWED or src in ("os.environ.get", "os.getenv") and (m.name, "os.environ") in ALLOWED:
                ctx.ob("no other source of chance", True, q)
                continue
            loc = loc or sites(f, own=True)
            x = loc.escape(n)
            if src in LISTING and x is not None and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sorted", "len", "any", "bool", "set"):
                x = None
            ctx.ob("no other source of chance", x is None, q, "%s at line %d reaches %s" % (src, n.lineno, ast.unparse(x)[:80] if x is not None else ""))


# ---------------------------------------------------------------- unordered collections
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
ORDERED = {"list", "tuple", "enumerate", "zip", "iter", "next", "map", "filter", "reversed", "join", "extend", "array", "asarray", "Series", "DataFrame", "concat", "concatenate",
           "hstack", "vstack", "fromkeys", "fromiter", "reduce", "chain", "repr", "Index", "append", "to_numpy"}
INSENSITIVE = {"sorted", "set", "frozenset", "len", "any", "all", "min", "max", "isin", "issubset", "issuperset", "isdisjoint", "update", "Counter", "union", "intersection", "difference",
               "intersection_update", "difference_update", "sum", "bool"}
INTS = ("healpy.", "numpy.arange", "numpy.argsort", "numpy.where", "numpy.nonzero", "numpy.flatnonzero", "numpy.searchsorted", "numpy.argmin", "numpy.argmax", "numpy.repeat", "numpy.argwhere",
        "range", "len", "int", "builtins.range", "builtins.int", "builtins.len", "ord", "round")


class Sets:
    def __init__(self, fl):
        self.fl = fl
        self.ret = {}
        self.assigned = {}
        self.methods = {}
        self.quals = {}
        self.params = set()
        self.fields = set()
        for q, (m, c, f) in fl.funcs.items():
            self.quals[f] = q
            if c is not None:
                self.methods.setdefault(f.name, []).append(q)
        while True:
            before = len(self.params) + len(self.fields)
            self.ret = {}
            for q, (m, c, f) in fl.funcs.items():
                for n in ast.walk(f):
                    if isinstance(n, ast.Call):
                        t = self.target(m, c, n)
                        if t is None:
                            continue
                        a = self.fl.funcs[t][2].args
                        ps = [x.arg for x in a.posonlyargs + a.args]
                        if self.fl.funcs[t][1] is not None and ps[:1] == ["self"]:
                            ps = ps[1:]
                        for i, x in enumerate(n.args):
                            if i < len(ps) and self.isset(x, m, c, f):
                                self.params.add((t, ps[i]))
                        for k in n.keywords:
                            if k.arg and self.isset(k.value, m, c, f):
                                self.params.add((t, k.arg))
                    elif isinstance(n, ast.Assign):
                        for x in n.targets:
                            if isinstance(x, ast.Attribute) and self.isset(n.value, m, c, f):
                                self.fields.add(x.attr)
            if len(self.params) + len(self.fields) == before:
                break

    def target(self, m, c, call):
        q = self.fl.resolve(m, c, call)
        if q in self.fl.funcs:
            return q
        if isinstance(call.func, ast.Attribute):
            qs = self.methods.get(call.func.attr, ())
            if len(qs) == 1:
                return qs[0]
        return None

    def names(self, f):
        a = self.assigned.get(f)
        if a is None:
            a = {}
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            a.setdefault(t.id, []).append(n.value)
                        elif isinstance(t, ast.Tuple):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name) and isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                                    a.setdefault(e.id, []).append(n.value.elts[i])
                                elif isinstance(e, ast.Name):
                                    a.setdefault(e.id, []).append(ast.Subscript(n.value, ast.Constant(i), ast.Load()))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    it = n.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2:
                        if isinstance(n.target.elts[0], ast.Name):
                            a.setdefault(n.target.elts[0].id, []).append(ast.Constant(0))
                        if isinstance(n.target.elts[1], ast.Name) and it.args:
                            a.setdefault(n.target.elts[1].id, []).append(ast.Subscript(it.args[0], ast.Constant(0), ast.Load()))
                    elif isinstance(n.target, ast.Name):
                        a.setdefault(n.target.id, []).append(ast.Subscript(it, ast.Constant(0), ast.Load()))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append") and isinstance(n.func.value, ast.Name) and n.args:
                    a.setdefault("+" + n.func.value.id, []).append(n.args[0])
            self.assigned[f] = a
        return a

    def isset(self, e, m, c, f, depth=0):
        """a set whose elements may not be whole numbers; returns False, or True"""
        if depth > 6:
            return False
        if isinstance(e, ast.Set):
            return not all(self.ints(x, m, c, f) for x in e.elts)
        if isinstance(e, ast.SetComp):
            return not self.ints(e.elt, m, c, f)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.isset(e.left, m, c, f, depth + 1) or isinstance(e.op, ast.BitOr) and self.isset(e.right, m, c, f, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.isset(e.body, m, c, f, depth + 1) or self.isset(e.orelse, m, c, f, depth + 1)
        if isinstance(e, ast.Name):
            if (self.quals.get(f), e.id) in self.params:
                return True
            vs = self.names(f).get(e.id, ())
            added = self.names(f).get("+" + e.id, ())
            for v in vs:
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set" and not v.args:
                    if not added or not all(self.ints(x, m, c, f) for x in added):
                        return True
                elif self.isset(v, m, c, f, depth + 1):
                    return True
            return False
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id in ("set", "frozenset"):
                return not e.args or not self.ints(e.args[0], m, c, f)
            if isinstance(fn, ast.Attribute) and fn.attr in SETOPS:
                return self.isset(fn.value, m, c, f, depth + 1) or fn.attr == "union" and self.isset(fn.value, m, c, f, depth + 1)
            q = self.target(m, c, e)
            if q is not None:
                return self.returns(q)
        if isinstance(e, ast.Attribute):
            return e.attr in self.fields
        return False

    def returns(self, q):
        if q not in self.ret:
            self.ret[q] = False
            m, c, f = self.fl.funcs[q]
            self.ret[q] = any(isinstance(n, ast.Return) and n.value is not None and self.isset(n.value, m, c, f) for n in ast.walk(f))
        return self.ret[q]

    def ints(self, e, m, c, f, seen=()):
        """certainly whole numbers (or a collection of them)"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float)) or e.value is None
        if isinstance(e, (ast.BinOp,)):
            return self.ints(e.left, m, c, f, seen) and self.ints(e.right, m, c, f, seen)
        if isinstance(e, ast.Subscript):
            b = e.value
            if isinstance(b, ast.Attribute) and b.attr == "index":
                return True
            return self.ints(b, m, c, f, seen)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return all(self.ints(x, m, c, f, seen) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.ints(e.elt, m, c, f, seen)
        if isinstance(e, ast.Attribute):
            return e.attr == "index" or e.attr in ("flat", "T", "size") and self.ints(e.value, m, c, f, seen)
        if isinstance(e, ast.Name):
            if e.id in seen:
                return True
            seen = seen + (e.id,)
            vs = [v for v in self.names(f).get(e.id, ())]
            return bool(vs) and all(self.ints(v, m, c, f, seen) or isinstance(v, (ast.List, ast.Tuple)) and not v.elts for v in vs) and all(
                self.ints(v, m, c, f, seen) for v in self.names(f).get("+" + e.id, ()))
        if isinstance(e, ast.Call):
            q = self.fl.resolve(m, c, e) or ""
            if q.startswith(INTS):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("flatten", "ravel", "tolist", "copy", "astype", "union", "reshape"):
                return self.ints(e.func.value, m, c, f, seen)
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "sorted", "tuple", "max", "min") and e.args:
                return self.ints(e.args[0], m, c, f, seen)
        return False


def harmless(body, var):
    """the order in which this loop body runs cannot be seen afterwards"""
    def uses(e):
        return any(isinstance(x, ast.Name) and x.id in var for x in ast.walk(e))
    for s in body:
        if isinstance(s, ast.If):
            if not harmless(s.body, var) or not harmless(s.orelse, var):
                return False
        elif isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert)):
            pass
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            pass
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            fn = s.value.func
            l = last(s.value)
            if l in ("add", "discard", "remove", "exit") or l in LOGCALLS:
                continue
            if l in ("append", "add", "update") and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Subscript) and uses(fn.value.slice):
                continue
            return False
        elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Subscript) and uses(t.slice) for t in s.targets):
            pass
        else:
            return False
    return True


@prop("P01")
def unordered(ctx):
    """nothing is taken in the iteration order of a set (texts have a different order in every process)"""
    fl = flow(ctx)
    S = Sets(fl)
    rule = "no order from an unordered collection"
    for q, m, c, f in scopes(ctx, fl):
        up = parents(f)
        for n in ast.walk(f):
            if isinstance(n, ast.For) and S.isset(n.iter, m, c, f):
                var = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                ctx.ob(rule, harmless(n.body, var), q, "line %d goes through %s in the order of a set" % (n.lineno, ast.unparse(n.iter)[:60]))
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if S.isset(g.iter, m, c, f):
                        p = up.get(n)
                        ok = isinstance(p, ast.Call) and isinstance(n, (ast.GeneratorExp, ast.ListComp)) and last(p) in INSENSITIVE
                        ctx.ob(rule, ok, q, "line %d collects from %s in the order of a set" % (n.lineno, ast.unparse(g.iter)[:60]))
            elif isinstance(n, ast.Call):
                l = last(n)
                if l in ORDERED:
                    for a in n.args:
                        a = a.value if isinstance(a, ast.Starred) else a
                        if S.isset(a, m, c, f):
                            p = up.get(n)
                            ok = isinstance(p, ast.Call) and last(p) in INSENSITIVE or l == "append"
                            ok = ok or isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and all(
                                isinstance(up.get(u), ast.Call) and u in up[u].args and last(up[u]) in INSENSITIVE for u in Local(f).loads.get(p.targets[0].id, ()))
                            ctx.ob(rule, ok, q, "line %d takes %s in the order of a set" % (n.lineno, ast.unparse(a)[:60]))
                elif l == "pop" and not n.args and isinstance(n.func, ast.Attribute) and S.isset(n.func.value, m, c, f):
                    ctx.bad(rule, q, "line %d takes any element of a set" % n.lineno)
            elif isinstance(n, ast.Return) and n.value is not None and S.isset(n.value, m, c, f):
                ctx.ob(rule, True, q)


def last(call):
    fn = call.func
    return fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
