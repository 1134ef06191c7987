"""Ambient state: constructs by which a function changes something that outlives the call and that other code
depends on without naming it - process-wide settings, attributes of modules, functions and classes, module-level
containers, mutable default arguments, memoised results, reduced floating-point precision, and iterators that are
used a second time.  Syntactic, over the whole program; each construct is identified by what it changes."""
import ast
from .flow import Flow, dotted

SETTERS = {
    "os.chdir", "os.fchdir", "os.umask", "os.putenv", "os.unsetenv", "os.setuid", "os.nice", "os.chroot",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
    "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.random.seed", "numpy.random.set_state",
    "random.seed", "random.setstate", "pandas.set_option", "pandas.reset_option", "pandas.set_eng_float_format",
    "locale.setlocale", "time.tzset", "signal.signal", "signal.alarm", "socket.setdefaulttimeout", "sys.setrecursionlimit", "sys.settrace",
    "sys.setprofile", "sys.set_int_max_str_digits", "logging.disable", "logging.shutdown", "logging.captureWarnings", "logging.raiseExceptions",
    "gc.disable", "gc.freeze", "importlib.reload", "resource.setrlimit", "multiprocessing.set_start_method", "threading.setprofile",
    "decimal.setcontext", "numba.set_num_threads", "builtins.exec", "exec", "builtins.eval", "eval", "globals", "builtins.globals", "setattr_module",
    "atexit.register", "numpy.set_numeric_ops", "healpy.disable_warnings", "astropy.units.set_enabled_equivalencies",
    "astropy.units.add_enabled_units", "astropy.units.set_enabled_units", "pandas.option_context", "numpy.errstate",
}
NARROW = {"float32", "float16", "single", "half", "f4", "f2", "<f4", ">f4", "int32", "int16", "int8", "i4", "i2", "i1", "uint32", "uint16", "uint8", "u4", "u2", "u1", "intc", "short", "csingle", "complex64"}
MUT = {"append", "add", "extend", "update", "insert", "remove", "pop", "setdefault", "sort", "clear", "discard", "popitem", "reverse", "appendleft"}
PLAIN = {"property", "staticmethod", "classmethod", "dataclass", "dataclasses.dataclass", "abstractmethod", "abc.abstractmethod", "override", "typing.override",
         "numba.njit", "numba.jit", "njit", "jit", "functools.wraps", "functools.total_ordering", "typing.no_type_check", "typing.overload", "contextlib.contextmanager",
         "functools.singledispatch", "typing.final", "numba.core.decorators.njit"}
MEMO = {"functools.lru_cache", "functools.cache", "functools.cached_property", "joblib.Memory", "lru_cache", "cache", "cached_property"}
LAZY = {"map", "filter", "zip", "iter", "reversed", "enumerate", "itertools.chain", "itertools.islice", "itertools.product", "itertools.chain.from_iterable"}


def mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(e, ast.Call) and dotted(e.func) in ("list", "dict", "set", "defaultdict", "collections.defaultdict", "OrderedDict", "deque", "Counter", "bytearray"))


def quieting(q, n):
    """only silences or shows warnings"""
    if q not in ("numpy.errstate", "numpy.seterr", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings"):
        return False
    vals = [k.value for k in n.keywords] if q.startswith("numpy") else n.args[:1] + [k.value for k in n.keywords if k.arg == "action"]
    return all(isinstance(v, ast.Constant) and v.value in ("ignore", "warn", "default", "once", "always", "module", "print") for v in vals)


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def scope(f):
    """nodes of a function without its nested functions' bodies"""
    stack = list(f.body) if not isinstance(f, ast.Module) else [s for s in f.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def bound(f):
    if isinstance(f, ast.Module):
        return set()
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    glob = set()
    for n in scope(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - glob


class Ambient:
    def __init__(self, prog):
        self.prog, self.flow = prog, Flow(prog)
        self.modnames = {}
        for m in prog.modules.values():
            d = {}
            for n in scope(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    d[n.id] = "var"
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef):
                    d[n.name] = "function"
                elif isinstance(n, ast.ClassDef):
                    d[n.name] = "class"
            for k in self.flow.imports[m.name]:
                d.setdefault(k, "import")
            self.modnames[m.name] = d

    def full(self, m, d):
        p = d.split(".")
        b = self.flow.imports[m.name].get(p[0])
        return ".".join([b] + p[1:]) if b else d

    def of(self, m, c, f):
        """(kind, what, line) for every construct in one function, or in a module's own statements"""
        out = []
        names, local = self.modnames[m.name], bound(f)
        # names bound inside the function by an import still stand for the imported thing
        inner = {}
        for n in scope(f):
            if isinstance(n, ast.ImportFrom):
                for x in n.names:
                    inner[x.asname or x.name] = "%s.%s" % (n.module or "", x.name)
            elif isinstance(n, ast.Import):
                for x in n.names:
                    inner[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]

        def outer(nm):
            """what a name stands for outside the function: None when it is local"""
            if nm in inner:
                return "import"
            if nm is None or nm in local:
                return None
            if isinstance(f, ast.Module):
                return names.get(nm) if names.get(nm) != "var" else None
            return names.get(nm)

        def label(e):
            d = dotted(e) or root(e) or "?"
            p = d.split(".")
            if p[0] in inner:
                return ".".join([inner[p[0]]] + p[1:])
            return self.full(m, d)

        for n in scope(f):
            line = getattr(n, "lineno", 0)
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d is not None:
                    p = d.split(".")
                    q = label(n.func) if p[0] not in local or p[0] in inner else d
                    if q in SETTERS and not (q in ("eval", "exec", "globals") and p[0] in names) and not quieting(q, n):
                        out.append(("setting", q, line))
                    if q in ("setattr", "delattr", "builtins.setattr") and n.args and outer(root(n.args[0])):
                        out.append(("attribute", label(n.args[0]), line))
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT and not isinstance(f, ast.Module):
                    r = root(n.func.value)
                    if outer(r) in ("var", "class", "function") or outer(r) == "import" and self.container(label(n.func.value)):
                        out.append(("shared container", label(n.func.value), line))
            ts = []
            if isinstance(n, (ast.Assign, ast.Delete)):
                ts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts = [n.target]
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                ts = [n.target]
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        o = outer(root(x))
                        if o in ("import", "class", "function") or o == "var" and not isinstance(f, ast.Module):
                            out.append(("attribute" if isinstance(x, ast.Attribute) else "shared container", label(x), line))
            if isinstance(n, ast.Global) and not isinstance(f, ast.Module):
                for g in n.names:
                    out.append(("global", g, line))
            nm = n.attr if isinstance(n, ast.Attribute) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
            if nm in NARROW and (not isinstance(n, ast.Attribute) or isinstance(n.value, ast.Name) and label(n).split(".")[0] in ("numpy", "numba", "np")):
                out.append(("narrow type", nm.strip("<>"), line))
        if not isinstance(f, ast.Module):
            out += self.defaults(f) + self.decorators(m, c, f) + self.exhausted(f)
        return out

    def container(self, full):
        """a name imported from a module of the repository that holds a variable there"""
        mod, _, nm = full.rpartition(".")
        return mod in self.prog.modules and self.modnames[mod].get(nm) == "var"

    def defaults(self, f):
        a, out = f.args, []
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            if not mutable(d):
                continue
            first = None
            for n in sorted((x for x in scope(f) if isinstance(x, ast.Name) and x.id == p.arg and isinstance(x.ctx, ast.Store)), key=lambda x: x.lineno):
                first = n.lineno
                break
            for n in scope(f):
                if first is not None and getattr(n, "lineno", 0) > first:
                    continue
                hit = isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == p.arg
                hit |= isinstance(n, ast.AugAssign) and root(n.target) == p.arg
                hit |= isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and root(t) == p.arg for t in n.targets)
                if hit:
                    out.append(("mutable default", "%s(%s)" % (f.name, p.arg), getattr(n, "lineno", 0)))
                    break
        return out

    def decorators(self, m, c, f):
        out = []
        for d in f.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            q = self.full(m, dotted(e) or "?")
            if q in MEMO:
                if c is not None or self.impure(m, f):
                    out.append(("remembered result", f.name, f.lineno))
            elif q in PLAIN or q.split(".")[-1] in ("setter", "getter", "njit", "jit", "abstractmethod", "register"):
                for k in getattr(d, "keywords", []):
                    if k.arg == "parallel" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                        out.append(("parallel", f.name, f.lineno))
        return out

    def impure(self, m, f):
        """a memoised function whose result is not settled by the values of its arguments, or can be changed by who gets it"""
        local = bound(f)
        for n in scope(f):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d is None:
                    continue
                q = self.full(m, d) if d.split(".")[0] not in local else d
                if q.split(".")[0] in ("numpy", "math", "healpy") or q in ("abs", "min", "max", "len", "float", "int", "str", "round", "sum", "range", "tuple", "sorted", "isinstance", "zip", "enumerate", "any", "all"):
                    continue
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("split", "strip", "lower", "upper", "casefold", "find", "replace", "startswith", "endswith", "format", "join"):
                    continue
                return True
            if isinstance(n, ast.Return) and (mutable(n.value) or isinstance(n.value, ast.Name) and any(
                    isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.value.id for t in x.targets) and mutable(x.value) for x in scope(f))):
                return True
        return False

    def exhausted(self, f):
        """a variable holding a one-way iterator which is gone through twice"""
        out, bind = [], {}
        stores = {}
        for n in scope(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.GeneratorExp) or isinstance(v, ast.Call) and dotted(v.func) in LAZY:
                    bind[n.targets[0].id] = n
        for nm, b in bind.items():
            if stores.get(nm, 0) != 1:
                continue
            uses = 0
            stack = [(s, 0) for s in f.body]
            home = None
            seen = []
            while stack:
                n, depth = stack.pop()
                if n is b:
                    home = depth
                if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load):
                    seen.append(depth)
                if isinstance(n, ast.Call) and dotted(n.func) == "next":
                    continue
                if isinstance(n, (ast.For, ast.While)):
                    for ch in ast.iter_child_nodes(n):
                        stack.append((ch, depth + (ch is not getattr(n, "iter", None))))
                elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for ch in ast.iter_child_nodes(n):
                        if isinstance(ch, ast.comprehension):
                            stack.append((ch.iter, depth + (ch is not n.generators[0])))
                            stack.extend((x, depth + 1) for x in ch.ifs)
                        else:
                            stack.append((ch, depth + 1))
                else:
                    stack.extend((ch, depth) for ch in ast.iter_child_nodes(n))
            if exclusive(f, nm):
                continue
            if len(seen) > 1 or any(d > (home or 0) for d in seen):
                out.append(("iterator used again", nm, b.lineno))
        return out


def exclusive(f, nm):
    """all uses lie in different branches of one test"""
    best = None
    for n in scope(f):
        if isinstance(n, ast.If):
            per = [sum(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for s in b for x in ast.walk(s)) for b in (n.body, n.orelse)]
            if per == [1, 1]:
                best = True
    total = sum(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for x in scope(f))
    return bool(best) and total == 2


REFERENCE = {
    ("attribute", "pandas.options.mode.copy_on_write"), ("shared container", "CA_METHODS"), ("shared container", "LC_METHODS"), ("narrow type", "i4"),
    ("attribute", "vignetFunc.frac"), ("attribute", "vignetFunc.r"), ("attribute", "sys.stdout"),
}


def closure(A, mods):
    """modules reached by the imports of these"""
    seen, todo = set(), [m for m in mods if m in A.prog.modules]
    while todo:
        m = todo.pop()
        if m in seen or m.startswith("vspec"):
            continue
        seen.add(m)
        for full in A.flow.imports[m].values():
            p = full.split(".")
            for i in range(1, len(p) + 1):
                k = ".".join(p[:i])
                if k in A.prog.modules and k not in seen:
                    todo.append(k)
    return seen


def decide(ctx):
    """no analysed function, nor the import of its module, changes state that outlives the call and that the reference
    tree does not change"""
    A = Ambient(ctx.prog)
    byq = {}
    for m, c, f in ctx.prog.functions():
        byq.setdefault(m.name + ":" + (c.name + "." if c else "") + f.name, []).append((m, c, f))
    mods = set()
    for q in sorted(ctx.analysed):
        q0 = q.split(".<locals>")[0]
        mods.add(q.split(":")[0])
        for m, c, f in byq.get(q0, ()):
            for kind, what, line in A.of(m, c, f):
                ctx.ob("state outside the call", (kind, what) in REFERENCE, q0, "%s %s at line %d" % (kind, what, line))
            ctx.ob("state outside the call", True, q0)
    for mn in sorted(closure(A, mods)):
        m = ctx.prog.modules[mn]
        for kind, what, line in A.of(m, None, m.tree):
            if kind != "narrow type":
                ctx.ob("state outside the call", (kind, what) in REFERENCE, mn, "on import: %s %s at line %d" % (kind, what, line))
        ctx.ob("state outside the call", True, mn)
