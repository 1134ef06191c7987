"""Call evaluation: builtins, numpy, pandas, logging, classes (methods of Interp)."""
from . import units, groups
import ast
import functools
from .terms import *
from .values import *
from .frames import merge_frames, isnan, astype, canon_dtype, canon_coll, frame_method, ser_method

NUMPY_MODS = ("numpy", "math", "scipy", "np")


def e_Call(self, n, st):
    f = self.ev(n.func, st)
    args, kws, star = [], {}, set()
    for a in n.args:
        if isinstance(a, ast.Starred):
            v = self.ev(a.value, st)
            ps = self.as_parts(v, st)
            for p in ps:
                if hasattr(p, "t") and type(p).__name__ == "Splice":
                    args.append(mk("spread", p.t))
                    star.add("*")
                else:
                    args.append(p)
        else:
            args.append(self.ev(a, st))
    for k in n.keywords:
        v = self.ev(k.value, st)
        if k.arg is None:
            c = self.cell(v, st)
            if isinstance(c, DictC) and c.rest is None and all(self.term(a, st).op == "const" for a, _ in c.items):
                for a, b in c.items:
                    kws[self.term(a, st).args[0]] = b
            elif isinstance(c, DictC) and "**" not in kws and c.rest.op != "rest2" and all(self.term(a, st).op == "const" for a, _ in c.items):
                for a, b in c.items:
                    kws[self.term(a, st).args[0]] = b
                kws["**"] = c.rest
            else:
                kws["**"] = v
        else:
            kws[k.arg] = v
    if st.dead:
        return NONE
    # super()
    if isinstance(f, ExtV) and f.name == "builtins.super":
        fr = self.frames[-1]
        ff = getattr(fr, "f", None)
        if ff is not None and ff.cls is not None:
            return SuperV(ff.cls, ff.self_)
    return self.call_value(f, args, kws, st, n, star)


def call_value(self, f, args, kws, st, n, star=None):
    if isinstance(f, IteV):
        return self.on_ite(f, st, lambda x, s: self.call_value(x, args, kws, s, n, star))
    if isinstance(f, PartialV):
        k = dict(f.kws)
        k.update(kws)
        return self.call_value(f.fn, list(f.args) + list(args), k, st, n, star)
    if isinstance(f, FuncV):
        v, st2 = self.call_func(f, args, kws, st, n, starargs=star)
        if st2 is not st:
            st.heap, st.pc = st2.heap, st2.pc
        return v
    if isinstance(f, ClassV):
        return self.instantiate(f, args, kws, st, n, star)
    if isinstance(f, ExtV):
        h = self.hooks.get(f.name)
        if h is not None:
            r = h(self, f, args, kws, st, n)
            if r is not None:
                return r
        return self.call_ext(f.name, args, kws, st, n)
    if isinstance(f, BndV):
        return self.call_bound(f.obj, f.name, args, kws, st, n)
    c = self.cell(f, st)
    if isinstance(c, ObjC):
        m = self.lookup(c.cls, "__call__")
        if m is not None:
            return self.call_value(m.bind(f), args, kws, st, n, star)
    t = self.term(f, st)
    if t.op == "attr":
        return self.t_method(t.args[0], t.args[1], args, kws, st, n)
    if t.op == "ite" and t.args[1].op == t.args[2].op == "attr" and t.args[1].args[1] == t.args[2].args[1]:
        return self.t_method(ite(t.args[0], t.args[1].args[0], t.args[2].args[0]), t.args[1].args[1], args, kws, st, n)
    if t.op == "class":
        # selected class object
        pass
    r = mk("call", "()", t, *[self.term(a, st) for a in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
    self.eff(st, "mcall", "()", [f] + list(args), kws, n, r)
    return r


def instantiate(self, cls, args, kws, st, n, star=None):
    """object of a repository class"""
    q = cls.qual
    h = self.hooks.get(q)
    if h is not None:
        r = h(self, cls, args, kws, st, n)
        if r is not None:
            return r
    if q in self.opaque or (self.opaque_fn is not None and self.opaque_fn(q)) or len(self.frames) > self.max_depth:
        init = self.lookup(cls, "__init__")
        if init is not None:
            f2 = FuncV(init.node, init.mod, init.cls, init.closure, sym("self"), q)
            vals = self.bind_args(f2, args, kws, st, n, star)
            order = [p.arg for p in init.node.args.args][1:]
            ts = [mk("kw", k, self.term(vals[k], st)) for k in order if k in vals]
        else:
            vals = dict(kws)
            ts = [self.term(a, st) for a in args] + [mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())]
        t = mk("call", q, *ts)
        self.eff(st, "opaque", q, args, dict(vals), n, t)
        return t
    mro = self.mro(cls)
    isexc = any(isinstance(k, ExtV) and (k.name.endswith("Exception") or k.name.endswith("Error")) for k in mro)
    if isexc:
        return mk("call", q, *[self.term(a, st) for a in args])
    self.analysed[q] = self.analysed.get(q, 0) + 1
    obj = self.new(st, ObjC(cls, {}))
    init = self.lookup(cls, "__init__")
    if init is not None:
        v, st2 = self.call_func(init.bind(obj), args, kws, st, n, starargs=star)
        if st2 is not st:
            st.heap, st.pc = st2.heap, st2.pc
        return obj
    # dataclass
    from .interp import _has_deco
    if any(_has_deco(k.node, "dataclass") for k in mro if isinstance(k, ClassV)):
        fields = []
        for k in reversed([k for k in mro if isinstance(k, ClassV)]):
            for x in k.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    fields = [f for f in fields if f[0] != x.target.id] + [(x.target.id, x.value, k)]
        at = {}
        for i, (nm, d, k) in enumerate(fields):
            if i < len(args):
                at[nm] = args[i]
            elif nm in kws:
                at[nm] = kws[nm]
            elif "**" in kws:
                dt = self.term(kws["**"], st)
                if d is not None:
                    at[nm] = ite(mk("in", const(nm), dt), mk("item", dt, const(nm)), self.term(self._field_default(k, d, st), st))
                else:
                    at[nm] = mk("item", dt, const(nm))
            elif d is not None:
                at[nm] = self._field_default(k, d, st)
            else:
                at[nm] = sym("missing:" + nm)
        names = [f[0] for f in fields]
        for kname in kws:
            if kname != "**" and kname not in names:
                self.note("arity", "unexpected keyword %s to %s" % (kname, q), n)
        st.heap[obj.id] = ObjC(cls, at)
        post = self.lookup(cls, "__post_init__")
        if post is not None:
            v, st2 = self.call_func(post.bind(obj), [], {}, st, n)
            if st2 is not st:
                st.heap, st.pc = st2.heap, st2.pc
        return obj
    return obj


def database_path(t):
    """the file a database is opened at: URI spelling and opening mode set aside (P20 follows the mode)"""
    while True:
        if t.op == "concat":
            ps = [p for p in t.args if not (p.op == "const" and isinstance(p.args[0], str) and (p.args[0] in ("file:", "file://") or p.args[0].startswith("?")))]
            if len(ps) == 1 and len(ps) < len(t.args):
                t = ps[0]
                continue
        if t.op == "call" and t.args[0] in (".as_uri", ".resolve", ".absolute", "pathlib.Path", "builtins.str", "str", "os.path.abspath", "os.path.realpath", "os.fspath", "urllib.parse.quote", "urllib.request.pathname2url") and len(t.args) >= 2:
            t = t.args[1]
            continue
        return t


def call_ext(self, name, args, kws, st, n):
    parts = name.split(".")
    root, last = parts[0], parts[-1]
    if name == "numba.typed.List" and not args:
        return self.new(st, ListC([]))
    if last == "defaultdict":
        return self.new(st, DictC([], mk("call", "defaultdict", *[self.term(a, st) for a in args])))
    # ---- numpy / math
    if root in NUMPY_MODS or name in ("builtins.abs", "builtins.pow", "builtins.round"):
        r = numpy_call(self, name, last, args, kws, st, n)
        if r is not None:
            return r
    if root == "pandas":
        r = pandas_call(self, name, last, args, kws, st, n)
        if r is not None:
            return r
    if name == "builtins.dict.fromkeys" and args:
        v = args[1] if len(args) > 1 else NONE
        known = self.known_items(args[0], st)
        if known is not None:
            r = self.new(st, DictC([]))
            for k in known:
                self.setitem_v(r, k, v, st, n)
            return r
        L, elem, guard = self.domain(args[0], st)
        return self.new(st, DictC([], self.mapterm(L, mk("kv", self.term(elem, st), self.term(v, st)), guard)))
    if root == "builtins":
        r = builtin_call(self, last, args, kws, st, n)
        if r is not None:
            return r
    if name == "logging.getLogger":
        return mk("logger", *[self.term(a, st) for a in args])
    if name in ("logging.error", "logging.critical", "logging.exception", "logging.warning", "logging.info", "logging.debug"):
        self.eff(st, "log", last, args, kws, n)
        return NONE
    if name in ("sys.exit", "os._exit", "builtins.exit", "builtins.quit"):
        self.eff(st, "exit", name, args, kws, n)
        st.pc = FALSE
        return NONE
    if name == "functools.partial":
        return PartialV(args[0], args[1:], kws)
    if name in ("copy.copy", "copy.deepcopy"):
        c = self.cell(args[0], st)
        if c is not None:
            return self.new(st, c)
        return args[0]
    if name == "sqlite3.connect" and (args or "database" in kws):
        t = database_path(self.term(args[0] if args else kws["database"], st))
        return self.ext_call(name, [t], {k: v for k, v in kws.items() if k in ("isolation_level", "factory")}, st, n)
    if name == "os.path.join":
        parts_ = []
        for a in args:
            t = self.term(a, st)
            if t.op == "call" and t.args[0] == "os.path.join":
                parts_ += list(t.args[1:])
            else:
                parts_.append(t)
        return mk("call", "os.path.join", *parts_)
    if name == "dataclasses.field":
        if "default" in kws:
            return kws["default"]
        if "default_factory" in kws:
            return self.call_value(kws["default_factory"], [], {}, st, n)
        return NONE
    if name == "dataclasses.asdict":
        c = self.cell(args[0], st)
        if isinstance(c, ObjC):
            return self.new(st, DictC([(const(k), v) for k, v in c.attrs.items()]))
    if name == "itertools.chain.from_iterable":
        return mk("call", name, *[self.term(a, st) for a in args])
    if name in ("os.path.split", "os.path.splitext") and len(args) == 1 and not kws and not isinstance(args[0], SerV):
        x = self.term(args[0], st)
        if name == "os.path.split":
            return TupV([mk("call", "os.path.dirname", x), mk("call", "os.path.basename", x)])
        t = mk("call", name, x)
        return TupV([mk("item", t, ZERO), mk("item", t, ONE)])
    if name in ("os.environ.get", "os.getenv") and args:
        k, env = self.term(args[0], st), mk("ext", "os.environ")
        d = self.term(args[1], st) if len(args) > 1 else kws.get("default", NONE)
        v = mk("item", env, k)
        return v if d is NONE else ite(mk("in", k, env), v, d)
    if name in ("glob.glob", "os.listdir"):
        return self.new(st, ListC([Splice(self.ext_call(name, args, kws, st, n))], "list"))
    return self.ext_call(name, args, kws, st, n)


def _field_default(self, k, d, st):
    return self._class_eval(k, d, st)


def axis_of(self, args, kws, i, st):
    a = kws.get("axis", args[i] if len(args) > i else None)
    return num(self.term(a, st)) if a is not None else None


ELEMENTWISE = {"sqrt", "square", "power", "abs", "hypot", "radians", "degrees", "exp2", "add", "subtract", "multiply", "divide", "true_divide", "negative",
               "maximum", "minimum", "fmax", "fmin", "greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "logical_and", "logical_or",
               "logical_not", "isnan", "clip", "mod", "remainder", "arctan2", "fmod", "round", "where", "arange", "cross", "vstack", "array_equal"}


def numpy_call(self, name, last, args, kws, st, n):
    from .interp import NUMPY1, CANON, TRANSPARENT
    nm = CANON.get(last, last)
    if kws and (nm in ELEMENTWISE or nm in NUMPY1 or name in TRANSPARENT or last in ("array", "asarray")):
        kws = dict(kws)
        d = kws.pop("dtype", None)
        if nm == "round" and "decimals" in kws:
            args = list(args) + [kws.pop("decimals")]
        for k, v in (("casting", const("same_kind")), ("order", const("K")), ("subok", TRUE), ("where", TRUE), ("out", NONE)):
            if kws.get(k) is v:
                kws.pop(k)
        if name in TRANSPARENT or last in ("array", "asarray"):
            if kws.get("copy") in (TRUE, FALSE, NONE):
                kws.pop("copy")
            if kws.get("ndmin") is not None or kws.get("order") is not None:
                kws.pop("ndmin", None), kws.pop("order", None)
        if kws and nm != "clip":
            return None
        if d is not None:
            d = canon_dtype(self.term(d, st))
            v = numpy_call(self, name, last, args, kws, st, n)
            if v is None or astype(ONE, d) is ONE or d is NONE:
                return v
            if isinstance(v, (SerV, T)):
                return self.lift(lambda x: astype(x, d), st, v)
            c = self.cell(v, st)
            if isinstance(c, ListC) and all(isinstance(x, (SerV, T)) for x in c.parts):
                if d.op == "ext" and d.args[0] in ("builtins.object", "numpy.int64", "builtins.bool", "numpy.bool_") or d.op == "const" and d.args[0] in ("int64", "bool", "object"):
                    return v
                return self.new(st, ListC([self.lift(lambda x: astype(x, d), st, x) for x in c.parts], c.kind))
            return v
    if args:
        a = args[0]
        k, ax = (a.comps, 1) if isinstance(a, MatT) else (self.stack(a, None, st), 0)
        if k is not None:
            m = ax if axis_of(self, args, kws, 2 if last == "norm" else 1, st) == -1 and ax == 1 else axis_of(self, args, kws, 2 if last == "norm" else 1, st)
            if last == "norm" and m == ax and (len(args) < 2 or args[1] is NONE or args[1] is const(2)):
                return self.lift(lambda *x: pow_(functools.reduce(add, [mul(y, y) for y in x]), const(0.5)), st, *k, node=n)
            if last == "sum" and m == ax:
                return self.lift(lambda *x: functools.reduce(add, x), st, *k, node=n)
            if isinstance(a, MatT) and name in TRANSPARENT:
                return a
            if last == "transpose" and len(args) == 1:
                return self.getattr_(a, "T", st, n)
            if len(args) == 1 and not kws and last in ("square", "sqrt", "radians", "deg2rad", "degrees", "rad2deg", "sin", "cos", "abs"):
                y = [numpy_call(self, name, last, [x], {}, st, n) for x in k]
                return MatT(y) if ax == 1 else self.new(st, ListC(y, "arr"))
        if last in ("vstack", "row_stack", "stack", "column_stack"):
            c = args[0].items if isinstance(args[0], TupV) else (self.stack(a, None, st) or [])
            if c and all(isinstance(x, SerV) for x in c):
                x = axis_of(self, args, kws, 1, st) if last == "stack" else None
                if last == "column_stack" or x in (1, -1):
                    return MatT(list(c))
                if x in (None, 0):
                    return self.new(st, ListC(list(c), "arr"))
    if last in ("identity", "eye") and len(args) == 1 and num(self.term(args[0], st)) is not None and not kws:
        k = int(num(self.term(args[0], st)))
        if k <= 6:
            return self.new(st, ListC([self.new(st, ListC([ONE if i == j else ZERO for j in range(k)], "arr")) for i in range(k)], "arr"))
    if last == "zeros" and args:
        sh = self.term(args[0], st)
        if sh.op in ("list", "tuple") and len(sh.args) == 2 and all(num(x) is not None and num(x) <= 6 for x in sh.args):
            r, k = int(num(sh.args[0])), int(num(sh.args[1]))
            return self.new(st, ListC([self.new(st, ListC([ZERO] * k, "arr")) for i in range(r)], "arr"))
    if name in TRANSPARENT or (last in ("array", "asarray", "copy", "ravel", "atleast_1d", "float64")):
        if not args:
            return None
        a = args[0]
        if isinstance(a, SerV):
            return SerV(a.ctx, a.elem, "array")
        if isinstance(a, (IdxV, PosV)):
            return a
        c = self.cell(a, st)
        if name in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray"):
            if isinstance(c, ListC) and c.kind in ("list", "tuple", "arr"):
                return self.new(st, ListC(list(c.parts), "arr"))
            if isinstance(a, TupV):
                return self.new(st, ListC(list(a.items), "arr"))
            if isinstance(a, T):
                # columns of one table side by side
                z = canon_coll(a)
                if z.op == "call" and z.args[0] == "zip" and len(z.args) > 1 and all(x.op == "item" and x.args[1].op == "const" and x.args[0] is z.args[1].args[0] for x in z.args[1:]):
                    return mk("item", z.args[1].args[0], mk("list", *[x.args[1] for x in z.args[1:]]))
        return a if isinstance(a, (T, Ref, TupV, IteV)) else None
    if "random" in name.split(".")[1:-1] and name.startswith("numpy.random"):
        t = self.ext_call(name, args, kws, st, n, "rng")
        return draw(self, mk("ext", "numpy.random"), last, args, kws, st, n)
    if nm == "sqrt" and len(args) == 1:
        return self.lift(lambda x: pow_(x, const(0.5)), st, *args)
    if nm == "square":
        return self.lift(lambda x: mul(x, x), st, *args)
    if nm == "power" and len(args) == 2:
        return self.lift(pow_, st, *args)
    if nm == "abs" and len(args) == 1:
        return self.lift(absx, st, *args)
    if (nm in EVEN or nm in ODD) and len(args) == 1 and not kws and not isinstance(args[0], TupV) and not (isinstance(args[0], Ref) and isinstance(self.cell(args[0], st), ListC)):
        return self.lift(lambda x: parity(nm, x), st, *args)
    if nm == "hypot" and len(args) == 2:
        return self.lift(lambda x, y: pow_(add(mul(x, x), mul(y, y)), const(0.5)), st, *args)
    if nm == "radians":
        return self.lift(lambda x: mul(x, div(PI, const(180))), st, *args)
    if nm == "degrees":
        return self.lift(lambda x: mul(x, div(const(180), PI)), st, *args)
    if nm == "exp2" and len(args) == 1:
        return self.lift(lambda x: pow_(const(2), x), st, *args)
    if nm in ("add", "subtract", "multiply", "divide", "true_divide") and len(args) == 2:
        f = {"add": add, "subtract": sub, "multiply": mul, "divide": div, "true_divide": div}[nm]
        return self.lift(f, st, *args)
    if nm == "negative":
        return self.lift(neg, st, *args)
    if nm in ("maximum", "minimum", "fmax", "fmin") and len(args) == 2:
        q = {"maximum": "max", "fmax": "max", "minimum": "min", "fmin": "min"}[nm]
        return self.lift(lambda x, y: mk("call", q, *sorted((x, y), key=lambda t: t.dig)), st, *args)
    if nm in ("greater", "greater_equal", "less", "less_equal", "equal", "not_equal") and len(args) == 2:
        f = {"greater": gt, "greater_equal": ge, "less": lt, "less_equal": le, "equal": eq, "not_equal": lambda a, b: not_(eq(a, b))}[nm]
        return self.lift(f, st, *args)
    if nm == "logical_and":
        return self.lift(lambda x, y: and_(truth(x), truth(y)), st, *args[:2])
    if nm == "logical_or":
        return self.lift(lambda x, y: or_(truth(x), truth(y)), st, *args[:2])
    if nm == "logical_not":
        return self.lift(lambda x: not_(truth(x)), st, args[0])
    if nm == "isnan":
        return self.lift(isnan, st, args[0])
    if nm == "isin" and len(args) >= 2:
        r = self.contains(args[0], args[1], st, n) if isinstance(args[0], SerV) else None
        if isinstance(r, SerV):
            return r
        if isinstance(args[0], SerV):
            e = mk("in", args[0].elem, canon_coll(self.term(args[1], st)))
            if kws.get("invert") is TRUE:
                e = not_(e)
            return SerV(args[0].ctx, e, "array")
    if nm == "where":
        if len(args) == 3:
            return self.lift(lambda c, a, b: ite(truth(c), a, b), st, *args)
        if len(args) == 1:
            if isinstance(args[0], SerV):
                return PosV(args[0].ctx, truth(args[0].elem))
            return mk("wherepos", truth(self.term(args[0], st)))
    if nm in ("flatnonzero", "nonzero", "argwhere") and len(args) == 1:
        if isinstance(args[0], SerV):
            return PosV(args[0].ctx, truth(args[0].elem))
        return mk("wherepos", truth(self.term(args[0], st)))
    if nm in ("zeros", "zeros_like", "ones", "ones_like", "full", "full_like", "empty", "empty_like"):
        base = nm.split("_")[0]
        self.eff(st, "alloc", nm, [mk("call", "new", *[self.term(a, st) for a in args], *[mk("kw", k, self.term(x, st)) for k, x in sorted(kws.items())])])
        if base == "full":
            v = self.term(args[1], st) if len(args) > 1 else self.term(kws.get("fill_value", NONE), st)
        elif base == "empty":
            sh = self.term(args[0], st) if args and not isinstance(args[0], SerV) else NONE
            v = mk("uninit", sh.args[1]) if sh.op in ("tuple", "list") and len(sh.args) == 2 and num(sh.args[1]) is not None else mk("uninit")
        else:
            v = ZERO if base == "zeros" else ONE
        d = kws.get("dtype")
        if d is not None:
            dt = self.term(d, st)
            if dt.op == "ext" and dt.args[0] in ("builtins.bool", "numpy.bool_") or dt is const("bool"):
                v = FALSE if v is ZERO else TRUE if v is ONE else v
        if args and isinstance(args[0], SerV):
            return SerV(args[0].ctx, v, "array")
        return v
    if nm in ("all", "any") and len(args) == 1 and not kws:
        a = args[0]
        if isinstance(a, SerV):
            return rebuild("allrows" if nm == "all" else "anyrows", (a.ctx.term(), truth(a.elem)))
        t = self.term(a, st)
        return anyall(nm, t) if isbool(t) else mk("call", "numpy." + nm, t)
    if nm in ("isclose", "allclose") and len(args) >= 2:
        extra = [self.term(a, st) for a in args[2:]] + [mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())]
        r = self.lift(lambda a, b: mk("call", "isclose", a, b, *extra), st, args[0], args[1])
        if nm == "allclose":
            return rebuild("allrows", (r.ctx.term(), truth(r.elem))) if isinstance(r, SerV) else mk("call", "numpy.all", self.term(r, st))
        return r
    if nm == "clip" and len(args) == 3 and not kws:
        return self.lift(clip, st, *args)
    if nm == "clip":
        return self.lift(lambda *x: mk("call", "clip", *x), st, *args)
    if nm == "log10" or nm in NUMPY1:
        if len(args) == 1:
            return self.lift(lambda x: _fn1(nm, x), st, *args)
    if nm in ("mod", "remainder") and len(args) == 2:
        return self.lift(modulo, st, *args)
    if nm in ("arctan2", "fmod") and len(args) == 2:
        return self.lift(lambda x, y: mk("call", nm, x, y), st, *args)
    if nm == "round":
        return self.lift(lambda x, *r: mk("call", "round", x, *r), st, *args)
    if nm == "unique":
        return mk("call", ".unique", self.term(args[0], st), *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
    if nm in ("max", "min", "amax", "amin", "sum", "mean", "median", "std", "argmax", "argmin", "argsort", "sort", "cumsum", "diff", "nanmax", "nanmin", "nansum"):
        ts = [self.term(a, st) for a in args]
        k = {"amax": "max", "amin": "min"}.get(nm, nm)
        if ts and ts[0].op == "map" and ts[0].args[2] is TRUE and len(ts[0].args) == 3 and nm in ("sum", "mean", "max", "min"):
            ts[0] = unmap(ts[0])
        if k == "mean" and len(args) == 1 and not kws and isinstance(args[0], T):
            return div(mk("call", "agg.sum", ts[0]), rebuild("len", (ts[0],)))
        return mk("call", "agg." + k, *ts, *[mk("kw", k2, self.term(v, st)) for k2, v in sorted(kws.items())])
    if nm in ("concatenate", "hstack", "append"):
        ts = [self.term(a, st) for a in args]
        return mk("call", "numpy.concatenate", *ts, *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
    if nm in ("dot", "matmul", "vdot", "inner") and len(args) == 2 and not kws:
        return dot(self.term(args[0], st), self.term(args[1], st))
    if name == "numpy.linalg.norm" and len(args) == 1 and not kws and not isinstance(args[0], SerV):
        return norm(self.term(args[0], st))
    if nm == "arange" or nm == "dot" or nm == "cross" or nm == "vstack" or nm == "array_equal":
        return mk("call", nm, *[self.term(a, st) for a in args])
    if any(isinstance(a, SerV) for a in args) and nm in ("interp", "searchsorted", "digitize"):
        return self.lift(lambda *x: mk("call", "numpy." + nm, *x), st, *args)
    return None


def _fn1(nm, x):
    if nm == "exp":
        if x is ZERO:
            return ONE
    if nm == "log10":
        n = num(x)
        if n == 1:
            return ZERO
        if x.op == "powx" and num(x.args[0]) == 10:
            return x.args[1]
        if x.op == "poly" and len(x.args[0]) == 1:
            # the logarithm of a product is the sum of the logarithms
            (m, c), = x.args[0]
            if c > 0:
                out = ZERO if c == 1 else mk("call", "log10", const(c))
                for at, e in m:
                    even = e.denominator == 1 and e.numerator % 2 == 0
                    out = add(out, scale(_fn1("log10", absx(at) if even else at), e))
                return out
        if x.op == "poly":
            # a factor common to all terms of a sum
            ms = [dict(m) for m, c in x.args[0]]
            common = {a: min(m[a] for m in ms) for a in ms[0] if all(a in m for m in ms)}
            common = {a: e for a, e in common.items() if e > 0}
            if common:
                f = ONE
                for a, e in common.items():
                    f = mul(f, pow_(a, const(e)))
                return add(_fn1("log10", f), _fn1("log10", div(x, f)))
    if nm in ("floor", "ceil") and num(x) is not None:
        import math
        return const(getattr(math, nm)(num(x)))
    return mk("call", nm, x)


def draw(self, rng, method, args, kws, st, n):
    key = ("draws", rng.dig)
    k = st.heap.get(key, ZERO)
    k = k if isinstance(k, T) else ZERO
    st.heap[key] = add(k, ONE)
    ts = [self.term(a, st) for a in args]
    kt = {kk: self.term(v, st) for kk, v in kws.items()}
    params = {"random": ["size"], "normal": ["loc", "scale", "size"], "uniform": ["low", "high", "size"], "standard_normal": ["size"],
              "random_sample": ["size"], "integers": ["low", "high", "size"], "choice": ["a", "size"], "multivariate_normal": ["mean", "cov", "size"],
              "rand": ["size"], "randn": ["size"]}.get(method)
    if params:
        for p, t in zip(params, ts):
            kt.setdefault(p, t)
    else:
        for i, t in enumerate(ts):
            kt["arg%d" % i] = t
    if method == "normal":
        kt.setdefault("loc", ZERO)
        kt.setdefault("scale", ONE)
    if method == "uniform":
        kt.setdefault("low", ZERO)
        kt.setdefault("high", ONE)
        if kt["low"] is ZERO and kt["high"] is ONE:
            method = "random"
            kt = {"size": kt["size"]} if "size" in kt else {}
    t = mk("draw", rng, method, *[mk("kw", k2, v) for k2, v in sorted(kt.items())], mk("seq", k))
    self.eff(st, "draw", method, [rng] + list(args), kws, n, t)
    # per-row parameters give per-row draws
    sers = [a for a in list(args) + list(kws.values()) if isinstance(a, SerV)]
    if sers:
        kt2 = {k2: (v.elem if isinstance(v, SerV) else kt[k2]) for k2, v in list(zip(params or [], args)) + list(kws.items()) if k2 in kt}
        for k2 in kt:
            kt2.setdefault(k2, kt[k2])
        t = mk("draw", rng, method, *[mk("kw", k2, v) for k2, v in sorted(kt2.items())], mk("seq", k))
        return SerV(sers[0].ctx, t, "array")
    sz = kt.get("size")
    if method == "multivariate_normal" and sz is not None and sz.op == "len" and sz.args[0].op == "rows":
        b, r, o = sz.args[0].args
        cv = kt.get("cov")
        k = len(cv.args) if cv is not None and cv.op == "list" else None
        if k:
            return MatT([SerV(RowCtx(b, r, o, mk("nolabels"), "R"), mk("item", t, const(i)), "array") for i in range(k)])
    if sz is not None and sz.op == "len" and sz.args[0].op == "rows":
        b, r, o = sz.args[0].args
        return SerV(RowCtx(b, r, o, mk("nolabels"), "R"), t, "array")
    return t


def series_table(s):
    """the table of one column made of a series, its labels kept"""
    e = s.elem
    if s.kind != "series" or e.op != "col":
        return None
    k = e.args[1]
    nm = k if isinstance(k, str) else (k.args[0] if is_const(k) else k)
    return FrameC(s.ctx.base, s.ctx.rows, {nm: e}, (), (nm if isinstance(nm, T) else const(nm),), s.ctx.order, s.ctx.index, s.ctx.lineage)


def pandas_call(self, name, last, args, kws, st, n):
    if last == "merge":
        lf = self.cell(args[0] if args else kws.get("left"), st)
        right = args[1] if len(args) > 1 else kws.get("right")
        d = {k: self.term(v, st) for k, v in kws.items() if k not in ("left", "right")}
        if len(args) > 2:
            d["how"] = self.term(args[2], st)
        if isinstance(lf, FrameC):
            return merge_frames(self, lf, self.term(right, st), d, "merge", st, n, right)
        lt_ = self.term(args[0] if args else kws.get("left"), st)
        return merge_frames(self, FrameC(lt_), self.term(right, st), d, "merge", st, n, right)
    if last == "DataFrame":
        a = args[0] if args else kws.get("data")
        c = self.cell(a, st) if a is not None else None
        t = mk("call", "DataFrame", *[self.term(x, st) for x in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
        if isinstance(c, DictC) and c.rest is None:
            cols = {}
            ok = True
            for k, v in c.items:
                kk = self.term(k, st)
                cols[kk.args[0] if kk.op == "const" else kk] = v.elem if isinstance(v, SerV) else self.term(v, st)
            only = tuple(self.term(k, st) for k, _ in c.items)
            sers = [v for _, v in c.items if isinstance(v, SerV)]
            if sers and all(v.ctx.term() is sers[0].ctx.term() for v in sers):
                cx = next((v.ctx for v in sers if v.kind == "series"), None)
                x = cx or sers[0].ctx
                return self.new(st, FrameC(x.base, x.rows, cols, (), only, x.order, cx.index if cx else "R",
                                           cx.lineage if cx else mk("reset", x.term())))
            return self.new(st, FrameC(t, cols=cols, only=only, index="R"))
        if isinstance(c, FrameC):
            return self.new(st, c)
        if isinstance(a, SerV) and len(args) <= 1 and set(kws) <= {"data"}:
            f = series_table(a)
            if f is not None:
                return self.new(st, f)
        return self.new(st, FrameC(t, index="R"))
    if last == "Series":
        a = args[0] if args else kws.get("data", NONE)
        if isinstance(a, SerV):
            ix = kws.get("index", args[1] if len(args) > 1 else None)
            if isinstance(ix, IdxV) and a.kind != "series":
                return SerV(RowCtx(a.ctx.base, a.ctx.rows, a.ctx.order, ix.ctx.lineage, ix.ctx.index), a.elem, "series")
            if a.kind == "series" or ix is not None:
                return a
            return SerV(RowCtx(a.ctx.base, a.ctx.rows, a.ctx.order, mk("reset", a.ctx.term()), "R"), a.elem, "series")
        return self.term(a, st) if a is not None else NONE
    if last == "concat" and kws.get("axis") in (ONE, const("columns")):
        ps = self.known_items(args[0] if args else kws.get("objs"), st)
        if ps:
            f = groups.tables(self, ps[0], st)
            f = groups.join(self, f[0][1], TupV(ps[1:]), st) if f is not None and len(f) == 1 else None
            if f is not None:
                return self.new(st, f)
    if last == "concat":
        t = mk("call", "concat", *[self.term(x, st) for x in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
        self.eff(st, "ext", name, args, kws, n, t)
        ig = kws.get("ignore_index", FALSE)
        return self.new(st, FrameC(t, index="R" if ig is TRUE else "D"))
    if last in ("isna", "isnull"):
        return self.lift(isnan, st, args[0])
    if last in ("notna", "notnull"):
        return self.lift(lambda x: not_(isnan(x)), st, args[0])
    if last in ("read_csv", "read_sql", "read_sql_query", "read_hdf", "read_parquet", "read_table", "read_fwf", "read_pickle"):
        kws = dict(kws)
        if last in ("read_csv", "read_table") and "delimiter" in kws:
            kws["sep"] = kws.pop("delimiter")
        if last == "read_csv" and "sep" not in kws:
            kws["sep"] = const(",")
        if kws.get("delim_whitespace") is TRUE:
            kws.pop("delim_whitespace")
            kws["sep"] = const("\\s+")
        if kws.get("nrows") is NONE:
            kws.pop("nrows")
        if last == "read_hdf" and kws.get("start") in (ZERO, NONE):
            kws.pop("start")
        if last == "read_hdf" and kws.get("stop") is NONE:
            kws.pop("stop")
        for k in ("nrows", "stop", "start"):
            v = kws.get(k)
            if isinstance(v, T) and v.op == "ite" and NONE in v.args[1:]:
                # giving no bound is the same as not asking for one
                ts = []
                for b in v.args[1:]:
                    r = pandas_call(self, name, last, args, dict(kws, **{k: b}), st, n)
                    ts.append(self.term(r, st))
                return self.new(st, FrameC(ite(v.args[0], *ts), index="?" if last == "read_hdf" else "R"))
        t = self.ext_call("pandas." + last, args, kws, st, n)
        return self.new(st, FrameC(t, index="?" if last == "read_hdf" else "R"))
    if last == "to_numeric":
        return args[0]
    return None


def builtin_call(self, last, args, kws, st, n):
    a = args[0] if args else None
    if last == "len":
        if isinstance(a, IteV):
            return self.on_ite(a, st, lambda x, s: builtin_call(self, "len", [x], {}, s, n))
        c = self.cell(a, st)
        if isinstance(c, FrameC):
            return mk("len", c.ctx().term())
        if isinstance(a, SerV):
            return mk("len", a.ctx.term())
        if isinstance(a, IdxV):
            return mk("len", a.ctx.term())
        if isinstance(a, TupV):
            return const(len(a.items))
        if isinstance(c, ListC) and c.known():
            return const(len(c.parts)) if c.kind != "set" else mk("len", self.term(a, st))
        if isinstance(c, DictC) and c.rest is None:
            return const(len(c.items))
        t = self.term(a, st)
        if t.op in ("list", "tuple"):
            return const(len(t.args))
        if t.op == "const" and isinstance(t.args[0], str):
            return const(len(t.args[0]))
        if t.op == "map" and t.args[2] is TRUE:
            return mk("len", t.args[0].args[0])
        if t.op == "attr" and t.args[1] == "shape":
            return mk("attr", t.args[0], "ndim")
        return rebuild("len", (t,))
    if last == "float":
        return self.lift(lambda x: x if not (x.op == "const" and isinstance(x.args[0], str)) else _floatc(x), st, a) if a is not None else ZERO
    if last == "bool":
        return self.truth(a, st, n)
    if last == "int" and (len(args) > 1 or "base" in kws):
        b = self.term(args[1] if len(args) > 1 else kws["base"], st)
        return mk("call", "int", self.term(a, st), *([] if num(b) == 10 else [mk("kw", "base", b)]))
    if last == "from_bytes" and args:
        x = self.term(a, st)
        o = self.term(args[1] if len(args) > 1 else kws.get("byteorder", const("big")), st)
        if x.op == "call" and x.args[0] == ".digest" and len(x.args) == 2 and o is const("big"):
            return mk("call", "int", mk("call", ".hexdigest", x.args[1]), mk("kw", "base", const(16)))
    if last == "int":
        return self.lift(lambda x: const(int(num(x))) if num(x) is not None else mk("call", "int", x), st, a) if a is not None else ZERO
    if last == "str":
        if a is None:
            return const("")
        from .interp import to_str
        return to_str(self.term(a, st))
    if last in ("list", "tuple", "sorted", "set", "frozenset", "reversed", "iter"):
        if a is None:
            return self.new(st, ListC([], "set" if "set" in last else "list"))
        c = self.cell(a, st)
        if last in ("list", "tuple", "iter"):
            if isinstance(c, ListC) and c.kind != "set":
                return self.new(st, ListC(c.parts))
            if isinstance(a, TupV):
                return self.new(st, ListC(a.items))
            if isinstance(a, SerV):
                return SerV(a.ctx, a.elem, "array")
            if isinstance(a, (IdxV, PosV)):
                return a
            if isinstance(c, DictC) and c.rest is None:
                return self.new(st, ListC([k for k, _ in c.items]))
            if isinstance(a, T) and a.op == "call" and a.args[0] == "range" and self.known_items(a, st) is None:
                L, x, g = self.domain(a, st)
                return self.new(st, ListC([Splice(self.mapterm(L, x, g))]))
        if last in ("list", "tuple", "iter") and isinstance(a, T) and a.op in ("map", "flatmap") and not kws:
            return a
        if "set" in last and isinstance(c, ListC) and c.known():
            return self.new(st, ListC(c.parts, "set"))
        if last == "sorted" and isinstance(c, ListC) and c.known() and not kws and all(self.term(p, st).op == "const" for p in c.parts):
            try:
                return self.new(st, ListC(sorted(c.parts, key=lambda p: self.term(p, st).args[0])))
            except TypeError:
                pass
        if last == "reversed" and isinstance(c, ListC) and c.known():
            return self.new(st, ListC(tuple(reversed(c.parts))))
        t = mk("call", "set" if last == "frozenset" else last, self.term(a, st), *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
        if last in ("set", "frozenset"):
            return self.new(st, ListC([Splice(t)], "set"))
        return t
    if last == "dict":
        items = [(const(k), v) for k, v in kws.items() if k != "**"]
        c = self.cell(a, st) if a is not None else None
        if isinstance(c, DictC):
            return self.new(st, DictC(list(c.items) + items, c.rest))
        if a is not None:
            k = self.known_items(a, st)
            if k is not None and all(isinstance(x, TupV) and len(x.items) == 2 for x in k):
                return self.new(st, DictC([(x.items[0], x.items[1]) for x in k] + items))
            t = self.term(a, st)
            if t.op == "call" and t.args[0] == ".items" and len(t.args) == 2:
                t = t.args[1]
            elif t.op == "call" and t.args[0] == ".items" and len(t.args) == 3:
                t = mk("item", t.args[1], t.args[2])    # the settings of a section
            elif t.op not in ("item", "attr"):
                t = mk("call", "dict", t)
            return self.new(st, DictC(items, t))
        return self.new(st, DictC(items))
    if last == "range":
        ts = [self.term(x, st) for x in args]
        if len(ts) == 2 and ts[0] is ZERO:
            ts = ts[1:]
        return mk("call", "range", *ts)
    if last in ("enumerate", "zip", "map", "filter"):
        if last == "map" and len(args) == 2:
            it = args[1]
            known = self.known_items(it, st)
            if known is not None and len(known) <= 40:
                return self.new(st, ListC([self.call_value(args[0], [x], {}, st, n) for x in known]))
            L, elem, guard = self.domain(it, st)
            self.loopdepth += 1
            try:
                v = self.call_value(args[0], [elem], {}, st, n)
            finally:
                self.loopdepth -= 1
            return self.mapterm(L, self.term(v, st), guard)
        if last in ("zip", "enumerate"):
            ks = [self.known_items(x, st) for x in args[: (1 if last == "enumerate" else None)]]
            if ks and all(k is not None for k in ks):
                if last == "zip":
                    return self.new(st, ListC([TupV(z) for z in zip(*ks)]))
                off = self.term(args[1] if len(args) > 1 else kws.get("start", ZERO), st)
                return self.new(st, ListC([TupV([add(off, const(i)), x]) for i, x in enumerate(ks[0])]))
        return mk("call", last, *[self.term(x, st) for x in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
    if last in ("any", "all"):
        c = self.cell(a, st)
        if isinstance(c, ListC):
            rs = []
            for p in c.parts:
                if isinstance(p, Splice):
                    t = p.t
                    if t.op == "map":
                        L, x, cond = t.args[:3]
                        b = truth(x)
                        rs.append(self.exists(L, and_(cond, b)) if last == "any" else self.forall(L, or_(not_(cond), b)))
                    elif t.op == "ite" and t.args[2].op == "list" and not t.args[2].args and t.args[1].op == "list":
                        bs = [truth(x) for x in t.args[1].args]
                        rs.append(and_(t.args[0], or_(*bs)) if last == "any" else or_(not_(t.args[0]), and_(*bs)))
                    else:
                        rs.append(mk("truthy", mk("call", last, t)))
                else:
                    rs.append(self.truth(p, st, n))
            return or_(*rs) if last == "any" else and_(*rs)
        if isinstance(a, SerV):
            return rebuild("allrows" if last == "all" else "anyrows", (a.ctx.term(), truth(a.elem)))
        t = self.term(a, st)
        if t.op in ("list", "tuple"):
            return or_(*[truth(x) for x in t.args]) if last == "any" else and_(*[truth(x) for x in t.args])
        return anyall(last, t) if isbool(t) else mk("truthy", mk("call", last, t))
    if last in ("max", "min"):
        if len(args) > 1 and not any(isinstance(x, SerV) for x in args):
            ts = [self.term(x, st) for x in args]
            if all(num(t) is not None for t in ts):
                return const((max if last == "max" else min)(num(t) for t in ts))
            return mk("call", last, *sorted(ts, key=lambda t: t.dig))
        return mk("call", "agg." + last, *[self.term(x, st) for x in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])
    if last == "sum":
        c = self.cell(a, st)
        if isinstance(c, ListC):
            tot = self.term(args[1], st) if len(args) > 1 else ZERO
            if tot.op == "list":
                return self.new(st, ListC([Splice(mk("call", "sum", self.term(a, st), tot))]))
            for p in c.parts:
                if isinstance(p, Splice):
                    if p.t.op == "map":
                        L, x, cond = p.t.args[:3]
                        x = ite(cond, x, ZERO)
                        if cond is TRUE and x is ONE:
                            tot = add(tot, mk("len", L.args[0]))
                        else:
                            tot = add(tot, bind("sum", L, x))
                    else:
                        tot = add(tot, mk("call", "sum", p.t))
                else:
                    tot = add(tot, self.term(p, st))
            return tot
        return mk("call", "agg.sum", self.term(a, st)) if isinstance(a, SerV) else mk("call", "sum", *[self.term(x, st) for x in args])
    if last == "isinstance":
        return isinst(self, args[0], args[1], st)
    if last == "type":
        if len(args) == 1:
            c = self.cell(a, st)
            if isinstance(c, ObjC):
                return c.cls
            if isinstance(c, ListC):
                return ExtV("builtins." + c.kind)
            if isinstance(c, DictC):
                return ExtV("builtins.dict")
            t = self.term(a, st)
            if t.op == "const":
                return ExtV("builtins." + type(t.args[0]).__name__)
            if t.op == "ite":
                return ite(t.args[0], self.term(builtin_call(self, "type", [t.args[1]], {}, st, n), st), self.term(builtin_call(self, "type", [t.args[2]], {}, st, n), st))
            return mk("call", "type", t)
    if last == "getattr":
        t = self.term(args[1], st)
        if t.op == "const" and isinstance(t.args[0], str):
            if len(args) == 2:
                return self.getattr_(a, t.args[0], st, n)
            c = self.cell(a, st)
            if isinstance(c, ObjC):
                if t.args[0] in c.attrs:
                    return c.attrs[t.args[0]]
                if self.lookup(c.cls, t.args[0]) is None and self.class_attr(c.cls, t.args[0], st) is None:
                    return args[2]
                return self.getattr_(a, t.args[0], st, n)
            return mk("call", "getattr", self.term(a, st), t, self.term(args[2], st))
        if isinstance(a, (ExtV, ModV)):
            return mk("call", "getattr", self.term(a, st), t)
        ta = self.term(a, st)
        return mk("call", "getattr", ta, t, *[self.term(x, st) for x in args[2:]])
    if last == "setattr":
        t = self.term(args[1], st)
        if t.op == "const":
            self.setattr_(a, t.args[0], args[2], st, n)
        else:
            self.eff(st, "setattr", "?", args, {}, n)
        return NONE
    if last == "hasattr":
        t = self.term(args[1], st)
        c = self.cell(a, st)
        if isinstance(c, ObjC) and t.op == "const":
            ok = t.args[0] in c.attrs or self.lookup(c.cls, t.args[0]) is not None or self.class_attr(c.cls, t.args[0], st) is not None
            return TRUE if ok else FALSE
        return mk("truthy", mk("call", "hasattr", self.term(a, st), t))
    if last == "print":
        self.eff(st, "print", "print", args, kws, n)
        return NONE
    if last == "open":
        # reading is what open does unless told otherwise
        if len(args) == 2 and args[1] is const("r"):
            args = args[:1]
        if kws.get("mode") is const("r"):
            kws = {k: v for k, v in kws.items() if k != "mode"}
        return self.ext_call("builtins.open", args, kws, st, n)
    if last in ("exit", "quit"):
        self.eff(st, "exit", "builtins." + last, args, kws, n)
        st.pc = FALSE
        return NONE
    if last == "super":
        return None
    if last == "property":
        return a
    if last == "pow" and len(args) == 2:
        return self.lift(pow_, st, *args)
    if last == "abs":
        return self.lift(absx, st, a)
    if last == "next" and args and isinstance(args[0], T) and args[0].op == "call" and args[0].args[0] in ("open", "gzip.open", "builtins.open"):
        return t_method(self, args[0], "readline", [], {}, st, n)
    if last == "next":
        return self.ext_call("next", args, kws, st, n)
    if last == "divmod" and len(args) == 2:
        return TupV([self.binop(ast.FloorDiv(), args[0], args[1], st, n), self.binop(ast.Mod(), args[0], args[1], st, n)])
    if last == "callable":
        return TRUE if isinstance(a, (FuncV, ClassV)) else mk("truthy", mk("call", "callable", self.term(a, st)))
    return mk("call", last, *[self.term(x, st) for x in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())])


def _floatc(x):
    try:
        return const(float(x.args[0]))
    except ValueError:
        return mk("call", "float", x)


def isinst(self, v, t, st):
    tt = self.term(t, st)
    if tt.op == "tuple":
        return or_(*[isinst(self, v, x, st) for x in tt.args])
    if isinstance(v, IteV):
        return ite(v.c, isinst(self, v.a, t, st), isinst(self, v.b, t, st))
    nm = tt.args[0].split(".")[-1] if tt.op == "ext" else None
    c = self.cell(v, st)
    known = None
    if isinstance(c, ListC):
        known = {c.kind}
    elif isinstance(c, DictC):
        known = {"dict"}
    elif isinstance(c, FrameC):
        known = {"DataFrame"}
    elif isinstance(v, TupV):
        known = {"tuple"}
    elif isinstance(v, SerV):
        known = {"Series"} if v.kind == "series" else {"ndarray"}
    elif isinstance(v, T) and v.op == "const":
        known = {type(v.args[0]).__name__} | ({"int"} if isinstance(v.args[0], bool) else set())
    elif isinstance(v, T) and v.op == "num":
        known = None
        if nm in ("str", "list", "dict", "tuple", "bool", "set"):
            return FALSE
        if nm == "float" and v.args[0].denominator != 1:
            return TRUE
        if nm == "int" and v.args[0].denominator != 1:
            return FALSE
    if known is not None and nm is not None:
        return TRUE if nm in known else FALSE
    if isinstance(c, ObjC):
        if tt.op == "class":
            return TRUE if any(isinstance(k, ClassV) and k.qual == tt.args[0] for k in self.mro(c.cls)) else FALSE
        return FALSE if nm in ("str", "list", "dict", "tuple", "float", "int", "set") else mk("truthy", mk("call", "isinstance", self.term(v, st), tt))
    x = self.term(v, st)
    if x.op == "ite":
        return ite(x.args[0], isinst(self, x.args[1], t, st), isinst(self, x.args[2], t, st))
    return mk("truthy", mk("call", "isinstance", x, tt))


# ---------------------------------------------------------------- bound methods of library values
def call_bound(self, o, name, args, kws, st, n):
    if isinstance(o, IteV):
        return self.on_ite(o, st, lambda x, s: self.call_bound(x, name, args, kws, s, n))
    c = self.cell(o, st)
    if isinstance(c, FrameC):
        return frame_method(self, o, name, args, kws, st, n)
    if isinstance(o, SerV):
        return ser_method(self, o, name, args, kws, st, n)
    if isinstance(c, ListC):
        return self.list_method(o, c, name, args, kws, st, n)
    if isinstance(c, DictC):
        return self.dict_method(o, c, name, args, kws, st, n)
    if isinstance(o, StrV):
        ts = [self.term(a, st) for a in args]
        return SerV(o.ser.ctx, mk("call", "." + o.kind + "." + name, o.ser.elem, *ts), o.ser.kind)
    if isinstance(o, (IdxV, PosV)):
        if name in ("tolist", "to_list", "to_numpy", "copy", "astype", "unique", "to_series"):
            return o
        t = mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])
        return t
    if isinstance(o, ColsV):
        if name in ("tolist", "to_list", "copy", "to_numpy"):
            return o
        if name == "isin":
            return mk("in", mk("colname", self.term(o.ref, st)), canon_coll(self.term(args[0], st)))
        return mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])
    if isinstance(o, TupV):
        return mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])
    if isinstance(o, T):
        return self.t_method(o, name, args, kws, st, n)
    return mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])


def list_method(self, o, c, name, args, kws, st, n):
    if name == "append":
        st.heap[o.id] = ListC(c.parts + (args[0],), c.kind)
        return NONE
    if name == "add":
        t = self.term(args[0], st)
        if not any(not isinstance(p, Splice) and self.term(p, st) is t for p in c.parts):
            st.heap[o.id] = ListC(c.parts + (args[0],), c.kind)
        return NONE
    if name in ("extend", "update") and args:
        st.heap[o.id] = ListC(c.parts + tuple(self.as_parts(args[0], st)), c.kind)
        return NONE
    if name == "insert" and len(args) == 2 and c.known() and num(self.term(args[0], st)) is not None:
        ps = list(c.parts)
        ps.insert(int(num(self.term(args[0], st))), args[1])
        st.heap[o.id] = ListC(ps, c.kind)
        return NONE
    if name == "count" and c.known() and len(args) == 1:
        return mk("call", ".count", mk("list", *[self.term(p, st) for p in c.parts]), self.term(args[0], st))
    if name == "copy":
        return self.new(st, c)
    if name == "tolist":
        return o
    if name == "remove" and c.known():
        t = self.term(args[0], st)
        ps = list(c.parts)
        for i, p in enumerate(ps):
            if self.term(p, st) is t:
                del ps[i]
                st.heap[o.id] = ListC(ps, c.kind)
                return NONE
    if name == "index" and c.known() and args:
        t = self.term(args[0], st)
        for i, p in enumerate(c.parts):
            if self.term(p, st) is t:
                return const(i)
    if name == "pop" and c.known() and c.parts:
        i = int(num(self.term(args[0], st))) if args and num(self.term(args[0], st)) is not None else -1
        if -len(c.parts) <= i < len(c.parts):
            ps = list(c.parts)
            v = ps.pop(i)
            st.heap[o.id] = ListC(ps, c.kind)
            return v
    if name in ("sort", "reverse", "clear", "remove", "pop", "insert", "discard", "difference_update", "intersection_update"):
        t = mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])
        if name == "clear":
            st.heap[o.id] = ListC([], c.kind)
        elif name == "sort" and False:
            pass
        else:
            st.heap[o.id] = ListC([Splice(mk("mut", name, self.term(o, st), *[self.term(a, st) for a in args], *[mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())]))], c.kind)
        return t if name == "pop" else NONE
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        nm = {"union": "set|", "intersection": "set&", "difference": "set-", "symmetric_difference": "set^"}[name]
        t = canon_coll(self.term(o, st))
        for a in args:
            x = canon_coll(self.term(a, st))
            if nm != "set-":
                t, x = sorted((t, x), key=lambda q: q.dig)
            t = mk("call", nm, t, x)
        return self.new(st, ListC([Splice(t)], "set"))
    if name == "issubset" or name == "issuperset":
        x, y = (o, args[0]) if name == "issubset" else (args[0], o)
        b = self.term(y, st)

        def subset(a):
            while a.op == "call" and a.args[0] in ("set", "list", "tuple") and len(a.args) == 2:
                a = a.args[1]
            if a.op in ("list", "set", "tuple"):
                return and_(*[truth(self.contains(z, y, st, n)) for z in a.args])
            if a.op == "ite":
                return ite(a.args[0], subset(a.args[1]), subset(a.args[2]))
            if self.known_items(y, st) is not None:
                L, e, g = self.domain(canon_coll(a), st)
                return self.forall(L, or_(not_(g), truth(self.contains(e, y, st, n))))
            return mk("issub", canon_coll(a), canon_coll(b))
        return subset(self.term(x, st))
    return mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])


def dict_method(self, o, c, name, args, kws, st, n):
    if name == "get":
        kt = self.term(args[0], st)
        d = args[1] if len(args) > 1 else NONE
        has = self.contains(args[0], o, st, n)
        if has is TRUE:
            return self.getitem(o, args[0], st, n)
        if has is FALSE:
            return d
        v = self.getitem(o, args[0], st, n)
        if isinstance(v, T) and isinstance(d, T):
            return ite(has, v, d)
        return IteV(has, v, d)
    if name == "items" and c.rest is None:
        return self.new(st, ListC([TupV([k, v]) for k, v in c.items]))
    if name == "keys" and c.rest is None:
        return self.new(st, ListC([k for k, _ in c.items]))
    if name == "values" and c.rest is None:
        return self.new(st, ListC([v for _, v in c.items]))
    if name == "copy":
        return self.new(st, c)
    if name == "update":
        items = list(c.items)
        rest = c.rest
        if args:
            oc = self.cell(args[0], st)
            if isinstance(oc, DictC):
                for k, v in oc.items:
                    kt = self.term(k, st)
                    items = [(a, b) for a, b in items if self.term(a, st) is not kt] + [(k, v)]
                if oc.rest is not None:
                    rest = oc.rest if rest is None else mk("rest2", rest, oc.rest)
            else:
                t = self.term(args[0], st)
                rest = t if rest is None else mk("rest2", rest, t)
        for k, v in kws.items():
            items = [(a, b) for a, b in items if self.term(a, st) is not const(k)] + [(const(k), v)]
        st.heap[o.id] = DictC(items, rest)
        return NONE
    if name == "pop" and args:
        kt = self.term(args[0], st)
        v = self.dict_method(o, c, "get", args, {}, st, n)
        st.heap[o.id] = DictC([(a, b) for a, b in c.items if self.term(a, st) is not kt], c.rest)
        return v
    if name == "setdefault" and args:
        has = self.contains(args[0], o, st, n)
        if has is TRUE:
            return self.getitem(o, args[0], st, n)
        if has is FALSE:
            st.heap[o.id] = DictC(list(c.items) + [(args[0], args[1] if len(args) > 1 else NONE)], c.rest)
            return args[1] if len(args) > 1 else NONE
    if name in ("items", "keys", "values"):
        return mk("call", "." + name, self.term(o, st))
    return mk("call", "." + name, self.term(o, st), *[self.term(a, st) for a in args])


def t_method(self, o, name, args, kws, st, n):
    """method of an opaque term"""
    from .interp import RNG_METHODS, is_strish
    if name == "dot" and len(args) == 1 and not kws and not is_rng(o):
        return dot(o, self.term(args[0], st))
    if name == "__call__":
        return self.call_value(o, args, kws, st, n)
    if name == "setdefault" and args and not kws and (is_dictish(o) or o.op == "global"):
        k = self.term(args[0], st)
        has = mk("in", k, o)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = and_(st.pc, not_(has)), and_(st.pc, has)
        d = args[1] if len(args) > 1 else NONE
        f = getattr(n, "func", None)
        self.setitem_v(o, k, d, s1, n, f.value if isinstance(f, ast.Attribute) else None)
        m = self.merge(not_(has), s1, s2, st.pc)
        st.env, st.heap = m.env, m.heap
        return ite(has, mk("item", o, k), self.term(d, st))
    if o.op == "logger":
        if name in ("error", "critical", "exception", "warning", "info", "debug", "warn", "log"):
            self.eff(st, "log", name, args, kws, n)
            return NONE
        t = mk("call", "." + name, o)
        self.eff(st, "mcall", name, [o] + list(args), kws, n, t)
        return t
    if o.op == "attr" and o.args[1] == "error" and False:
        return NONE
    if o.op == "cellmask":
        b, rows, anyc, allc, kind = o.args
        if name in ("to_numpy",) and not args:
            return mk("cellmask", b, rows, anyc, allc, "array")
        if name in ("any", "all"):
            ax = axis_of(self, args, kws, 0, st)
            axis_none = (kws.get("axis", args[0] if args else None) is NONE)
            if ax == 1:
                return SerV(RowCtx(b, rows, NONE, mk("nolabels"), "R"), anyc if name == "any" else allc, "series" if kind == "frame" else "array")
            if ax in (None, 0) and kind == "frame" and not axis_none:
                return mk("cellmask", b, rows, anyc, allc, "columns:" + name)
            if kind in ("array", "frame") or kind == "columns:" + name:
                return rebuild("anyrows", (mk("rows", b, rows, NONE), anyc)) if name == "any" else rebuild("allrows", (mk("rows", b, rows, NONE), allc))
    if name in RNG_METHODS and is_rng(o):
        return draw(self, o, name, args, kws, st, n)
    if name == "copy" and not args:
        return o
    if name in ("endswith", "startswith") and len(args) == 1 and isinstance(args[0], T) and args[0].op == "const" and isinstance(args[0].args[0], str):
        return affix(o, name, args[0])
    if name in ("to", "to_value") and len(args) == 1 and not kws:
        v = units.to(o, self.term(args[0], st))
        if v is not None:
            return v if name == "to" else units.value(v)
    if name in ("tolist", "to_numpy", "to_list", "flatten", "ravel", "squeeze") and not args:
        return o
    if name == "format" and is_strish(o):
        return str_format(self, o, args, kws, st)
    if name == "join" and o.op == "const" and len(args) == 1:
        ps = self.known_items(args[0], st)
        if ps and all(isinstance(x, T) for x in ps):
            return concat(*[x for p in ps for x in (o, p)][1:])
        t = self.term(args[0], st)
        d = t.args[0] if t.op == "poly" else ()
        if len(d) == 1 and dict(d) == {m: 1 for m in dict(d)}:
            # one character a number of times, separated
            m = [x for x in list(dict(d))[0]]
            s = [x for x, e in m if x.op == "const" and isinstance(x.args[0], str) and len(x.args[0]) == 1 and e == 1]
            if len(s) == 1:
                k = functools.reduce(mul, [pow_(x, const(e)) for x, e in m if x is not s[0]], ONE)
                return concat(mul(sub(k, ONE), const(s[0].args[0] + o.args[0])), s[0])
        return mk("call", ".join", o, t)
    if name in ("casefold", "lower") and o.op == "const" and isinstance(o.args[0], str):
        return const(o.args[0].lower())
    if name in ("casefold", "lower"):
        return mk("call", ".lower", o)
    if o.op == "const" and isinstance(o.args[0], str) and all(isinstance(a, T) and is_const(a) for a in args) and name in ("upper", "strip", "startswith", "endswith", "replace", "split", "lstrip", "rstrip", "rpartition", "partition", "title"):
        r = getattr(o.args[0], name)(*[pyval(a) for a in args])
        if isinstance(r, (list, tuple)):
            return self.new(st, ListC([const(x) for x in r]))
        return const(r)
    if name in ("get",) and args:
        k = self.term(args[0], st)
        ov = st.heap.get(("item", o.dig, k.dig))
        if ov is not None:
            return ov
        d = self.term(args[1], st) if len(args) > 1 else NONE
        return ite(mk("in", k, o), mk("item", o, k), d) if is_dictish(o) or o.op == "global" else mk("call", ".get", o, k, d)
    r = groups.group_method(self, o, name, args, kws, st, n)
    if r is not None:
        return r
    if name in ("all", "any") and not args and not kws:
        return anyall(name, o) if isbool(o) else mk("truthy", mk("call", "." + name, o))
    if name in ("keys",) and not args:
        return mk("call", ".keys", o)
    if name == "executemany" and len(args) == 2 and not kws:
        L, e, g = self.domain(args[1], st)
        self.loopdepth += 1
        try:
            pc0 = st.pc
            st.pc = and_(st.pc, mk("inloop", L), g)
            t_method(self, o, "execute", [args[0], e], {}, st, n)
            st.pc = pc0
        finally:
            self.loopdepth -= 1
        return o
    if name in ("fetchall", "fetchone", "fetchmany"):
        o = st.heap.get(("item", o.dig, const("#query").dig), o)
    ts = [self.term(a, st) for a in args] + [mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())]
    if name in ("readline", "readlines", "read", "fetchone", "fetchmany", "fetchall") and not (name == "read" and args):
        # reading moves on: the next reading gives what follows
        k = st.heap.get(("reads", o.dig), ZERO)
        if isinstance(k, T):
            st.heap[("reads", o.dig)] = add(k, ONE)
            if k is not ZERO:
                ts.append(mk("kw", "#nth", k))
    t = mk("call", "." + name, o, *ts)
    if name == "execute":
        st.heap[("item", o.dig, const("#query").dig)] = t
    if name in ("integrate_or_interpolate", "integrate") and args:
        # what a simulation holds from here on is its state at that time
        st.heap[("epoch",)] = self.term(args[0], st)
    self.eff(st, "mcall", name, [o] + list(args), kws, n, t)
    # loop-carried frames etc. are not modelled for opaque receivers
    if name in self.__dict__.get("frame_methods", ()):
        return self.new(st, FrameC(t, index="R"))
    return t


def affix(o, name, w):
    """string o begins or ends with the constant w"""
    if o.op == "ite":
        return ite(o.args[0], affix(o.args[1], name, w), affix(o.args[2], name, w))
    if o.op == "const" and isinstance(o.args[0], str):
        return TRUE if getattr(o.args[0], name)(w.args[0]) else FALSE
    return mk("truthy", mk("call", "." + name, o, w))


def is_dictish(o):
    return o.op in ("item", "sym", "attr", "call", "mu") or o.op == "dict"


def is_rng(o):
    if o.op == "call" and ("rng" in str(o.args[0]).lower() or "default_rng" in str(o.args[0]) or "RandomState" in str(o.args[0])):
        return True
    if o.op == "sym" and "rng" in o.args[0].lower():
        return True
    if o.op == "attr" and "rng" in o.args[1].lower():
        return True
    if o.op == "ite":
        return is_rng(o.args[1]) or is_rng(o.args[2])
    if o.op in ("item",):
        return is_rng(o.args[0])
    return False


def str_format(self, o, args, kws, st):
    from .interp import to_str
    if o.op != "const":
        return mk("call", ".format", o, *[self.term(a, st) for a in args])
    import string
    parts = []
    i = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(o.args[0]):
            parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                v = args[i] if i < len(args) else mk("missing")
                i += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else mk("missing")
            else:
                v = kws.get(field, mk("fmtfield", field))
            t = self.term(v, st)
            parts.append(mk("fmt", t, const(spec)) if spec else to_str(t))
    except ValueError:
        return mk("call", ".format", o, *[self.term(a, st) for a in args])
    return concat(*parts)


def str_method(self, o, name, args, kws, st, n):
    return self.t_method(o, name, args, kws, st, n)
