"""Abstract interpreter: builds a gated value graph for functions of the repository.

Structured (syntax-directed) walk; branches are joined with gate (ite) nodes, loops are
summarised with binders over their iteration domain (map / forall / exists / sum / fold),
calls to repository functions are inlined unless declared opaque.  pandas/numpy are given a
row-level semantics: a frame is (base rows, keep-predicate, column terms, index state).
Nothing of the repository is executed.
"""
from . import units
import ast
from .terms import *
from .values import *
from .program import AnalysisError, _flat

NUMPY1 = {"sqrt", "exp", "log", "log10", "log2", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "asin", "acos",
          "atan", "abs", "absolute", "fabs", "square", "radians", "deg2rad", "degrees", "rad2deg", "isnan", "floor",
          "ceil", "negative", "logical_not", "isfinite", "sign", "sinh", "cosh", "tanh", "log1p", "expm1", "rint", "round"}
CANON = {"absolute": "abs", "fabs": "abs", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "deg2rad": "radians",
         "rad2deg": "degrees", "atan2": "arctan2", "pow": "power", "float_power": "power"}
RNG_METHODS = {"random", "normal", "uniform", "multivariate_normal", "integers", "choice", "standard_normal", "rand",
               "randn", "randint", "permutation", "shuffle", "random_sample", "exponential", "poisson", "beta"}
TRANSPARENT = {"numpy.array", "numpy.asarray", "numpy.atleast_1d", "numpy.ravel", "numpy.copy", "copy.copy",
               "copy.deepcopy", "numpy.squeeze", "numpy.asanyarray", "numpy.float64", "numpy.ascontiguousarray"}
FSWRITES = {"to_csv", "to_hdf", "to_pickle", "to_parquet", "to_json", "os.remove", "os.unlink", "os.rename", "os.replace", "shutil.copy", "shutil.copyfile", "shutil.rmtree",
            "shutil.move", "builtins.open", "open", "sqlite3.connect", "pandas.HDFStore", "os.mkdir", "os.makedirs"}
EXC_BASES = {"Exception", "BaseException"}


class St:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.pc)

    @property
    def dead(self):
        return self.pc is FALSE


class Eff:
    """one recorded effect; pc = condition under which it happens"""
    __slots__ = ("kind", "name", "args", "kws", "pc", "where", "node", "heap", "ret", "seq", "mod", "stack")

    def __repr__(self):
        return "%s %s(%s) @%s if %s" % (self.kind, self.name, ", ".join(map(repr, self.args)), self.where, show(self.pc, 5))


class Frame:
    """one activation"""

    def __init__(self, func, mod):
        self.func, self.mod = func, mod
        self.returns = []
        self.loops = []       # stack of dict(breaks=[], continues=[])
        self.tries = []


class LoopRec:
    """summary of a loop for rules that look inside"""
    __slots__ = ("L", "kind", "init", "end", "mus", "cond", "breaks", "body_effects", "where", "node", "pc", "elem", "continues", "norm_end", "entry")


def fname(f):
    return f.qual


def only_item(t):
    """the element of a list that has exactly one on every way"""
    if t.op == "list" and len(t.args) == 1:
        return t.args[0]
    if t.op == "ite":
        a, b = only_item(t.args[1]), only_item(t.args[2])
        return ite(t.args[0], a, b) if a is not None and b is not None else None
    return None


_lb = {}


def surely(c):
    """the condition holds whatever its atoms are"""
    if c is TRUE:
        return True
    try:
        return equal(c, TRUE, 300)[0]
    except Undecided:
        return False


def relevant(c):
    """the condition without the atoms it does not depend on"""
    at = atoms_of(c)
    if len(at) > 10:
        return c
    for d in sorted(at):
        a, b = assume(c, {d: True}), assume(c, {d: False})
        if a is b or surely(or_(and_(a, b), and_(not_(a), not_(b)))):
            c = a
    return c


def leading_break(n):
    """`while c: if d: break; ...` as `while c and not d: ...`"""
    if id(n) in _lb:
        return _lb[id(n)][1]
    tests, body = [] if isinstance(n.test, ast.Constant) and n.test.value else [n.test], list(n.body)
    while len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not n.orelse:
        tests.append(ast.UnaryOp(ast.Not(), body.pop(0).test))
    m = n
    if len(body) < len(n.body):
        t = tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
        m = ast.copy_location(ast.While(t, body, []), n)
        ast.fix_missing_locations(m)
    _lb[id(n)] = (n, m)
    return m


def merge_only(c, a, b):
    """the columns of a table that is `a` where c holds, else `b`: those of one side only are there under a condition"""
    if a == b or a is None or b is None:
        return a if a == b else None
    if any(x.op == "whole" for x in a + b):
        return None
    da = {(x.args[1] if x.op == "colif" else x): (x.args[0] if x.op == "colif" else TRUE) for x in a}
    db = {(x.args[1] if x.op == "colif" else x): (x.args[0] if x.op == "colif" else TRUE) for x in b}
    la, lb = [x for x in da if x in db], [x for x in db if x in da]
    if la != lb:
        return None
    out, rest = [], list(db)
    for x in da:
        if x in db:
            while rest[0] is not x:
                out.append(rest.pop(0))
            rest.pop(0)
        out.append(x)
    out += rest
    r = []
    for x in out:
        k = ite(c, da.get(x, FALSE), db.get(x, FALSE))
        r.append(x if k is TRUE else mk("colif", k, x))
    return tuple(r)


_counted = {}      # while loop over a counter -> for loop
_filled = {}       # function -> parameters it may fill


class Interp:
    def __init__(self, prog, opaque=(), ret_frames=(), max_depth=24, opaque_fn=None, frame_specs=None, max_steps=400000):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_fn = opaque_fn
        self.ret_frames = dict((r, None) if isinstance(r, str) else r for r in ret_frames)
        self.max_depth = max_depth
        self.effects = []
        self.quiet = 0
        self.loops = []
        self.notes = []
        self.defaults = {}
        self.aligns = []
        self.nid = 0
        self.frames = []
        self.steps = 0
        self.max_steps = max_steps
        self.analysed = {}
        self.modbusy = set()
        self.modheap = {}
        self.gnames = {}
        self.loopdepth = 0
        self.hooks = {}
        self.loopsys = {}
        self.halts = {}        # loop -> condition of the first iteration that leaves it
        self.boolmus = set()

    # ---------------------------------------------------------------- helpers
    def new(self, st, cell):
        self.nid += 1
        st.heap[self.nid] = cell
        return Ref(self.nid)

    def cell(self, v, st):
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if c is None:
                c = self.modheap.get(v.id)
            return c
        return None

    def where(self, node=None):
        f = self.frames[-1] if self.frames else None
        m = f.mod.rel if f else "?"
        fn = f.func if f else "?"
        return "%s:%s (%s)" % (m, getattr(node, "lineno", "?"), fn)

    def note(self, kind, msg, node=None):
        if not self.quiet:
            self.notes.append((kind, msg, self.where(node)))

    def eff(self, st, kind, name, args=(), kws=None, node=None, ret=None):
        if self.quiet or st.dead:
            return None
        e = Eff()
        e.kind, e.name, e.args, e.kws, e.pc, e.where, e.node, e.ret = kind, name, list(args), kws or {}, st.pc, self.where(node), node, ret
        e.heap = st.heap.copy()
        e.seq = len(self.effects)
        e.mod = self.frames[-1].mod.name if self.frames else "?"
        e.stack = tuple(f.func for f in self.frames)
        self.effects.append(e)
        if kind in ("ext", "mcall") and name in FSWRITES:
            p = kws.get("path_or_buf") if kws else None
            i = 1 if kind == "mcall" else 0
            if p is None and len(args) > i:
                p = args[i]
            if name in ("builtins.open", "open"):
                m = kws.get("mode") if kws else None
                m = m if m is not None else args[1] if len(args) > 1 else const("r")
                if isinstance(m, T) and m.op == "const" and "r" in str(m.args[0]) and "+" not in str(m.args[0]):
                    p = None
            if isinstance(p, T):
                for k in (("files", p.dig), ("files",)):
                    v = st.heap.get(k, ZERO)
                    if isinstance(v, T):
                        st.heap[k] = add(v, ONE)
        return e

    def files_seen(self, name, ts, st):
        """what a look at the files gives after the run has made or removed some: another answer than before"""
        k = ("files",) if name in ("glob.glob", "os.listdir", "os.scandir") else ("files", ts[0].dig) if name in ("os.path.exists", "os.path.isfile", "os.path.getsize") and ts else None
        v = st.heap.get(k, ZERO) if k else ZERO
        return [mk("kw", "#after", v)] if isinstance(v, T) and v is not ZERO else []

    # ---------------------------------------------------------------- snapshots
    def term(self, v, st, depth=0):
        """snapshot a value into a term"""
        if isinstance(v, T):
            return v
        if v is None:
            return NONE
        if isinstance(v, (bool, int, float, str)):
            return const(v)
        if depth > 12:
            return mk("deep")
        if isinstance(v, TupV):
            return mk("tuple", *[self.term(x, st, depth + 1) for x in v.items])
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC):
                k = "set" if c.kind == "set" else "list"
                t = lcat(k, *[p.t if isinstance(p, Splice) else mk(k, self.term(p, st, depth + 1)) for p in c.parts])
                if k == "set" and t.op not in ("set", "lcat") and not (t.op == "call" and t.args[0] in ("set", "set|", "set&", "set-", "set^")):
                    t = mk("call", "set", t)
                return t
            if isinstance(c, DictC):
                it = [mk("kv", self.term(k, st, depth + 1), self.term(x, st, depth + 1)) for k, x in c.items]
                if c.rest is not None:
                    it.append(mk("rest", c.rest))
                return mk("dict", *it)
            if isinstance(c, FrameC):
                return self.frame_term(c, st)
            if isinstance(c, ObjC):
                items = tuple(sorted(((k, self.term(x, st, depth + 1)) for k, x in c.attrs.items() if k != "__self__"), key=lambda kx: kx[0]))
                return mk("obj", c.cls.qual if isinstance(c.cls, ClassV) else str(c.cls), items)
            if v.id in self.gnames:
                return mk("global", self.gnames[v.id])
            return mk("ref", v.id)
        if isinstance(v, SerV):
            return mk("ser", v.ctx.term(), v.elem)
        if isinstance(v, MatT):
            return mk("matT", *[self.term(x, st, depth + 1) for x in v.comps])
        if isinstance(v, IdxV):
            return mk("labels", v.ctx.term(), v.ctx.lineage)
        if isinstance(v, PosV):
            return mk("positions", v.ctx.term(), v.elem)
        if isinstance(v, FuncV):
            if isinstance(v.node, ast.Lambda) or (v.closure is not None and v.self_ is None):
                return self.lam_term(v, st)
            return mk("func", v.qual or "?") if v.self_ is None else mk("boundfunc", v.qual or "?", self.term(v.self_, st, depth + 1))
        if isinstance(v, ClassV):
            return mk("class", v.qual)
        if isinstance(v, ModV):
            return mk("mod", v.name)
        if isinstance(v, ExtV):
            return mk("ext", v.name)
        if isinstance(v, BndV):
            return mk("bound", self.term(v.obj, st, depth + 1), v.name)
        if isinstance(v, ColsV):
            c = self.cell(v.ref, st)
            return rebuild("columns", (self.frame_term(c, st) if isinstance(c, FrameC) else self.term(v.ref, st),))
        if isinstance(v, IteV):
            return ite(v.c, self.term(v.a, st, depth + 1), self.term(v.b, st, depth + 1))
        if isinstance(v, PartialV):
            return mk("partial", self.term(v.fn, st), *[self.term(x, st) for x in v.args])
        if isinstance(v, StrV):
            return mk("straccessor", self.term(v.ser, st))
        if isinstance(v, LocV):
            return mk("loc", v.kind, self.term(v.ref, st))
        if isinstance(v, SuperV):
            return mk("super")
        return mk("unknownvalue", type(v).__name__)

    def lam_term(self, f, st):
        """a function value as the term of its body over bound variables"""
        d = self.__dict__.setdefault("lamdepth", 0)
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        req = ps[:len(ps) - len(f.node.args.defaults)] if f.node.args.defaults else ps
        if d > 3:
            return mk("lambda", ast.dump(f.node))
        xs = [sym("\u03bb%d.%d" % (d, i)) for i in range(len(req))]
        self.lamdepth = d + 1
        self.quiet += 1
        notes, al = list(self.notes), list(self.aligns)
        try:
            s = St(dict(st.env), dict(st.heap), TRUE)
            v, s2 = self.call_func(f, xs, {}, s, None)
            return mk("lam", len(xs), self.term(v, s2), s2.pc)
        finally:
            self.notes[:], self.aligns[:] = notes, al
            self.quiet -= 1
            self.lamdepth = d

    def frame_term(self, c, st=None):
        cols = tuple(sorted(((k if isinstance(k, T) else const(k), v) for k, v in c.cols.items()
                             if v is not col(c.base, k)), key=lambda kv: kv[0].dig))
        gone = {(k if isinstance(k, T) else const(k)).dig for k in c.dropped}
        only = mk("only", *[k for k in c.only if (k if isinstance(k, T) else const(k)).dig not in gone]) if c.only is not None else NONE
        dropped = () if c.only is not None else tuple(sorted(c.dropped, key=lambda t: t.dig))
        if c.rows is TRUE and not cols and only is NONE and not dropped and c.order is NONE:
            return c.base
        return mk("frame", c.base, c.rows, cols, dropped, only, c.order)

    # ---------------------------------------------------------------- merging
    def rel(self, pc, entry):
        """pc relative to entry"""
        if pc is entry:
            return TRUE
        if entry is TRUE:
            return pc
        es = set(x.dig for x in (entry.args if entry.op == "and" else (entry,)))
        if pc.op == "and":
            return and_(*[x for x in pc.args if x.dig not in es])
        if pc.dig in es:
            return TRUE
        return pc

    def merge_val(self, c, a, b, sa, sb, so, seen=None):
        """value under c: a (in sa) else b (in sb); result valid in heap so"""
        if a is b or (isinstance(a, Ref) and a == b):
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, SerV) and isinstance(b, SerV) and a.ctx.base is b.ctx.base and a.ctx.rows is b.ctx.rows:
            return SerV(a.ctx, ite(c, a.elem, b.elem), a.kind)
        if isinstance(a, SerV) and isinstance(b, T):
            return SerV(a.ctx, ite(c, a.elem, b), a.kind)
        if isinstance(b, SerV) and isinstance(a, T):
            return SerV(b.ctx, ite(c, a, b.elem), b.kind)
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.merge_val(c, x, y, sa, sb, so) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.cell(a, sa), self.cell(b, sb)
            m = self.merge_cell(c, ca, cb, sa, sb, so)
            if m is not None:
                return self.new(so, m)
        if isinstance(a, (FuncV, ExtV, ClassV, ModV)) and type(a) is type(b) and self.term(a, sa) is self.term(b, sb):
            return a
        return IteV(c, a, b)

    def merge_dropped(self, c, ca, cb):
        """columns certainly gone: dropped on both sides, or on one and not there on the other (`if x in columns: drop x`)"""
        if ca.dropped == cb.dropped:
            return ca.dropped
        out = set(ca.dropped & cb.dropped)
        out |= {t for t in ca.dropped - cb.dropped if and_(not_(c), self.has_col(cb, t)) is FALSE}
        out |= {t for t in cb.dropped - ca.dropped if and_(c, self.has_col(ca, t)) is FALSE}
        return frozenset(out)

    def merge_cell(self, c, ca, cb, sa, sb, so):
        if ca is cb:
            return ca
        if isinstance(ca, FrameC) and isinstance(cb, FrameC):
            if ca.base is cb.base:
                cols = {}
                for k in list(ca.cols) + [k for k in cb.cols if k not in ca.cols]:
                    x = ca.cols.get(k, col(ca.base, k))
                    y = cb.cols.get(k, col(cb.base, k))
                    cols[k] = ite(c, x, y)
                idx = ca.index if ca.index == cb.index else ("G" if "G" in (ca.index, cb.index) and "?" not in (ca.index, cb.index) else "?")
                lin = ca.lineage if ca.lineage is cb.lineage else ite(c, ca.lineage, cb.lineage)
                return FrameC(ca.base, ite(c, ca.rows, cb.rows), cols, self.merge_dropped(c, ca, cb),
                              merge_only(c, ca.only, cb.only), ite(c, ca.order, cb.order), idx, lin)
            idx = ca.index if ca.index == cb.index else ("G" if set((ca.index, cb.index)) <= {"G", "R"} else "?")
            base = ite(c, self.frame_term(ca), self.frame_term(cb))
            return FrameC(base, index=idx)
        if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.kind == cb.kind:
            if len(ca.parts) == len(cb.parts) and not any(isinstance(p, Splice) for p in ca.parts + cb.parts):
                return ListC([self.merge_val(c, x, y, sa, sb, so) for x, y in zip(ca.parts, cb.parts)], ca.kind)
            # common prefix
            n = 0
            while n < min(len(ca.parts), len(cb.parts)) and (ca.parts[n] is cb.parts[n] or (isinstance(ca.parts[n], Splice) and isinstance(cb.parts[n], Splice) and ca.parts[n].t is cb.parts[n].t)):
                n += 1

            def rest(cl, s):
                ps = cl.parts[n:]
                if not ps:
                    return mk("list")
                if len(ps) == 1 and isinstance(ps[0], Splice):
                    return ps[0].t
                return lcat("list", *[p.t if isinstance(p, Splice) else mk("list", self.term(p, s)) for p in ps])
            return ListC(list(ca.parts[:n]) + [Splice(ite(c, rest(ca, sa), rest(cb, sb)))], ca.kind)
        if isinstance(ca, DictC) and isinstance(cb, DictC):
            if ca.rest is cb.rest:
                ka = {self.term(k, sa): v for k, v in ca.items}
                kb = {self.term(k, sb): v for k, v in cb.items}
                keys = []
                for k, _ in ca.items:
                    keys.append((self.term(k, sa), k))
                for k, _ in cb.items:
                    if self.term(k, sb) not in ka:
                        keys.append((self.term(k, sb), k))
                if all(is_const(t) for t, _ in keys) or [t for t, _ in keys] == list(ka) == list(kb):
                    out = []
                    for t, k in keys:
                        x, y = ka.get(t), kb.get(t)
                        miss = mk("missing")
                        out.append((k, self.merge_val(c, x if x is not None else miss, y if y is not None else miss, sa, sb, so)))
                    return DictC(out, ca.rest)
            return DictC([], ite(c, self._dict_term(ca, sa), self._dict_term(cb, sb)))
        if isinstance(ca, ObjC) and isinstance(cb, ObjC) and (ca.cls is cb.cls or getattr(ca.cls, "qual", 1) == getattr(cb.cls, "qual", 2)):
            at = {}
            miss = mk("missing")
            for k in list(ca.attrs) + [k for k in cb.attrs if k not in ca.attrs]:
                x = ca.attrs.get(k, miss)
                y = cb.attrs.get(k, miss)
                if (x is miss or y is miss) and isinstance(ca.cls, ClassV):
                    # not set on one way: the class's own value shows through
                    d = self.class_attr(ca.cls, k, so)
                    if isinstance(d, T):
                        x, y = d if x is miss else x, d if y is miss else y
                at[k] = self.merge_val(c, x, y, sa, sb, so)
            return ObjC(ca.cls, at)
        if isinstance(ca, T) and isinstance(cb, T):
            return ite(c, ca, cb)
        return None

    def _dict_term(self, c, st):
        it = [mk("kv", self.term(k, st), self.term(x, st)) for k, x in c.items]
        if c.rest is not None:
            if not it:
                return c.rest
            it.append(mk("rest", c.rest))
        return mk("dict", *it)

    def merge(self, c, a, b, pc=None):
        """state under c: a, else b"""
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        so = St({}, {}, pc if pc is not None else or_(a.pc, b.pc))
        ids = set(a.heap) | set(b.heap)
        conflict = []
        for i in ids:
            x, y = a.heap.get(i), b.heap.get(i)
            if x is y or y is None:
                so.heap[i] = x
            elif x is None:
                so.heap[i] = y
            else:
                conflict.append(i)
                so.heap[i] = x
        for i in conflict:
            x, y = a.heap[i], b.heap[i]
            m = self.merge_cell(c, x, y, a, b, so)
            if m is None:
                m = ListC([Splice(ite(c, self.term(Ref(i), a), self.term(Ref(i), b)))])
            so.heap[i] = m
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k), b.env.get(k)
            if x is None:
                so.env[k] = y if y is not None else None
                if isinstance(y, T):
                    so.env[k] = ite(c, mk("unbound", k), y)
                elif y is not None:
                    so.env[k] = y
            elif y is None:
                so.env[k] = ite(c, x, mk("unbound", k)) if isinstance(x, T) else x
            else:
                so.env[k] = self.merge_val(c, x, y, a, b, so)
        return so

    # ---------------------------------------------------------------- modules
    def modenv(self, m):
        if m.env is not None and m.env.get("__interp__") is self:
            return m.env
        env = {"__interp__": self, "__name__": const(m.name), "__file__": const(m.path)}
        m.env = env
        st = St(env, self.modheap, TRUE)
        fr = Frame("<module>", m)
        self.frames.append(fr)
        self.quiet += 1
        try:
            for s in m.tree.body:
                try:
                    st2 = self.stmt(s, st)
                    if st2 is not st:
                        env.update(st2.env)
                        self.modheap.update(st2.heap)
                        st = St(env, self.modheap, TRUE)
                except AnalysisError:
                    raise
        finally:
            self.quiet -= 1
            self.frames.pop()
        for k, v in env.items():
            if isinstance(v, Ref):
                self.gnames.setdefault(v.id, "%s:%s" % (m.name, k))
        return env

    def import_name(self, modname, level, cur):
        if level:
            parts = cur.name.split(".")
            if not cur.is_pkg:
                parts = parts[:-1]
            if level > 1:
                parts = parts[: -(level - 1)]
            return ".".join(parts + ([modname] if modname else []))
        return modname

    def resolve_from(self, modname, name):
        """from modname import name"""
        if modname in self.prog.modules:
            sub = modname + "." + name
            m = self.prog.modules[modname]
            if m.name in self.modbusy:
                # import cycle: look syntactically
                for n in _flat(m.tree.body):
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return FuncV(n, m, qual="%s:%s" % (m.name, self.prog.canonical(m.name, None, name)))
                    if isinstance(n, ast.ClassDef) and n.name == name:
                        return ClassV(n, m, "%s:%s" % (m.name, name))
            env = self.modenv(m)
            if name in env:
                return env[name]
            if sub in self.prog.modules:
                return ModV(sub)
            for n in _flat(m.tree.body):
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return FuncV(n, m, qual="%s:%s" % (m.name, name))
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return ClassV(n, m, "%s:%s" % (m.name, name))
            x = self.prog.renamed(modname, None, name)
            if x is not None:
                return FuncV(x, m, qual="%s:%s" % (modname, name))
            return ExtV(modname + "." + name)
        return ExtV(modname + "." + name)

    # ---------------------------------------------------------------- running
    def get_func(self, qual):
        m, cls, node = self.prog.find(qual)
        if isinstance(node, ast.ClassDef):
            return ClassV(node, m, qual)
        cv = ClassV(cls, m, "%s:%s" % (m.name, cls.name)) if cls is not None else None
        return FuncV(node, m, cls=cv, qual=qual)

    def run(self, qual, args=None, st=None, self_=None, defaults=False):
        f = self.get_func(qual) if isinstance(qual, str) else qual
        st = st or St({}, {}, TRUE)
        if self_ is not None:
            f = f.bind(self_)
        params = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        args = dict(args or {})
        if f.self_ is not None:
            params = params[1:]
        nodef = set(params)
        if defaults:
            ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
            nodef -= set(ps[len(ps) - len(f.node.args.defaults):] if f.node.args.defaults else [])
            nodef -= {a.arg for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None}
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        for p, d in list(zip(ps[::-1], f.node.args.defaults[::-1])) + list(zip([a.arg for a in f.node.args.kwonlyargs], f.node.args.kw_defaults)):
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                FLAGS.add(p)
        for p in params:
            if p not in args and p in nodef:
                args[p] = sym(p)
        unknown = [k for k in args if k not in params]
        for k in unknown:
            if f.node.args.kwarg is None:
                raise AnalysisError("anchor changed: %s has no parameter %r" % (f.qual, k))
        if self.frames == []:
            pass
        v, st2 = self.call_func(f, [], args, st, None, force=True)
        return v, st2

    def frame_in(self, st, name="observations", index="R"):
        return self.new(st, FrameC(sym(name), index=index))

    # ---------------------------------------------------------------- calls
    def bind_args(self, f, args, kws, st, node, starargs=None):
        a = f.node.args
        params = a.posonlyargs + a.args
        vals = {}
        args = list(args)
        if f.self_ is not None and not _is_static(f.node):
            args = [f.self_] + args
        names = [p.arg for p in params]
        for n, v in zip(names, args):
            vals[n] = v
        extra = args[len(names):]
        if a.vararg is not None:
            vals[a.vararg.arg] = self.new(st, ListC(extra, "tuple"))
        elif extra:
            self.note("arity", "too many arguments to %s" % f.qual, node)
        kwextra = []
        allnames = names + [p.arg for p in a.kwonlyargs]
        for k, v in kws.items():
            if k in allnames:
                vals[k] = v
            elif k == "**":
                pass
            else:
                kwextra.append((const(k), v))
        if a.kwarg is not None:
            rest = None
            if "**" in kws:
                rest = self.term(kws["**"], st)
            vals[a.kwarg.arg] = self.new(st, DictC(kwextra, rest))
        elif kwextra:
            self.note("arity", "unexpected keyword %s to %s" % (kwextra[0][0], f.qual), node)
        # defaults
        defs = a.defaults
        if defs:
            for p, d in zip(params[-len(defs):], defs):
                if p.arg not in vals:
                    vals[p.arg] = self.default(d, f, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.default(d, f, st)
        # a keyword given only under a condition: the default otherwise
        for p, d in list(zip(params[-len(defs):] if defs else [], defs)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
            v = vals.get(p.arg)
            if isinstance(v, T) and v.op == "ite" and contains(v, lambda x: x.op == "missing"):
                dv = self.default(d, f, st)
                if isinstance(dv, T):
                    def fill(t):
                        if t.op == "missing":
                            return dv
                        if t.op == "ite":
                            return ite(t.args[0], fill(t.args[1]), fill(t.args[2]))
                        return t
                    vals[p.arg] = fill(v)
        for n in allnames:
            if n not in vals:
                vals[n] = sym("missing:" + n)
                if "**" not in kws and "*" not in (starargs or ()):
                    self.note("arity", "missing argument %s to %s" % (n, f.qual), node)
        return vals

    def default(self, d, f, st):
        s = St(self.modenv(f.mod) if f.closure is None else f.closure, st.heap, st.pc)
        self.frames.append(Frame(f.qual, f.mod))
        try:
            return self.ev(d, s)
        finally:
            self.frames.pop()

    def call_func(self, f, args, kws, st, node, force=False, starargs=None):
        """call a repository function; returns (value, state)"""
        if st.dead:
            return NONE, st
        qual = f.qual or "<lambda>"
        h = self.hooks.get(qual)
        if h is not None and not force:
            r = h(self, f, args, kws, st, node)
            if r is not None:
                return r
        depth = len(self.frames)
        rec = sum(1 for fr in self.frames if fr.func == qual and qual != "<lambda>" and fr.func != "?")
        is_op = (qual in self.opaque or (self.opaque_fn is not None and self.opaque_fn(qual)))
        if not force and (is_op or depth > self.max_depth or rec > 1):
            return self.opaque_call(f, args, kws, st, node, starargs), st
        decos = self.own_decorators(f)
        if decos:
            v = FuncV(f.node, f.mod, f.cls, f.closure, None, f.qual, True)
            for d in reversed(decos):
                v = self.call_value(d, [v], {}, st, node)
            return self.call_value(v, ([f.self_] if f.self_ is not None else []) + list(args), kws, st, node), st
        vals = self.bind_args(f, args, kws, st, node, starargs)
        self.analysed[qual] = self.analysed.get(qual, 0) + 1
        if isinstance(f.node, ast.Lambda):
            env = dict(f.closure or {})
            env.update(vals)
            s = St(env, st.heap, st.pc)
            fr = Frame("<lambda>", f.mod)
            self.frames.append(fr)
            try:
                v = self.ev(f.node.body, s)
            finally:
                self.frames.pop()
            st.heap = s.heap
            st.pc = s.pc
            return v, st
        env = dict(f.closure) if f.closure else {}
        env.update(vals)
        s = St(env, dict(st.heap), st.pc)
        fr = Frame(qual, f.mod)
        fr.f = f
        self.frames.append(fr)
        try:
            if _is_generator(f.node):
                ygen = self.new(s, ListC([]))
                s.env["__yield__"] = ygen
                s2 = self.block(f.node.body, s)
                fr.returns.append((s2, ygen)) if not s2.dead else None
            else:
                s2 = self.block(f.node.body, s)
                if not s2.dead:
                    fr.returns.append((s2, NONE))
        finally:
            self.frames.pop()
        if not fr.returns:
            st2 = St(st.env, s.heap, FALSE)
            self._sync(st, st2)
            return NONE, st
        filled = {k: e for k, e in self.filled(f, node, len(args)).items() if any(s1.env.get(k) is not vals.get(k) for s1, _ in fr.returns)}

        def kept(s1, v):
            return St({"$r": v, **{"$" + k: s1.env[k] for k in filled if k in s1.env}}, s1.heap, s1.pc)
        rs, rv = fr.returns[-1]
        rs = kept(rs, rv)
        for ps, pv in reversed(fr.returns[:-1]):
            c = self.rel(ps.pc, st.pc)
            rs = self.merge(c, kept(ps, pv), rs)
        rv = rs.env["$r"]
        st.heap = dict(rs.heap)
        st.pc = self._restore(st.pc, rs.pc)
        for k, e in filled.items():
            v = rs.env.get("$" + k)
            if v is None or v is vals.get(k):
                continue
            if isinstance(e, ast.Name):
                if e.id in st.env:
                    st.env[e.id] = v
            else:
                self.setattr_(self.ev(e.value, st), e.attr, v, st, e)
        return rv, st

    def own_decorators(self, f):
        """the decorators of a function that are functions of the repository"""
        out = []
        if f.plain or undecorated(f):
            return out
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            if isinstance(e, ast.Name):
                v = (f.closure or {}).get(e.id) or self.modenv(f.mod).get(e.id)
                if isinstance(v, FuncV):
                    self.frames.append(Frame("<module>", f.mod))
                    try:
                        v = self.ev(d, St(dict(f.closure or {}), self.modheap, TRUE))
                    finally:
                        self.frames.pop()
                    if isinstance(v, FuncV):
                        out.append(v)
        return out

    def filled(self, f, node, count):
        """parameters whose elements the function sets (and which it does not rebind), with the variable or attribute given for them"""
        if not isinstance(node, ast.Call) or len(node.args) != count or any(isinstance(a, ast.Starred) for a in node.args):
            return {}
        got = _filled.get(f.node)
        if got is None:
            stores = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            got = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    got.add(x.value.id)
                elif isinstance(x, ast.Call):
                    got |= {a.id for a in list(x.args) + [k.value for k in x.keywords] if isinstance(a, ast.Name)}
            got -= stores
            _filled[f.node] = got
        ps = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        if f.self_ is not None:
            ps = ps[1:]
        given = dict(zip(ps, node.args))
        given.update({k.arg: k.value for k in node.keywords if k.arg})
        return {k: e for k, e in given.items() if k in got and isinstance(e, (ast.Name, ast.Attribute))}

    def _restore(self, entry, pc):
        return pc

    def _sync(self, st, st2):
        st.heap, st.pc = st2.heap, st2.pc

    def opaque_call(self, f, args, kws, st, node, starargs=None):
        vals = self.bind_args(f, args, kws, st, node, starargs)
        order = [p.arg for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if f.node.args.vararg:
            order.append(f.node.args.vararg.arg)
        if f.node.args.kwarg:
            order.append(f.node.args.kwarg.arg)
        if f.self_ is not None and order:
            pass
        ts = tuple(mk("kw", n, self.term(vals[n], st)) for n in order if n in vals)
        t = mk("call", f.qual, *ts)
        e = self.eff(st, "opaque", f.qual, [vals.get(n) for n in order], dict((n, vals.get(n)) for n in order), node, t)
        rf = self.ret_frames.get(f.qual, 0)
        if rf != 0:
            index = rf or "R"
            r = self.new(st, FrameC(t, index=index))
            if e is not None:
                e.ret = r
            return r
        return t

    # generic external call
    def ext_call(self, name, args, kws, st, node, kind="ext"):
        ts = [self.term(a, st) for a in args] + [mk("kw", k, self.term(v, st)) for k, v in sorted(kws.items())]
        ts += self.files_seen(name, ts, st)
        t = mk("call", name, *ts)
        self.eff(st, kind, name, args, kws, node, t)
        return t

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return st
            st = self.stmt(s, st)
        return st

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("analysis budget exceeded in %s" % self.where(n))
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("unsupported", "statement %s" % type(n).__name__, n)
            return st
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        self.ev(n.value, st)
        return st

    def s_Pass(self, n, st):
        return st

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        if st.dead:
            return st
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)
        return st

    def s_AugAssign(self, n, st):
        load = _as_load(n.target)
        old = self.ev(load, st)
        v = self.ev(n.value, st)
        c = self.cell(old, st)
        if isinstance(c, ListC) and isinstance(n.op, ast.Add):
            st.heap[old.id] = ListC(c.parts + tuple(self.as_parts(v, st)), c.kind)
            return st
        self.assign(n.target, self.binop(n.op, old, v, st, n), st)
        return st

    def as_parts(self, v, st):
        c = self.cell(v, st)
        if isinstance(c, ListC):
            return list(c.parts)
        if isinstance(v, TupV):
            return list(v.items)
        t = self.term(v, st)
        if t.op in ("list", "tuple"):
            return list(t.args)
        if t.op == "lcat":
            out = []
            for x in t.args[1:]:
                out += list(x.args) if x.op == t.args[0] else [Splice(x)]
            return out
        return [Splice(t)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in getattr(fr, "globals_", ()):
                self.modenv(fr.mod)[t.id] = v
                self.eff(st, "setglobal", fr.mod.name + "." + t.id, [v], node=t)
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                at = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - at - 1
                st.env["<starred>"] = v
                for i, e in enumerate(t.elts):
                    k = ast.Constant(value=i) if i <= at else ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=len(t.elts) - i))
                    if isinstance(e, ast.Starred):
                        up = ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=after)) if after else None
                        k = ast.Slice(lower=k if i else None, upper=up, step=None)
                        e = e.value
                    x = ast.Subscript(value=ast.Name(id="<starred>", ctx=ast.Load()), slice=k, ctx=ast.Load())
                    self.assign(e, self.ev(ast.fix_missing_locations(ast.copy_location(x, t)), st), st)
                st.env.pop("<starred>", None)
                return
            if isinstance(v, TupV) and len(v.items) == len(t.elts):
                for e, x in zip(t.elts, v.items):
                    self.assign(e, x, st)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(i), st, t), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.setitem(o, t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note("unsupported", "assignment target %s" % type(t).__name__, t)

    def setattr_(self, o, name, v, st, node):
        if isinstance(o, IteV):
            s1, s2 = st.copy(), st.copy()
            self.setattr_(o.a, name, v, s1, node)
            self.setattr_(o.b, name, v, s2, node)
            m = self.merge(o.c, s1, s2, st.pc)
            st.env, st.heap = m.env, m.heap
            return
        c = self.cell(o, st)
        if isinstance(c, ObjC):
            at = dict(c.attrs)
            at[name] = v
            st.heap[o.id] = ObjC(c.cls, at)
            self.eff(st, "setattr", name, [o, v], node=node)
            return
        if isinstance(c, FrameC):
            if name == "index":
                st.heap[o.id] = c.rep(index="?", lineage=mk("relabel", c.lineage))
            elif name == "columns":
                ks = self.known_items(v, st)
                if ks and c.only is not None and len(ks) == len(c.only) and all(x.op == "const" for x in c.only) and all(isinstance(x, T) and x.op == "const" for x in ks) \
                        and len(set(ks)) == len(ks):
                    # new names for known columns, in order
                    vals = [c.cols.get(x.args[0], col(c.base, x.args[0])) for x in c.only]
                    st.heap[o.id] = FrameC(c.base, c.rows, {k.args[0]: e for k, e in zip(ks, vals)}, c.dropped | (set(c.only) - set(ks)), tuple(ks), c.order, c.index, c.lineage)
                    return
                st.heap[o.id] = FrameC(mk("setcolumns", self.frame_term(c), self.term(v, st)), index=c.index)
            return
        ot = self.term(o, st)
        st.heap[("attr", ot.dig, name)] = v if not isinstance(v, (Ref,)) else v
        self.eff(st, "setattr", name, [o, v], node=node, ret="reach")

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        if not st.dead:
            fr = self.frames[-1]
            rs = St(st.env, dict(st.heap), st.pc)
            fr.returns.append((rs, v))
            if fr.loops:
                # a return inside a loop: remember for the loop summary
                fr.loops[-1].setdefault("rets", []).append(len(fr.returns) - 1)
        return St(st.env, st.heap, FALSE)

    def s_If(self, n, st):
        return self.branch(self.truth(self.ev(n.test, st), st, n.test), n.body, n.orelse, st, n)

    def branch(self, c, body, orelse, st, n=None):
        if st.dead:
            return st
        if c is TRUE:
            return self.block(body, st)
        if c is FALSE:
            return self.block(orelse, st)
        p1 = and_(st.pc, c)
        p2 = and_(st.pc, not_(c))
        if p1 is FALSE:
            return self.block(orelse, st)
        if p2 is FALSE:
            return self.block(body, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = p1, p2
        r1 = self.block(body, s1)
        r2 = self.block(orelse, s2)
        if r1.dead and r2.dead:
            return r2
        pc = st.pc if (r1.pc is p1 and r2.pc is p2) else None
        if pc is None and not r1.dead and not r2.dead:
            pc = or_(r1.pc, r2.pc)
        return self.merge(c, r1, r2, pc)

    def s_Raise(self, n, st):
        v = self.ev(n.exc, st) if n.exc is not None else mk("reraise")
        self.eff(st, "raise", self.exc_name(v, st), [v], node=n)
        fr = self.frames[-1]
        for f in reversed(self.frames):
            if f.tries:
                f.tries[-1]["raised"].append((st.pc, st))
                break
        return St(st.env, st.heap, FALSE)

    def raise_now(self, st, name, what, n):
        """a library operation that certainly fails"""
        self.eff(st, "raise", name, [what], node=n)
        for f in reversed(self.frames):
            if f.tries:
                f.tries[-1]["raised"].append((st.pc, st))
                break
        st.pc = FALSE

    def missing_column(self, st, c, kt, n):
        """inside a `try` that handles KeyError: a column the table may not have"""
        for f in reversed(self.frames):
            if f.tries:
                if f.tries[-1]["keyerror"]:
                    has = self.has_col(c, kt)
                    if not is_const(has):
                        f.tries[-1]["raised"].append((and_(st.pc, not_(has)), st))
                        st.pc = and_(st.pc, has)
                        f.tries[-1].setdefault("missing", set()).add(has)
                return

    def exc_name(self, v, st):
        t = self.term(v, st)
        if t.op == "call":
            return str(t.args[0])
        if t.op == "ext":
            return t.args[0]
        return show(t, 3)

    def s_Assert(self, n, st):
        c = self.truth(self.ev(n.test, st), st, n.test)
        s = st.copy()
        s.pc = and_(st.pc, not_(c))
        self.eff(s, "raise", "AssertionError", [], node=n)
        st.pc = and_(st.pc, c)
        return st

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                c = self.cell(o, st)
                k = self.ev(t.slice, st)
                if isinstance(c, FrameC):
                    self.frame_dropcols(o, [k], st)
                elif isinstance(c, DictC):
                    kt = self.term(k, st)
                    st.heap[o.id] = DictC([(a, b) for a, b in c.items if self.term(a, st) is not kt], c.rest)
        return st

    def s_Global(self, n, st):
        fr = self.frames[-1]
        fr.globals_ = set(getattr(fr, "globals_", ())) | set(n.names)
        return st

    s_Nonlocal = s_Pass

    def s_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.env[a.asname] = self.modval(a.name)
            else:
                top = a.name.split(".")[0]
                st.env[top] = self.modval(top)
        return st

    def modval(self, name):
        return ModV(name) if name in self.prog.modules else ExtV(name)

    def s_ImportFrom(self, n, st):
        mod = self.import_name(n.module, n.level, self.frames[-1].mod)
        for a in n.names:
            if a.name == "*":
                if mod in self.prog.modules:
                    for k, v in self.modenv(self.prog.modules[mod]).items():
                        if not k.startswith("_"):
                            st.env.setdefault(k, v)
                continue
            st.env[a.asname or a.name] = self.resolve_from(mod, a.name)
        return st

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        nested = fr.func != "<module>"
        q = "%s:%s" % (fr.mod.name, self.prog.canonical(fr.mod.name, None, n.name)) if not nested else "%s.<locals>.%s" % (fr.func, n.name)
        f = FuncV(n, fr.mod, closure=st.env if nested else None, qual=q)
        if nested:
            f.closure = st.env
        for d in n.decorator_list:
            pass
        st.env[n.name] = f
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        fr = self.frames[-1]
        st.env[n.name] = ClassV(n, fr.mod, "%s:%s" % (fr.mod.name, n.name))
        return st

    def s_With(self, n, st):
        ends = []
        for it in n.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            t = self.term(v, st) if isinstance(v, T) else None
            if t is not None and t.op == "call" and t.args[0] in ("pandas.HDFStore", "builtins.open"):
                ends.append((t, "close"))
            elif t is not None and t.op == "call" and t.args[0] == "sqlite3.connect":
                ends.append((t, "commit"))
        pc = st.pc
        st = self.block(n.body, st)
        for t, name in reversed(ends):
            s = st.copy()
            if name == "close":
                s.pc = pc
            self.eff(s, "mcall", name, [t], node=n)
        return st

    def s_Try(self, n, st):
        fr = self.frames[-1]
        pre = st.copy()
        rec = {"raised": [], "node": n}
        htypes = []
        for h in n.handlers:
            htypes.append(self.term(self.ev(h.type, pre.copy()), pre) if h.type is not None else const("any"))
        rec["keyerror"] = any(contains(h, lambda x: x.op == "ext" and x.args[0] in ("builtins.KeyError", "builtins.LookupError")) for h in htypes)
        fr.tries.append(rec)
        e0 = len(self.effects)
        try:
            body = self.block(n.body, st.copy())
        finally:
            fr.tries.pop()
        # which calls in the body could raise: identity of the exception atom = the calls made
        names = []
        for x in self.effects[e0:]:
            if x.kind in ("ext", "opaque", "mcall", "class"):
                names.append(x.ret if isinstance(x.ret, T) else const(x.name))
        if not names:
            names = [const(ast.dump(ast.Module(body=n.body, type_ignores=[])))] if self.quiet else [const("nocalls")]
        exc_pc = or_(*[self.rel(p, pre.pc) for p, _ in rec["raised"]]) if rec["raised"] else FALSE
        outs = []
        if not body.dead and n.orelse:
            body = self.block(n.orelse, body)
        cur = body
        for h, ht in zip(n.handlers, htypes):
            atom = mk("exc", ht, *_dedup(names))
            cond = or_(exc_pc, atom)
            if exc_pc is not FALSE and not any(x.op == "call" for x in names if isinstance(x, T) and x.op != "const"):
                pass
            hs = pre.copy()
            hs.pc = and_(pre.pc, cond)
            # variables assigned in the body are unknown in the handler
            for name in _assigned(n.body):
                old = pre.env.get(name)
                if isinstance(old, T):
                    hs.env[name] = mk("maybe", old, atom)
            if h.name:
                hs.env[h.name] = mk("excval", ht, *_dedup(names))
            hs = self.block(h.body, hs)
            if cur is not None and not cur.dead:
                cur2 = cur.copy()
                cur2.pc = and_(cur.pc, not_(atom))
                cur = cur2
            if hs.dead:
                # a missing column ends the run either way
                if rec.get("missing") and cur is not None and not cur.dead:
                    cur = cur.copy()
                    cur.pc = subst(cur.pc, lambda x: TRUE if x in rec["missing"] else None)
                continue
            cur = self.merge(cond, hs, cur) if cur is not None and not cur.dead else hs
        if cur is None:
            cur = body
        if n.finalbody:
            if cur.dead:
                # run for effects
                f = pre.copy()
                self.block(n.finalbody, f)
            else:
                cur = self.block(n.finalbody, cur)
        return cur

    # ---------------------------------------------------------------- loops
    def s_Break(self, n, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["breaks"].append(st.copy())
        return St(st.env, st.heap, FALSE)

    def s_Continue(self, n, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["continues"].append(st.copy())
        return St(st.env, st.heap, FALSE)

    def iterated(self, e, st):
        """what a loop goes over; the positions of a list that depends on a condition stay the positions of that list"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and len(e.args) == 1 and not e.keywords:
            a = e.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 and isinstance(a.args[0], ast.Name):
                v = st.env.get(a.args[0].id)
                if isinstance(v, IteV) or isinstance(v, T) and v.op == "ite":
                    t = self.term(v, st)
                    if t.op == "ite":
                        return mk("call", "range", mk("len", t))
        return self.ev(e, st)

    def s_For(self, n, st):
        it = self.iterated(n.iter, st)
        if st.dead:
            return st
        known = self.known_items(it, st)
        if known is not None and len(known) <= 40:
            return self.unroll(n, known, st)
        dom, elem, guard = self.domain(it, st)
        return self.loop(n, st, dom, elem, None, guard)

    s_AsyncFor = s_For

    def unroll(self, n, items, st):
        fr = self.frames[-1]
        brks = []
        for x in items:
            if st.dead:
                break
            fr.loops.append({"breaks": [], "continues": []})
            self.assign(n.target, x, st)
            st = self.block(n.body, st)
            L = fr.loops.pop()
            for cs in L["continues"]:
                st = self.merge(self.rel(cs.pc, TRUE), cs, st) if not st.dead else cs
            brks += L["breaks"]
        if n.orelse and not st.dead:
            st = self.block(n.orelse, st)
        for bs in brks:
            st = self.merge(self.rel(bs.pc, TRUE), bs, st) if not st.dead else bs
        return st

    def known_items(self, v, st):
        if isinstance(v, TupV):
            return list(v.items)
        c = self.cell(v, st)
        if isinstance(c, ListC) and c.known():
            return list(c.parts)
        if isinstance(c, DictC) and c.rest is None:
            return [k for k, _ in c.items]
        if isinstance(v, T) and v.op in ("list", "tuple"):
            return list(v.args)
        if isinstance(v, T) and v.op == "const" and isinstance(v.args[0], str):
            return [const(x) for x in v.args[0]]
        if isinstance(v, T) and v.op == "call" and v.args[0] == "range":
            ns = [num(a) for a in v.args[1:]]
            if all(x is not None for x in ns):
                r = range(*[int(x) for x in ns])
                if len(r) <= 40:
                    return [const(i) for i in r]
        if isinstance(v, T) and v.op == "call" and v.args[0] == "enumerate" and len(v.args) == 2:
            k = self.known_items(v.args[1], st)
            if k is not None:
                return [TupV([const(i), x]) for i, x in enumerate(k)]
        if isinstance(v, T) and v.op == "call" and v.args[0] == "zip":
            ks = [self.known_items(a, st) for a in v.args[1:]]
            if ks and all(k is not None for k in ks):
                return [TupV(z) for z in zip(*ks)]
            if ks and any(k is not None for k in ks):
                n = min(len(k) for k in ks if k is not None)
                return [TupV([k[i] if k is not None else self.getitem(a, const(i), st, None) for k, a in zip(ks, v.args[1:])]) for i in range(n)]
        return None

    def domain(self, it, st):
        """(domain term, function idx_term -> element value)"""
        d = self.loopdepth
        t = self.term(it, st)
        if t.op == "call" and t.args[0] in ("list", "tuple", "iter") and len(t.args) == 2:
            t = t.args[1]
        k = st.heap.get(("reads", t.dig), ZERO)
        if isinstance(k, T) and k is not ZERO:
            t = mk("call", "remaining", t, k)
        if t.op == "map" and len(t.args) == 3:
            Lm, x, cond = t.args
            L = mk("loop", Lm.args[0], d)
            f = lambda y: L if y is Lm else None
            memo = {}
            return L, self.unterm(subst(x, f, memo)), subst(cond, f, memo)
        if t.op == "call" and t.args[0] == "enumerate":
            base = t.args[1]
            L = mk("loop", base, d)
            i = mk("idx", L)
            off = t.args[2] if len(t.args) > 2 else ZERO
            if off.op == "kw":
                off = off.args[1]
            return L, TupV([add(i, off), self.elem_of(base, i, L)]), TRUE
        if t.op == "call" and t.args[0] == "zip":
            base = t.args[1]
            L = mk("loop", base, d)
            i = mk("idx", L)
            return L, TupV([self.elem_of(b, i, L) for b in t.args[1:]]), TRUE
        if t.op == "call" and t.args[0] == "range" and len(t.args) == 2:
            b = t.args[1]
            base = b.args[0] if b.op == "len" else t
            L = mk("loop", base, d)
            return L, mk("idx", L), TRUE
        if t.op == "call" and t.args[0] == "range" and len(t.args) == 3:
            lo, hi = t.args[1:]
            base = mk("call", "range", sub(hi, lo))
            L = mk("loop", base, d)
            return L, add(lo, mk("idx", L)), TRUE
        if t.op == "call" and t.args[0] == ".items":
            base = t.args[1]
            L = mk("loop", base, d)
            k = mk("item", base, mk("idx", L))
            return L, TupV([k, mk("item", base, k)]), TRUE
        if t.op == "call" and t.args[0] in (".keys",):
            base = t.args[1]
            L = mk("loop", base, d)
            return L, mk("item", base, mk("idx", L)), TRUE
        L = mk("loop", t, d)
        i = mk("idx", L)
        return L, self.elem_of(t, i, L), TRUE

    def unterm(self, t):
        if t.op == "tuple":
            return TupV([self.unterm(x) for x in t.args])
        return t

    def elem_of(self, t, i, L):
        if t.op == "call" and t.args[0] in ("set", "frozenset"):
            return mk("member", t, L)
        if t.op == "dict":
            return mk("item", t, i)
        if t.op == "map" and t.args[2] is TRUE:
            # element of a mapped list: substitute the index
            Lm = t.args[0]
            im = mk("idx", Lm)
            r = subst(t.args[1], lambda x: i if x is im else None)
            if not depends(r, Lm):
                return r
        return mk("item", t, i)

    def counted(self, n, st):
        """`while i < end: …; i += 1` over a counter that starts at a number: the same loop over a range"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and not n.orelse and len(n.body) > 1):
            return None
        i, end = (t.left, t.comparators[0]) if isinstance(t.ops[0], ast.Lt) else (t.comparators[0], t.left) if isinstance(t.ops[0], ast.Gt) else (None, None)
        if not isinstance(i, ast.Name) or i.id not in st.env:
            return None
        lo = st.env[i.id]
        s = n.body[-1]
        if isinstance(s, ast.AugAssign):
            ok = isinstance(s.target, ast.Name) and s.target.id == i.id and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1
        else:
            ok = isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i.id and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
                and sorted((ast.unparse(s.value.left), ast.unparse(s.value.right))) == sorted((i.id, "1"))
        if not ok or not (isinstance(lo, T) and num(lo) is not None):
            return None
        body = n.body[:-1]

        def own(ss):
            for x in ss:
                if isinstance(x, ast.Continue):
                    yield x
                if not isinstance(x, (ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        q = getattr(x, fld, None)
                        if isinstance(q, list):
                            yield from own(q)
        if any(True for _ in own(body)):
            return None
        fixed = {x.id for x in ast.walk(end) if isinstance(x, ast.Name)}
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and (x.id == i.id or x.id in fixed):
                    return None
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in fixed and not isinstance(end, ast.Name):
                    return None         # the bound may be of something the body changes
        if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(end)):
            return None
        new = _counted.get(n)
        if new is None:
            arg = [end] if num(lo) == 0 else [ast.Constant(int(num(lo))), end]
            rng = ast.Call(ast.Name("range", ast.Load()), arg, [])
            last = ast.Assign([ast.Name(i.id, ast.Store())], ast.Call(ast.Name("max", ast.Load()), [ast.Constant(int(num(lo))), end], []))
            new = ast.For(ast.Name(i.id, ast.Store()), rng, body, [last])
            for x in ast.walk(new):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
            for x in (rng, last, new):
                ast.copy_location(x, n)
            f = getattr(self.frames[-1], "f", None)
            inside = {id(x) for x in ast.walk(n)}
            if f is not None and not any(isinstance(x, ast.Name) and x.id == i.id and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(f.node)):
                new.orelse = []
            _counted[n] = new
        return new

    def s_While(self, n, st):
        k = self.counted(n, st)
        if k is not None:
            return self.stmt(k, st)
        c = leading_break(n)
        return self.loop(c, st, None, None, c.test)

    def loop(self, n, st, L, elem, test, guard=TRUE):
        """generic loop summary"""
        fr = self.frames[-1]
        d = self.loopdepth
        entry = st.copy()
        changed_env, changed_heap = set(_assigned(n.body)), set()
        changed_env |= set(_target_names(n.target)) if test is None else set()
        if L is None:
            L = mk("loop", mk("while", const(d)), d)
        marks = (len(self.effects), len(self.loops), len(self.aligns), len(self.notes))
        e0 = marks[0]
        induct = {}
        fixed = {}      # columns of a table the body leaves alone
        for attempt in range(10):
            s = entry.copy()
            del self.effects[marks[0]:], self.loops[marks[1]:], self.aligns[marks[2]:], self.notes[marks[3]:]
            self.loopdepth += 1
            frets = len(fr.returns)
            fr.loops.append({"breaks": [], "continues": []})
            try:
                mus = {}
                for k in sorted(changed_env):
                    if k in induct:
                        s.env[k] = add(entry.env[k], mul(induct[k], mk("idx", L)))
                    elif k in entry.env:
                        s.env[k] = self.mu_value(L, k, entry.env[k], entry, s, mus)
                for h in sorted(changed_heap, key=repr):
                    if h in entry.heap:
                        s.heap[h] = self.mu_cell(L, h, entry.heap[h], entry, mus, fixed.get(h, ()))
                body_entry_env, body_entry_heap = dict(s.env), dict(s.heap)
                inl = mk("inloop", L)
                s.pc = and_(entry.pc, inl)
                cond = TRUE
                if test is not None:
                    cond = self.truth(self.ev(test, s), s, test)
                    s.pc = and_(s.pc, cond)
                else:
                    self.assign(n.target, elem, s)
                bpc = s.pc
                if guard is not TRUE:
                    skip = s.copy()
                    s.pc = and_(s.pc, guard)
                    end = self.block(n.body, s)
                    norm_end = end
                    if end.dead:
                        skip.pc = and_(bpc, not_(guard))
                        end = skip
                    else:
                        end = self.merge(guard, end, skip, bpc if end.pc is s.pc else or_(end.pc, and_(bpc, not_(guard))))
                else:
                    end = self.block(n.body, s)
                    norm_end = end
                lp = fr.loops.pop()
                for cs in lp["continues"]:
                    c = self.rel(cs.pc, bpc)
                    end = self.merge(c, cs, end) if not end.dead else cs
                brk = lp["breaks"]
            finally:
                self.loopdepth -= 1
            env_ch, heap_ch = set(changed_env), set(changed_heap)
            for x in [end] + brk:
                if x.dead:
                    continue
                for k, v in x.env.items():
                    if k in body_entry_env and body_entry_env[k] is not v:
                        env_ch.add(k)
                for h, cc in x.heap.items():
                    if h in body_entry_heap and body_entry_heap[h] is not cc:
                        heap_ch.add(h)
            if env_ch == changed_env and heap_ch == changed_heap:
                if test is None and not brk and not end.dead and not induct:
                    for k in sorted(changed_env):
                        if k in entry.env and isinstance(entry.env[k], T) and isinstance(end.env.get(k), T) and entry.env[k].op in ("const", "num"):
                            m = mk("mu", L, str(k))
                            r = sub(end.env[k], m)
                            if end.env[k].op == "poly" and num(r) is not None:
                                induct[k] = r
                    if induct:
                        del fr.returns[frets:]
                        continue
                fx = {}
                for h in changed_heap:
                    ci = entry.heap.get(h)
                    if not isinstance(ci, FrameC):
                        continue
                    keep = set()
                    for kk in ["#rows"] + list(ci.cols):
                        mus_ = mk("mu", L, "%s#%s" % (self.cellname(h, entry), kk if kk != "#rows" else "rows"))
                        ok = True
                        for x in [end] + brk:
                            cb = x.heap.get(h) if not x.dead else None
                            if cb is None:
                                continue
                            v = cb.rows if isinstance(cb, FrameC) and kk == "#rows" else cb.cols.get(kk) if isinstance(cb, FrameC) else None
                            if v is not (mus_ if kk not in fixed.get(h, ()) else (ci.rows if kk == "#rows" else ci.cols[kk])):
                                ok = False
                        if ok:
                            keep.add(kk)
                    if keep:
                        fx[h] = keep
                if fx != fixed and attempt < 8:
                    fixed = fx if attempt < 6 else {}
                    del fr.returns[frets:]
                    continue
                break
            changed_env, changed_heap = env_ch, heap_ch
            del fr.returns[frets:]
        else:
            self.note("loop", "loop did not stabilise", n)
        # summarise
        rec = LoopRec()
        rec.L, rec.kind, rec.node, rec.where, rec.cond, rec.pc = L, ("while" if test is not None else "for"), n, self.where(n), cond, entry.pc
        rec.entry, rec.end, rec.norm_end, rec.breaks, rec.mus, rec.elem = entry, end, norm_end, brk, mus, elem
        rec.continues = lp["continues"]
        rec.body_effects = self.effects[e0:]
        if not self.quiet:
            self.loops.append(rec)
        out = St(dict(entry.env), dict(entry.heap), entry.pc)
        # new heap cells created in the body stay reachable
        if not end.dead:
            for h, c in end.heap.items():
                if h not in out.heap:
                    out.heap[h] = c
        stop = or_(*[self.rel(b.pc, bpc) for b in brk]) if brk else FALSE
        body = and_(entry.pc, inl)
        self.join_returns(fr, frets, body)
        rets = or_(*[self.rel(rs.pc, body) for rs, _ in fr.returns[frets:]])
        alive = or_(self.rel(end.pc, body) if not end.dead else FALSE, *[self.rel(b.pc, body) for b in brk])
        # the first iteration that leaves the loop, in whichever way, decides
        H = None
        if test is None and (rets is not FALSE or stop is not FALSE):
            dies = not_(or_(alive, rets))
            if rets is FALSE or len(fr.returns) == frets + 1:
                H = relevant(or_(rets, stop, dies))
                if H is rets or H is stop:
                    H = None
        self.halts[L.dig] = H
        ends = {}
        allst = end
        for b in brk:
            for h, c in b.heap.items():
                if h not in out.heap:
                    out.heap[h] = c
            allst = self.merge(self.rel(b.pc, bpc), b, allst) if not allst.dead else b
        g = TRUE
        if test is not None:
            g = cond
        if not allst.dead:
            bodyvals = {}
            for k in sorted(changed_env):
                if k in allst.env and k in entry.env:
                    bodyvals[("e", k)] = (entry.env[k], allst.env[k])
            for h in sorted(changed_heap, key=repr):
                if h in allst.heap and h in entry.heap:
                    bodyvals[("h", h)] = (entry.heap[h], allst.heap[h])
            sysm = {}
            for (kind, k), (init, b) in bodyvals.items():
                key = str(k) if kind == "e" else self.cellname(k, entry)
                if kind == "h" and isinstance(init, (ListC, DictC)) and type(init) is type(b):
                    ti, tb = self.term_cell(init, entry), self.term_cell(b, allst)
                elif kind == "e" and isinstance(init, T) and isinstance(b, T):
                    ti, tb = init, b
                elif kind == "e" and isinstance(init, SerV) and isinstance(b, SerV):
                    ti, tb = init.elem, b.elem
                else:
                    continue
                m = mk("mu", L, key)
                sysm[m.dig] = (m, ti, tb)
            self.loopsys[L.dig] = sysm
            for k in sorted(changed_env):
                if k not in allst.env:
                    continue
                if k in induct:
                    r = induct[k]
                    out.env[k] = add(entry.env[k], mk("len", L.args[0]) if r is ONE else bind("sum", L, r))
                elif k in entry.env:
                    out.env[k] = self.summ(L, k, entry.env[k], allst.env[k], entry, allst, out, mus, stop, g)
                else:
                    out.env[k] = self.last(L, allst.env[k], allst, out, stop, g)
            for h in sorted(changed_heap, key=repr):
                if h in allst.heap and h in entry.heap:
                    out.heap[h] = self.summ_cell(L, h, entry.heap[h], allst.heap[h], entry, allst, out, mus, stop, g)
        # returns inside the loop / exits inside the loop
        halt = or_(stop, *[self.rel(rs.pc, and_(entry.pc, inl)) for rs, _ in fr.returns[frets:]])
        if halt is not FALSE and test is None and len(self.effects) > e0:
            far = not_(mk("earlier", self.exists(L, halt), mk("idx", L)))
            for e in self.effects[e0:]:
                e.pc = and_(e.pc, far)
        for i in range(frets, len(fr.returns)):
            rs, rv = fr.returns[i]
            c = self.rel(rs.pc, body)
            ex = self.exists(L, c)
            h = c
            if H is not None:
                h = H
                ex = and_(self.exists(L, h), self.first(L, h, c))

            def firsts(v):
                if isinstance(v, T):
                    return self.first(L, h, v)
                if isinstance(v, TupV):
                    return TupV([firsts(x) for x in v.items])
                return v
            fr.returns[i] = (St(rs.env, rs.heap, and_(entry.pc, ex)), firsts(rv))
        if test is not None:
            alive = or_(alive, not_(cond))
        if alive is not TRUE:
            if H is not None:
                out.pc = and_(entry.pc, or_(not_(self.exists(L, H)), self.first(L, H, stop)))
            else:
                out.pc = and_(entry.pc, self.forall(L, alive))
        if test is not None and cond is TRUE and not brk:
            out.pc = FALSE
        if getattr(n, "orelse", None) and not out.dead:
            out = self.block(n.orelse, out)
        return out

    def join_returns(self, fr, frets, base):
        """several returns in a loop body as one return of a gated value"""
        inner = fr.returns[frets:]

        def plain(v):
            return isinstance(v, T) or (isinstance(v, TupV) and all(plain(x) for x in v.items))
        if len(inner) < 2 or not all(plain(v) for _, v in inner):
            return
        st, v = inner[-1]
        for s2, v2 in reversed(inner[:-1]):
            if isinstance(v, T) != isinstance(v2, T) or (isinstance(v, TupV) and len(v.items) != len(v2.items)):
                return
            c = self.rel(s2.pc, base)
            st = self.merge(c, s2, st)
            v = self.merge_val(c, v2, v, s2, st, st)
        fr.returns[frets:] = [(st, v)]

    def exists(self, L, c):
        if c is FALSE:
            return FALSE
        if L.args[0].op == "ite" and depends(c, L):
            g, a, b = L.args[0].args
            out = []
            for base in (a, b):
                L2 = mk("loop", base, L.args[1])
                out.append(self.exists(L2, subst(c, lambda y: L2 if y is L else base if y is L.args[0] else None)))
            return ite(g, *out)
        if not depends(c, L):
            return and_(c, rebuild("nonempty", (L.args[0],))) if L.args[0].op != "while" else c
        if c.op == "or":
            return or_(*[self.exists(L, x) for x in c.args])
        c2 = open_gates(c)
        if c2 is not c:
            return self.exists(L, c2)
        if c.op == "and":
            free = [x for x in c.args if not depends(x, L)]
            if free:
                return and_(*free, self.exists(L, and_(*[x for x in c.args if depends(x, L)])))
        r = self.closed(L, "exists", c)
        return rebuild("exists", r.args) if r.op == "exists" else r

    def forall(self, L, c):
        if c is TRUE:
            return TRUE
        return not_(self.exists(L, not_(c)))

    def first(self, L, c, v):
        if not depends(v, L) or c is FALSE:
            return v
        i = mk("idx", L)
        at = self.closed(L, "first", c, i)      # the number of the first such iteration
        if at.args[0].op == "loop" and len(at.args) == 3:
            u = subst(v, lambda x: at if x is i else TRUE if x.op == "inloop" and x.args[0] is L else None)
            if not depends(u, L):
                return u
        return self.closed(L, "first", c, v)

    def mu_value(self, L, k, v, entry, s, mus):
        if isinstance(v, T):
            m = mk("mu", L, str(k))
            mus[m.dig] = ("e", k)
            if isbool(v):
                self.boolmus.add(m.dig)
            return m
        if isinstance(v, SerV):
            m = mk("mu", L, str(k))
            mus[m.dig] = ("e", k)
            if isbool(v.elem):
                self.boolmus.add(m.dig)
            return SerV(v.ctx, m, v.kind)
        if isinstance(v, Ref):
            c = self.cell(v, entry)
            if isinstance(c, FrameC):
                m = mk("mu", L, str(k))
                mus[m.dig] = ("e", k)
                r = mk("mu", L, str(k) + "#rows")
                # a re-bound frame: same base rows, unknown predicate so far
                return self.new(s, FrameC(c.base, and_(r, TRUE), {kk: mk("mu", L, "%s#%s" % (k, kk)) for kk in c.cols}, c.dropped, c.only, c.order, c.index, c.lineage))
            if isinstance(c, ListC):
                return self.new(s, ListC([Splice(mk("mu", L, str(k)))], c.kind))
            return v
        if isinstance(v, IteV):
            return mk("mu", L, str(k))
        if isinstance(v, TupV):
            return mk("mu", L, str(k))
        return v

    def default_of(self, rest):
        """what a missing key of a collections.defaultdict starts as"""
        if rest is None:
            return None
        if rest.op == "call" and rest.args[0] == "defaultdict" and len(rest.args) == 2 and rest.args[1].op == "ext" and rest.args[1].args[0] in ("builtins.list", "builtins.set"):
            return rest.args[1].args[0].split(".")[1]
        if rest.op == "rest2":
            return self.default_of(rest.args[0])
        return self.defaults.get(rest.dig)

    def mu_cell(self, L, h, c, entry, mus, fixed=()):
        key = self.cellname(h, entry)
        if isinstance(c, FrameC):
            return FrameC(c.base, c.rows if "#rows" in fixed else mk("mu", L, key + "#rows"),
                          {kk: (v if kk in fixed else mk("mu", L, "%s#%s" % (key, kk))) for kk, v in c.cols.items()}, c.dropped, c.only, c.order, c.index, c.lineage)
        if isinstance(c, ListC):
            return ListC([Splice(mk("mu", L, key))], c.kind)
        if isinstance(c, DictC):
            m = mk("mu", L, key)
            if self.default_of(c.rest):
                self.defaults[m.dig] = self.default_of(c.rest)
            return DictC([], m)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {a: (mk("mu", L, key + "." + a) if isinstance(v, T) else v) for a, v in c.attrs.items()})
        if isinstance(c, T):
            return mk("mu", L, key)
        return c

    def cellname(self, h, entry):
        for k, v in entry.env.items():
            if isinstance(v, Ref) and v.id == h:
                return str(k)
        return "cell%s" % (h,)

    def last(self, L, v, sv, out, stop, g):
        if isinstance(v, T):
            if not depends(v, L):
                return v
            return self.closed(L, "lastval", v, stop)
        return v

    def summ(self, L, k, init, b, entry, sb, out, mus, stop, g):
        if b is init:
            return init
        if isinstance(init, T) and isinstance(b, T):
            if init.op == "uninit" and stop is FALSE and g is TRUE:
                v = self.row_fill(L, mk("mu", L, str(k)), init, b)
                if v is not None:
                    return v
            return self.summ_t(L, mk("mu", L, str(k)), init, b, stop, g)
        if isinstance(init, SerV) and isinstance(b, SerV):
            return SerV(b.ctx, self.summ_t(L, mk("mu", L, str(k)), init.elem, b.elem, stop, g), b.kind)
        if isinstance(init, T) and isinstance(b, SerV):
            return SerV(b.ctx, self.summ_t(L, mk("mu", L, str(k)), init, b.elem, stop, g), b.kind)
        if isinstance(init, Ref) and isinstance(b, Ref):
            ci, cb = self.cell(init, entry), self.cell(b, sb)
            if type(ci) is type(cb):
                r = self.summ_cell(L, k, ci, cb, entry, sb, out, mus, stop, g, name=str(k))
                return self.new(out, r)
        return mk("loopval", L, str(k), self.term(init, entry), self.term(b, sb))

    def summ_cell(self, L, h, ci, cb, entry, sb, out, mus, stop, g, name=None):
        if ci is cb:
            return ci
        key = name or self.cellname(h, entry)
        if isinstance(ci, FrameC) and isinstance(cb, FrameC):
            if ci.base is not cb.base:
                return FrameC(mk("loopframe", L, self.frame_term(ci), self.frame_term(cb)), index=cb.index)
            rows = ci.rows if ci.rows is cb.rows else self.summ_t(L, mk("mu", L, key + "#rows"), ci.rows, cb.rows, stop, g)
            cols = {}
            for kk in set(ci.cols) | set(cb.cols):
                i = ci.cols.get(kk, col(ci.base, kk))
                b = cb.cols.get(kk, col(cb.base, kk))
                if b is i:
                    cols[kk] = i
                    continue
                if isinstance(kk, T) and kk not in ci.cols and depends(kk, L):
                    # one column for each item of the loop
                    cols[mk("colfam", self.mapterm(L, kk, TRUE, stop))] = self.mapterm(L, b, g, stop)
                    continue
                cols[kk] = self.summ_t(L, mk("mu", L, "%s#%s" % (key, kk)), i, b, stop, g) if kk in ci.cols else \
                    self.summ_t(L, col(cb.base, kk), i, b, stop, g)
            return FrameC(ci.base, rows, cols, ci.dropped | cb.dropped, ci.only, cb.order if cb.order is ci.order else mk("loopval", L, cb.order),
                          ci.index if ci.index == cb.index else "G", ci.lineage if ci.lineage is cb.lineage else mk("loopval", L, cb.lineage))
        if isinstance(ci, ListC) and isinstance(cb, ListC):
            mu = mk("mu", L, key)
            ps = cb.parts
            if ps and isinstance(ps[0], Splice) and ps[0].t is mu:
                app = ps[1:]
                parts = list(ci.parts)
                if not app:
                    return ci
                if len(app) == 1:
                    p = app[0]
                    if isinstance(p, Splice):
                        t = p.t
                        # conditional append: ite(c, [x], [])
                        cond, x = TRUE, None
                        if t.op == "ite" and t.args[2].op == "list" and not t.args[2].args and t.args[1].op == "list" and len(t.args[1].args) == 1:
                            cond, x = t.args[0], t.args[1].args[0]
                            parts.append(Splice(self.mapterm(L, x, cond, stop)))
                        elif t.op == "ite" and t.args[1].op == "list" and not t.args[1].args and t.args[2].op == "list" and len(t.args[2].args) == 1:
                            cond, x = not_(t.args[0]), t.args[2].args[0]
                            parts.append(Splice(self.mapterm(L, x, cond, stop)))
                        else:
                            x = only_item(t)
                            parts.append(Splice(bind("flatmap", L, t, TRUE, stop) if x is None else self.mapterm(L, x, TRUE, stop)))
                    else:
                        parts.append(Splice(self.mapterm(L, self.term(p, sb), TRUE, stop)))
                    if len(parts) == 1:
                        return ListC(parts, ci.kind)
                    return ListC(parts, ci.kind)
                t = lcat("list", *[p.t if isinstance(p, Splice) else mk("list", self.term(p, sb)) for p in app])
                return ListC(parts + [Splice(bind("flatmap", L, t, TRUE, stop))], ci.kind)
            return ListC([Splice(mk("loopval", L, key, self.term_cell(ci, entry), self.term_cell(cb, sb)))], ci.kind)
        if isinstance(ci, DictC) and isinstance(cb, DictC):
            mu = mk("mu", L, key)
            if cb.rest is not None and cb.rest.op == "rest2" and cb.rest.args[0] is mu and not cb.items and not contains(cb.rest.args[1], lambda x: x is mu):
                m_ = bind("dmap", L, cb.rest.args[1])
                return DictC(ci.items, m_ if ci.rest is None else mk("rest2", ci.rest, m_))
            if cb.rest is mu and cb.items:
                kvs = []
                for a, b in cb.items:
                    at, bt, d = self.term(a, sb), self.term(b, sb), self.cell(b, sb)
                    if isinstance(d, ListC) and d.parts and isinstance(d.parts[0], Splice) and d.parts[0].t is mk("item", mu, at) and self.default_of(mu):
                        rest = self.new(sb, ListC(d.parts[1:], d.kind))
                        rt = self.term(rest, sb)
                        if not contains(rt, lambda x: x is mu):
                            kvs.append(mk("kvmore", at, rt))
                            continue
                    kvs.append(mk("kv", at, bt))
                if len(kvs) == 1:
                    m_ = self.mapterm(L, kvs[0], TRUE, stop)
                    return DictC(ci.items, m_ if ci.rest is None else mk("rest2", ci.rest, m_))
                return DictC(ci.items, bind("dmap", L, *kvs) if ci.rest is None else mk("rest2", ci.rest, bind("dmap", L, *kvs)))
            return DictC([], mk("loopval", L, key, self._dict_term(ci, entry), self._dict_term(cb, sb)))
        if isinstance(ci, ObjC) and isinstance(cb, ObjC):
            at = {}
            for a in set(ci.attrs) | set(cb.attrs):
                i, b = ci.attrs.get(a, mk("missing")), cb.attrs.get(a, mk("missing"))
                if isinstance(i, T) and isinstance(b, T):
                    at[a] = self.summ_t(L, mk("mu", L, key + "." + a), i, b, stop, g)
                elif i is b:
                    at[a] = i
                else:
                    at[a] = self.summ(L, key + "." + a, i, b, entry, sb, out, mus, stop, g)
            return ObjC(ci.cls, at)
        if isinstance(ci, T) and isinstance(cb, T):
            return self.summ_t(L, mk("mu", L, key), ci, cb, stop, g)
        return cb

    def term_cell(self, c, st):
        i = self.new(st, c)
        return self.term(i, st)

    def mapterm(self, L, x, cond, stop=FALSE):
        base = L.args[0]
        if stop is FALSE and cond is TRUE and x is mk("item", base, mk("idx", L)):
            return base
        if stop is FALSE and cond is TRUE and x is mk("member", base, L):
            return mk("call", "list", base)
        if stop is FALSE:
            return bind("map", L, x, cond)
        return bind("map", L, x, cond, stop)

    def row_fill(self, L, mu, init, b):
        """an array filled at every position of a table, in a loop over its rows, is one value per row"""
        D = L.args[0]
        R = D.args[0] if D.op == "ser" else D
        if R.op != "rows" or b.op != "store" or b.args[0] is not mu or b.args[1] is not mk("idx", L):
            return None
        i = mk("idx", L)
        x = subst(b.args[2], lambda y: y.args[0].args[1] if y.op == "item" and y.args[1] is i and y.args[0].op == "ser" and y.args[0].args[0] is R else None)
        if depends(x, L):
            return None
        ctx = RowCtx(R.args[0], R.args[1], R.args[2], None, "?")
        if not init.args:
            return SerV(ctx, x, "array")
        n = int(num(init.args[0]))
        if x.op in ("list", "tuple", "arr") and len(x.args) == n:
            return MatT([SerV(ctx, y, "array") for y in x.args])
        return MatT([SerV(ctx, mk("item", x, const(j)), "array") for j in range(n)])

    def summ_t(self, L, mu, init, b, stop, g):
        if b is mu:
            return init
        if b is init and not depends(b, L):
            return init
        hasmu = lambda t: contains(t, lambda x: x.op == "mu" and x.args[0] is L or x is mu)
        if stop is FALSE and g is TRUE:
            if isbool(b) or isbool(init):
                if b.op == "and" and any(x is mu or (x.op == "truthy" and x.args[0] is mu) for x in b.args):
                    rest = and_(*[x for x in b.args if not (x is mu or (x.op == "truthy" and x.args[0] is mu))])
                    if not hasmu(rest):
                        return and_(truth(init), self.forall(L, rest))
                if b.op == "or" and any(x is mu or (x.op == "truthy" and x.args[0] is mu) for x in b.args):
                    rest = or_(*[x for x in b.args if not (x is mu or (x.op == "truthy" and x.args[0] is mu))])
                    if not hasmu(rest):
                        return or_(truth(init), self.exists(L, rest))
                nb = not_(b)
            # b = mu + e
            if b.op == "poly":
                r = sub(b, mu)
                if not hasmu(r):
                    return add(init, bind("sum", L, r)) if r is not ONE else add(init, mk("len", L.args[0]))
            if b.op == "ite":
                c, x, y = b.args
                if y is mu and not hasmu(c) and not hasmu(x):
                    if x is TRUE and init is FALSE:
                        return self.exists(L, c)
                    if x is FALSE and init is TRUE:
                        return not_(self.exists(L, c))
                    og = own_group(L, c, x)
                    if og is not None:
                        return og
                    if not depends(x, L):
                        return ite(self.exists(L, c), x, init)
                    return bind("lastwhere", L, c, x, init)
                if x is mu and not hasmu(c) and not hasmu(y):
                    if not depends(y, L):
                        return ite(self.exists(L, not_(c)), y, init)
                    return bind("lastwhere", L, not_(c), y, init)
                if y is mu or x is mu:
                    cc = c if y is mu else not_(c)
                    xx = x if y is mu else y
                    if not hasmu(cc):
                        r = sub(xx, mu)
                        if not hasmu(r):
                            og = own_group(L, cc, r)
                            if og is not None:
                                return add(init, og)
                            return add(init, bind("sum", L, ite(cc, r, ZERO)))
            if not hasmu(b):
                return bind("lastval", L, b, init) if depends(b, L) else ite(rebuild("nonempty", (L.args[0],)), b, init)
            if b.op == "concat" and b.args[0] is mu and not any(hasmu(x) for x in b.args[1:]):
                return concat(init, bind("join", L, concat(*b.args[1:])))
        if stop is not FALSE and g is TRUE and not hasmu(stop):
            # a flag set no later than the iteration the loop stops at
            ismu = lambda x: x is mu or (x.op == "truthy" and x.args[0] is mu)
            sets = lambda c: not hasmu(c) and or_(not_(stop), c) is TRUE
            if b.op in ("and", "or") and any(ismu(x) for x in b.args):
                rest = [x for x in b.args if not ismu(x)]
                rest = and_(*rest) if b.op == "and" else or_(*rest)
                if b.op == "and" and sets(not_(rest)):
                    return and_(truth(init), self.forall(L, rest))
                if b.op == "or" and sets(rest):
                    return or_(truth(init), self.exists(L, rest))
            if b.op == "ite" and (b.args[1] is mu or b.args[2] is mu):
                c, x = (b.args[0], b.args[1]) if b.args[2] is mu else (not_(b.args[0]), b.args[2])
                if sets(c) and not hasmu(x) and not depends(x, L):
                    return ite(self.exists(L, c), x, init)
            if b.op == "ite":
                # set in the iteration the loop stops at, left alone in the others
                def only_stopping(t, p):
                    if t is mu:
                        return True
                    if t.op == "ite":
                        return not hasmu(t.args[0]) and only_stopping(t.args[1], and_(p, t.args[0])) and only_stopping(t.args[2], and_(p, not_(t.args[0])))
                    return not hasmu(t) and surely(or_(not_(p), stop))
                if only_stopping(b, TRUE):
                    stop = self.halts.get(L.dig) or stop
                    return ite(self.exists(L, stop), self.first(L, stop, subst(b, lambda x: init if x is mu else None)), init)
        # generic fold: the recurrence of this variable together with those it depends on, canonically named
        return self.closed(L, "fold", b, stop, g, own=(mu, init))

    def close_term(self, t):
        """t with the loop-carried variables in it tied to their recurrences"""
        for _ in range(6):
            Ls = {x.args[0].dig: x.args[0] for x in walk(t) if x.op == "mu" and x.args[0].op == "loop" and x.args[0].dig in self.loopsys}
            if not Ls:
                return t
            # innermost first
            L = max(Ls.values(), key=lambda l: (l.args[1] if isinstance(l.args[1], int) else -1, l.dig))
            t2 = self.closed(L, "at", t)
            if t2 is t:
                return t
            t = t2
        return t

    def closed(self, L, op, *parts, own=None):
        """binder over the iterations of L; loop-carried variables in it are bound to their recurrences, canonically named"""
        system = dict(self.loopsys.get(L.dig, {}))
        need = {}
        if own:
            system[own[0].dig] = (own[0], own[1], parts[0])
            need[own[0].dig] = own[0]
        todo = list(parts)
        while todo:
            for x in walk(todo.pop()):
                if x.op == "mu" and x.args[0] is L and x.dig not in need:
                    need[x.dig] = x
                    if x.dig in system:
                        todo.append(system[x.dig][2])
        init = (own[1],) if own else ()
        if not need:
            return bind(op, L, *init, *parts)
        bnd = mk("bound", 0)

        def renamer(names):
            def f(x):
                if x.op == "mu" and x.args[0] is L and x.dig in names:
                    return names[x.dig]
                return None
            return f
        selfn = mk("mu", bnd, "self")
        if own and len(need) == 1:
            f = renamer({own[0].dig: selfn})
            return bind(op, L, own[1], *[subst(x, f) for x in parts])
        me = own[0].dig if own else None
        color = {d: (mk("c", "self") if d == me else mk("c", mk("loopless", system[d][1])) if d in system else mk("c", "free")) for d in need}
        for _ in range(len(need) + 1):
            f = renamer(color)
            color = {d: mk("c", color[d], subst(system[d][2], f)) if d in system else color[d] for d in need}
            color = {d: mk("c", c.dig) for d, c in color.items()}
        others = sorted([d for d in need if d != me], key=lambda d: color[d].dig)
        names = {me: selfn} if own else {}
        for i, d in enumerate(others):
            names[d] = mk("mu", bnd, "v%d" % i)
        f = renamer(names)
        vs = [mk("var", system[d][1], subst(system[d][2], f)) if d in system else mk("var") for d in others]
        return bind(op, L, *init, *[subst(x, f) for x in parts], *vs)

    # ---------------------------------------------------------------- truth
    def truth(self, v, st, node=None):
        if isinstance(v, T):
            return truth(v)
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, TupV):
            return TRUE if v.items else FALSE
        if isinstance(v, IteV):
            return ite(v.c, self.truth(v.a, st, node), self.truth(v.b, st, node))
        if isinstance(v, (FuncV, ClassV, ModV, ExtV, BndV, PartialV)):
            return TRUE
        c = self.cell(v, st)
        if isinstance(c, ListC):
            if c.known():
                return TRUE if c.parts else FALSE
            if any(not isinstance(p, Splice) for p in c.parts):
                return TRUE
            return or_(*[truth_list(p.t) for p in c.parts])
        if isinstance(c, DictC):
            if c.items:
                return TRUE
            return FALSE if c.rest is None else rebuild("nonempty", (c.rest,))
        if isinstance(c, ObjC):
            return TRUE
        if isinstance(v, SerV):
            return mk("truthy", self.term(v, st))
        return truth(self.term(v, st))

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("unsupported", "expression %s" % type(n).__name__, n)
            return mk("unknown", ast.dump(n))
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        k = n.id
        if k in st.env:
            return st.env[k]
        fr = self.frames[-1]
        f = getattr(fr, "f", None)
        if f is not None and f.closure and k in f.closure:
            return f.closure[k]
        env = self.modenv(fr.mod)
        if k in env:
            v = env[k]
            return v
        # later-defined module function
        for x in _flat(fr.mod.tree.body):
            if isinstance(x, ast.FunctionDef) and x.name == k:
                return FuncV(x, fr.mod, qual="%s:%s" % (fr.mod.name, k))
            if isinstance(x, ast.ClassDef) and x.name == k:
                return ClassV(x, fr.mod, "%s:%s" % (fr.mod.name, k))
        import builtins
        if hasattr(builtins, k):
            return ExtV("builtins." + k)
        if f is None or isinstance(f.node, ast.Lambda) or k not in _assigned(f.node.body):
            self.note("undefined", "name %s is not defined" % k, n)
        return mk("undefined", k)

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.new(st, ListC(self.elts(n.elts, st), "tuple"))
        return TupV([self.ev(e, st) for e in n.elts])

    def elts(self, es, st):
        parts = []
        for e in es:
            if isinstance(e, ast.Starred):
                parts += self.as_parts(self.ev(e.value, st), st)
            else:
                parts.append(self.ev(e, st))
        return parts

    def e_List(self, n, st):
        return self.new(st, ListC(self.elts(n.elts, st)))

    def e_Set(self, n, st):
        return self.new(st, ListC(self.elts(n.elts, st), "set"))

    def e_Dict(self, n, st):
        items, rest = [], None
        for k, v in zip(n.keys, n.values):
            if k is None:
                vv = self.ev(v, st)
                c = self.cell(vv, st)
                if isinstance(c, DictC):
                    items += list(c.items)
                    rest = c.rest or rest
                else:
                    rest = self.term(vv, st)
            else:
                items.append((self.ev(k, st), self.ev(v, st)))
        return self.new(st, DictC(items, rest))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                t = self.term(x, st)
                if v.format_spec is not None:
                    t = mk("fmt", t, self.term(self.ev(v.format_spec, st), st))
                else:
                    t = to_str(t)
                parts.append(t)
        return concat(*parts)

    def e_FormattedValue(self, n, st):
        return to_str(self.term(self.ev(n.value, st), st))

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        return FuncV(n, fr.mod, closure=dict(st.env), qual="<lambda>")

    def e_IfExp(self, n, st):
        c = self.truth(self.ev(n.test, st), st, n.test)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
        a = self.ev(n.body, s1)
        b = self.ev(n.orelse, s2)
        s1.env["$v"], s2.env["$v"] = a, b
        pc = st.pc
        # a branch that ends the run
        pc = pc if s1.pc is and_(pc, c) and s2.pc is and_(pc, not_(c)) else or_(s1.pc, s2.pc)
        if s1.dead or s2.dead:
            m = s2 if s1.dead else s1
            v = m.env.pop("$v")
            st.env, st.heap, st.pc = m.env, m.heap, pc
            return v
        m = self.merge(c, s1, s2, pc)
        v = m.env.pop("$v")
        st.env, st.heap, st.pc = m.env, m.heap, pc
        return v

    def e_BoolOp(self, n, st):
        """short circuit; value kept when operands are not boolean"""
        is_and = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st)
        pc0 = st.pc
        for e in n.values[1:]:
            c = self.truth(v, st, n)
            if (c is FALSE and is_and) or (c is TRUE and not is_and):
                break
            st.pc = p1 = and_(pc0, *( [c] if is_and else [not_(c)])) if pc0 is not FALSE else FALSE
            w = self.ev(e, st)
            if st.pc is not p1:
                # the operand can end the run
                pc0 = or_(st.pc, and_(pc0, not_(c) if is_and else c))
            if c is TRUE and is_and or c is FALSE and not is_and:
                v = w
                continue
            if isinstance(v, T) and isinstance(w, T):
                wt = truth(w)
                if isbool(v) and isbool(w):
                    v = and_(v, w) if is_and else or_(v, w)
                else:
                    v = ite(c, w, v) if is_and else ite(c, v, w)
            else:
                wt = self.truth(w, st, n)
                v = and_(c, wt) if is_and else or_(c, wt)
        st.pc = pc0
        return v

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st, n))
        if isinstance(n.op, ast.USub):
            return self.lift(lambda x: neg(x), st, v)
        if isinstance(n.op, ast.Invert):
            return self.lift(lambda x: not_(x) if self.boolish(x) else mk("call", "~", x), st, v)
        return v

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if isinstance(a, IteV):
            return self.on_ite(a, st, lambda x, s: self.binop(op, x, b, s, n))
        if isinstance(b, IteV):
            return self.on_ite(b, st, lambda x, s: self.binop(op, a, x, s, n))
        ca, cb = self.cell(a, st), self.cell(b, st)
        r = self.mat_binop(op, a, b, ca, cb, st, n)
        if r is not None:
            return r
        if isinstance(ca, ListC) and ca.kind == "arr" or isinstance(cb, ListC) and cb.kind == "arr":
            def arr(v, c):
                if not isinstance(c, ListC):
                    return v
                t = self.term(v, st)
                return mk("arr", *t.args) if t.op == "list" else t
            a, b = arr(a, ca), arr(b, cb)
            ca = cb = None
        if isinstance(op, ast.Add) and (isinstance(ca, ListC) or isinstance(cb, ListC)) and not isinstance(a, SerV) and not isinstance(b, SerV):
            kind = (ca or cb).kind
            return self.new(st, ListC(self.as_parts(a, st) + self.as_parts(b, st), kind))
        if isinstance(op, ast.Add) and isinstance(a, TupV) and isinstance(b, TupV):
            return TupV(a.items + b.items)
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and (isinstance(ca, ListC) and ca.kind == "set" or isinstance(cb, ListC) and cb.kind == "set"):
            ta, tb = canon_coll(self.term(a, st)), canon_coll(self.term(b, st))
            nm = {ast.Sub: "set-", ast.BitAnd: "set&", ast.BitOr: "set|"}[type(op)]
            if nm != "set-":
                ta, tb = sorted((ta, tb), key=lambda t: t.dig)
            return self.new(st, ListC([Splice(mk("call", nm, ta, tb))], "set"))
        if isinstance(op, ast.Mult) and isinstance(cb, ListC) and isinstance(a, T):
            a, b, ca, cb = b, a, cb, ca
        if isinstance(op, ast.Mult) and isinstance(ca, ListC) and isinstance(b, T):
            k = num(b)
            if k is not None and ca.known() and k <= 20:
                return self.new(st, ListC(ca.parts * int(k), ca.kind))
            if len(ca.parts) == 1 and ca.known():
                L, _, _ = self.domain(mk("call", "range", b), st)
                return self.new(st, ListC([Splice(self.mapterm(L, self.term(ca.parts[0], st), TRUE))], ca.kind))
            return self.new(st, ListC([Splice(mk("repeat", self.term(a, st), b))], ca.kind))
        if isinstance(op, ast.Mod) and isinstance(a, T) and (is_strish(a)):
            return pct_format(a, self.term(b, st))
        f = {
            ast.Add: self.t_add, ast.Sub: sub, ast.Mult: self.t_mul, ast.Div: t_div, ast.Pow: pow_,
            ast.FloorDiv: lambda x, y: self.t_floordiv(x, y), ast.Mod: lambda x, y: self.t_mod(x, y),
            ast.BitAnd: lambda x, y: and_(x, y) if self.boolish(x) and self.boolish(y) else mk("call", "&", *sorted((x, y), key=lambda t: t.dig)),
            ast.BitOr: lambda x, y: or_(x, y) if self.boolish(x) and self.boolish(y) else mk("call", "|", *sorted((x, y), key=lambda t: t.dig)),
            ast.BitXor: lambda x, y: mk("call", "^", *sorted((x, y), key=lambda t: t.dig)),
            ast.MatMult: dot,
            ast.LShift: lambda x, y: mk("call", "<<", x, y), ast.RShift: lambda x, y: mk("call", ">>", x, y),
        }[type(op)]
        return self.lift(f, st, a, b, node=n)

    def boolish(self, t):
        """t is a truth value: a condition, or a variable carried around a loop that starts as one and stays one"""
        return isbool(t) or t.dig in self.boolmus

    def stack(self, v, c=None, st=None):
        """components of a stack of per-row values (k x n array)"""
        if c is None and st is not None:
            c = self.cell(v, st)
        if isinstance(c, ListC) and c.kind in ("arr", "list") and c.known() and c.parts and len(c.parts) <= 9 and all(isinstance(x, (SerV, T)) for x in c.parts) \
                and any(isinstance(x, SerV) for x in c.parts):
            return list(c.parts)
        return None

    def mat_binop(self, op, a, b, ca, cb, st, n):
        if isinstance(a, MatT) or isinstance(b, MatT):
            k = max(len(x.comps) for x in (a, b) if isinstance(x, MatT))

            def comps(v):
                if isinstance(v, MatT):
                    return v.comps if len(v.comps) == k else v.comps * k if len(v.comps) == 1 else None
                c = self.cell(v, st)
                if isinstance(c, ListC) and c.known() and len(c.parts) == k and not any(isinstance(x, SerV) for x in c.parts):
                    return list(c.parts)
                if isinstance(v, T):
                    return [v] * k
                return None
            x, y = comps(a), comps(b)
            if x is None or y is None:
                self.note("unsupported", "arithmetic on arrays of incompatible shapes", n)
                return mk("unknownvalue", "shape")
            return MatT([self.binop(op, p, q, st, n) for p, q in zip(x, y)])
        sa_, sb = self.stack(a, ca), self.stack(b, cb)
        if (ca is not None and sa_ is not None and ca.kind == "list" and not (isinstance(b, (SerV,)) or cb is not None and getattr(cb, "kind", None) == "arr")) \
                or (cb is not None and sb is not None and cb.kind == "list" and not (isinstance(a, (SerV,)) or ca is not None and getattr(ca, "kind", None) == "arr")):
            return None
        if sa_ is None and sb is None:
            return None
        k = len(sa_ or sb)

        def comps(v, s):
            if s is not None:
                return s if len(s) == k else None
            if isinstance(v, SerV) or isinstance(v, T):
                return [v] * k
            return None
        x, y = comps(a, sa_), comps(b, sb)
        if x is None or y is None:
            return None
        return self.new(st, ListC([self.binop(op, p, q, st, n) for p, q in zip(x, y)], "arr"))

    def t_add(self, x, y):
        if is_strish(x) or is_strish(y):
            return concat(x, y)
        if x.op in ("list", "tuple") and y.op in ("list", "tuple"):
            return mk("list", *(x.args + y.args))
        return add(x, y)

    def t_mul(self, x, y):
        if x.op == "bool" or y.op == "bool":
            pass
        return mul(x, y)

    def t_floordiv(self, x, y):
        a, b = num(x), num(y)
        if a is not None and b:
            return const(a // b)
        return mk("call", "floor", div(x, y))

    def t_mod(self, x, y):
        a, b = num(x), num(y)
        if a is not None and b:
            return const(a % b)
        return modulo(x, y)

    def on_ite(self, v, st, f):
        """apply f(value, state) to both sides of an IteV"""
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = and_(st.pc, v.c), and_(st.pc, not_(v.c))
        if s1.pc is FALSE:
            return f(v.b, st)
        if s2.pc is FALSE:
            return f(v.a, st)
        a, b = f(v.a, s1), f(v.b, s2)
        s1.env["$v"], s2.env["$v"] = a, b
        m = self.merge(v.c, s1, s2, st.pc)
        r = m.env.pop("$v", NONE)
        st.env, st.heap = m.env, m.heap
        return r

    # elementwise lifting with alignment bookkeeping
    def lift(self, f, st, *vs, node=None):
        ctx, kind = None, "array"
        ts = []
        for v in vs:
            if isinstance(v, IteV):
                i = vs.index(v)
                return self.on_ite(v, st, lambda x, s: self.lift(f, s, *[x if j == i else w for j, w in enumerate(vs)], node=node))
            if isinstance(v, SerV):
                if ctx is None:
                    ctx = v.ctx
                    kind = v.kind
                else:
                    self.check_align(ctx, kind, v, st, node)
                    if v.kind == "series" and kind != "series":
                        kind = "series"
                        ctx = v.ctx
                ts.append(v.elem)
            elif isinstance(v, PosV):
                ts.append(self.term(v, st))
            else:
                ts.append(self.term(v, st))
        r = f(*ts)
        if ctx is not None:
            for t in ts:
                self.check_draws(ctx, t, node)
            return SerV(ctx, r, kind)
        return r

    def check_draws(self, ctx, t, node):
        if t.op == "const" or t.op == "num" or t.op == "col":
            return
        for d in walk(t):
            if d.op == "draw":
                n = draw_size(d)
                if n is not None and n.op == "len":
                    r = n.args[0]
                    if r.op == "rows" and r is not ctx.term() and r.args[0] is ctx.base:
                        self.aligns.append(("draw-size", "random draws sized for %s are combined with rows %s" % (show(r, 3), show(ctx.term(), 3)), self.where(node)))

    def check_align(self, ctx, kind, v, st, node):
        if self.quiet:
            return
        same = ctx.base is v.ctx.base and ctx.rows is v.ctx.rows and ctx.order is v.ctx.order
        if same and (kind != "series" or v.kind != "series" or self.labels_agree(ctx, v.ctx)):
            return
        if ctx.base is v.ctx.base and ctx.order is v.ctx.order:
            try:
                if equal(ctx.rows, v.ctx.rows, 300)[0] and (kind != "series" or v.kind != "series" or self.labels_agree(ctx, v.ctx)):
                    return
            except Undecided:
                return
        if kind == v.kind == "series" and ctx.lineage is v.ctx.lineage and ctx.base is v.ctx.base and ctx.index in ("R", "G") \
                and v.ctx.index in ("R", "G") and implies(ctx.rows, v.ctx.rows):
            return  # matched by label, and every row finds its own
        self.aligns.append(("misaligned", "values of rows %s combined with rows %s (%s/%s)" % (show(v.ctx.term(), 4), show(ctx.term(), 4), v.kind, kind), self.where(node)))

    @staticmethod
    def labels_agree(a, b):
        """the same rows in the same order: do they carry the same labels?"""
        return a.lineage is b.lineage or (a.index == "R" and b.index == "R")

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            c = self.compare(op, left, right, st, n)
            res = c if res is None else (and_(res, c) if isinstance(res, T) and isinstance(c, T) else self.lift(lambda x, y: and_(x, y), st, res, c))
            left = right
        return res

    def compare(self, op, a, b, st, n):
        if isinstance(a, IteV):
            return self.on_ite(a, st, lambda x, s: self.compare(op, x, b, s, n))
        if isinstance(b, IteV):
            return self.on_ite(b, st, lambda x, s: self.compare(op, a, x, s, n))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, n)
            return r if isinstance(op, ast.In) else self.lift(not_, st, r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, (Ref, FuncV, ClassV, TupV, SerV)) and b is NONE:
                r = FALSE
            elif isinstance(b, (Ref, FuncV, ClassV, TupV, SerV)) and a is NONE:
                r = FALSE
            else:
                r = self.lift(eq, st, a, b, node=n) if not isinstance(a, SerV) else FALSE
            return r if isinstance(op, ast.Is) else not_(r)
        fs = {ast.Eq: eq, ast.NotEq: lambda x, y: not_(eq(x, y)), ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}
        f = fs[type(op)]
        if isinstance(a, ColsV) or isinstance(b, ColsV):
            return f(self.term(a, st), self.term(b, st))
        return self.lift(f, st, a, b, node=n)

    def contains(self, a, b, st, n):
        c = self.cell(b, st)
        if isinstance(b, ColsV):
            fc = self.cell(b.ref, st)
            ta = self.term(a, st)
            return self.has_col(fc, ta)
        if isinstance(c, FrameC):
            return self.has_col(c, self.term(a, st))
        if isinstance(c, ListC):
            if c.known() or True:
                ors = []
                for p in c.parts:
                    if isinstance(p, Splice):
                        if p.t.op == "list":
                            ors += [eq(self.term(a, st), x) for x in p.t.args]
                        elif p.t.op == "lcat":
                            for sg in p.t.args[1:]:
                                ors += [eq(self.term(a, st), x) for x in sg.args] if sg.op == p.t.args[0] else [mk("in", self.term(a, st), sg)]
                        else:
                            ors.append(mk("in", self.term(a, st), p.t))
                    elif isinstance(a, SerV):
                        return self.lift(lambda x: or_(*[eq(x, self.term(q, st)) for q in c.parts if not isinstance(q, Splice)]), st, a)
                    else:
                        ors.append(eq(self.term(a, st), self.term(p, st)))
                return or_(*ors)
        if isinstance(b, TupV):
            return or_(*[eq(self.term(a, st), self.term(p, st)) for p in b.items])
        if isinstance(c, DictC):
            ta = self.term(a, st)
            ors = []
            for k, v in c.items:
                e = eq(ta, self.term(k, st))
                tv = v if isinstance(v, T) else None
                if tv is not None and tv.op == "missing":
                    continue
                if tv is not None and tv.op == "ite" and (tv.args[1].op == "missing" or tv.args[2].op == "missing"):
                    e = and_(e, tv.args[0] if tv.args[2].op == "missing" else not_(tv.args[0]))
                ors.append(e)
            if c.rest is not None:
                ors.append(mk("in", ta, c.rest))
            return or_(*ors)
        ta, tb = self.term(a, st), self.term(b, st)
        if tb.op in ("list", "tuple", "set"):
            return or_(*[eq(ta, x) for x in tb.args])
        if tb.op == "lcat":
            return or_(*[or_(*[eq(ta, x) for x in sg.args]) if sg.op == tb.args[0] else mk("in", ta, sg) for sg in tb.args[1:]])
        if tb.op == "const" and ta.op == "const" and isinstance(tb.args[0], str) and isinstance(ta.args[0], str):
            return const(ta.args[0] in tb.args[0])
        if tb.op == "call" and tb.args[0] in (".keys",):
            tb = tb.args[1]
        return mk("in", ta, tb)

    def has_col(self, fc, t):
        if fc.only is not None and not any(x.op == "whole" for x in fc.only):
            return or_(*[and_(k.args[0], eq(t, k.args[1])) if k.op == "colif" else eq(t, k) for k in fc.only])
        for k in fc.cols:
            kt = k if isinstance(k, T) else const(k)
            if kt is t:
                return TRUE
        if t in fc.dropped:
            return FALSE
        if fc.only is not None:
            return mk("in", t, mk("columns", mk("onlycols", *fc.only)))
        return mk("in", t, mk("columns", fc.base))

    # comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def comp(self, n, st, kind):
        r = self.comp_gen(n.generators, st.copy(), lambda s: self.term_elem(n.elt, s))
        parts = r
        return self.new(st, ListC(parts, kind))

    def term_elem(self, e, s):
        return self.ev(e, s)

    def comp_gen(self, gens, st, f):
        if not gens:
            return [f(st)]
        g = gens[0]
        it = self.iterated(g.iter, st)
        known = self.known_items(it, st)
        if known is not None and len(known) <= 40:
            out = []
            for x in known:
                self.assign(g.target, x, st)
                c = and_(*[self.truth(self.ev(i, st), st, i) for i in g.ifs])
                if c is FALSE:
                    continue
                sub_ = self.comp_gen(gens[1:], st, f)
                if c is TRUE:
                    out += sub_
                else:
                    out.append(Splice(ite(c, lcat("list", *[p.t if isinstance(p, Splice) else mk("list", self.term(p, st)) for p in sub_]), mk("list"))))
            return out
        L, elem, guard = self.domain(it, st)
        self.loopdepth += 1
        try:
            self.assign(g.target, elem, st)
            pc0 = st.pc
            st.pc = and_(st.pc, mk("inloop", L))
            c = and_(guard, *[self.truth(self.ev(i, st), st, i) for i in g.ifs])
            sub_ = self.comp_gen(gens[1:], st, f)
            st.pc = pc0
        finally:
            self.loopdepth -= 1
        if len(sub_) == 1 and not isinstance(sub_[0], Splice):
            x = self.term(sub_[0], st)
            return [Splice(self.mapterm(L, x, c))]
        t = lcat("list", *[p.t if isinstance(p, Splice) else mk("list", self.term(p, st)) for p in sub_]) if not (len(sub_) == 1) else sub_[0].t
        if t is elem if isinstance(elem, T) else False:
            pass
        return [Splice(bind("flatmap", L, t, c, FALSE))]

    def e_DictComp(self, n, st):
        s = st.copy()
        r = self.comp_gen(n.generators, s, lambda s2: mk("kv", self.term(self.ev(n.key, s2), s2), self.term(self.ev(n.value, s2), s2)))
        items, rest = [], None
        for p in r:
            if isinstance(p, Splice):
                rest = p.t if rest is None else mk("rest2", rest, p.t)
            else:
                items.append((p.args[0], p.args[1]))
        return self.new(st, DictC(items, rest))

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Slice(self, n, st):
        f = lambda x: self.term(self.ev(x, st), st) if x is not None else NONE
        return mk("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        y = st.env.get("__yield__")
        if isinstance(y, Ref):
            c = st.heap[y.id]
            st.heap[y.id] = ListC(c.parts + (v,), c.kind)
        return NONE

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # attribute access -----------------------------------------------------
    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.getattr_(o, n.attr, st, n)

    def getattr_(self, o, a, st, n=None):
        if isinstance(o, IteV):
            return self.on_ite(o, st, lambda x, s: self.getattr_(x, a, s, n))
        if a == "T":
            if isinstance(o, MatT):
                return self.new(st, ListC(list(o.comps), "arr"))
            k = self.stack(o, None, st)
            if k is not None:
                return MatT(k)
        if a == "values" and isinstance(o, T) and o.op == "cellmask":
            return mk("cellmask", *o.args[:4], "array")
        if a == "ndim":
            if isinstance(o, MatT) or self.stack(o, None, st) is not None:
                return const(2)
        if isinstance(o, ModV):
            sub_ = o.name + "." + a
            m = self.prog.modules.get(o.name)
            env = self.modenv(m)
            if a in env:
                return env[a]
            if sub_ in self.prog.modules:
                return ModV(sub_)
            return self.resolve_from(o.name, a)
        if isinstance(o, ExtV):
            nm = o.name + "." + a
            if nm in ("numpy.pi", "math.pi", "np.pi", "scipy.constants.pi"):
                return PI
            if nm in ("numpy.inf", "math.inf", "numpy.Inf"):
                return mk("inf")
            if nm in ("numpy.nan", "math.nan", "numpy.NaN"):
                return mk("nan")
            if nm in self.prog.modules:
                return ModV(nm)
            return ExtV(nm)
        if isinstance(o, SuperV):
            f = self.lookup(o.cls, a, skip_self=True)
            if f is not None:
                return f.bind(o.obj)
            return BndV(o.obj, "super." + a)
        if isinstance(o, ClassV):
            f = self.lookup(o, a)
            if f is not None:
                if _has_deco(f.node, "classmethod"):
                    return f.bind(o)
                return f
            v = self.class_attr(o, a, st)
            if v is not None:
                return v
            return mk("attr", self.term(o, st), a)
        c = self.cell(o, st)
        if isinstance(c, ObjC):
            if a in c.attrs:
                return c.attrs[a]
            if a == "__class__":
                return c.cls
            if a == "__dict__":
                return self.new(st, DictC([(const(k), v) for k, v in c.attrs.items()]))
            f = self.lookup(c.cls, a)
            if f is not None:
                if _has_deco(f.node, "staticmethod"):
                    return f
                if _has_deco(f.node, "classmethod"):
                    return f.bind(c.cls)
                if _has_deco(f.node, "property"):
                    return self.call_func(f.bind(o), [], {}, st, n)[0]
                return f.bind(o)
            v = self.class_attr(c.cls, a, st)
            if v is not None:
                return v
            k = ("attr", self.term(o, st).dig, a)
            return mk("attr", mk("instance", c.cls.qual), a)
        if isinstance(c, FrameC):
            return self.frame_attr(o, c, a, st, n)
        if isinstance(o, SerV):
            return self.ser_attr(o, a, st, n)
        if isinstance(o, (IdxV, PosV, ColsV, StrV)):
            if a in ("values",):
                return o
            if a == "size" and isinstance(o, IdxV):
                return mk("len", o.ctx.term())
            return BndV(o, a)
        if isinstance(c, (ListC, DictC)) or isinstance(o, TupV):
            return BndV(o, a)
        if isinstance(o, T):
            k = ("attr", o.dig, a)
            if k in st.heap:
                return st.heap[k]
            if o.op == "const" and isinstance(o.args[0], str):
                return BndV(o, a)
            if o.op == "obj":
                for kk, vv in o.args[1]:
                    if kk == a:
                        return vv
            if a == "value":
                v = units.value(o)
                if v is not None:
                    return v
            if o.op == "ite":
                # attribute of a gated value
                return ite(o.args[0], mk("attr", o.args[1], a), mk("attr", o.args[2], a))
            if a == "particles" and isinstance(st.heap.get(("epoch",)), T):
                return mk("attr", mk("integrated", o, st.heap[("epoch",)]), a)
            return mk("attr", o, a)
        if isinstance(o, FuncV):
            if a == "__name__":
                return const(o.node.name if hasattr(o.node, "name") else "<lambda>")
            return mk("attr", self.term(o, st), a)
        if isinstance(o, BndV):
            return BndV(o, a)
        return mk("attr", self.term(o, st), a)

    def lookup(self, cls, name, skip_self=False):
        """method resolution through repository classes"""
        mro = [k for k in self.mro(cls)[1 if skip_self else 0:] if isinstance(k, ClassV)]
        for k in mro:
            name = self.prog.canonical(k.mod.name, k.node, name)
        for k in mro:
            for x in _flat(k.node.body):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name:
                    return FuncV(x, k.mod, cls=k, qual="%s:%s.%s" % (k.mod.name, k.node.name, name))
            x = self.prog.renamed(k.mod.name, k.node, name)
            if x is not None:
                return FuncV(x, k.mod, cls=k, qual="%s:%s.%s" % (k.mod.name, k.node.name, name))
        return None

    def class_attr(self, cls, name, st):
        for k in self.mro(cls):
            if not isinstance(k, ClassV):
                continue
            for x in k.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name and x.value is not None:
                    return self._class_eval(k, x.value, st)
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                    return self._class_eval(k, x.value, st)
        return None

    def _class_eval(self, k, e, st):
        self.frames.append(Frame(k.qual, k.mod))
        try:
            env = {}
            for x in k.node.body:
                if isinstance(x, ast.Assign) and x.value is not e and isinstance(x.targets[0], ast.Name):
                    pass
            s = St(env, st.heap, st.pc)
            return self.ev(e, s)
        finally:
            self.frames.pop()

    def mro(self, cls, seen=None):
        out = [cls]
        if isinstance(cls, ClassV):
            self.frames.append(Frame("<module>", cls.mod))
            try:
                for b in cls.node.bases:
                    s = St({}, self.modheap, TRUE)
                    bv = self.ev(b, s)
                    if isinstance(bv, ClassV):
                        out += self.mro(bv)
                    elif isinstance(bv, ExtV):
                        out.append(bv)
            finally:
                self.frames.pop()
        return out

    # subscripts -------------------------------------------------------------
    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        if isinstance(n.slice, ast.Tuple) and isinstance(o, LocV):
            k = TupV([self.ev(e, st) for e in n.slice.elts])
        else:
            k = self.ev(n.slice, st)
        return self.getitem(o, k, st, n)

    def getitem(self, o, k, st, n):
        if isinstance(o, IteV):
            return self.on_ite(o, st, lambda x, s: self.getitem(x, k, s, n))
        if isinstance(k, IteV):
            return self.on_ite(k, st, lambda x, s: self.getitem(o, x, s, n))
        if isinstance(o, LocV):
            return self.loc_get(o, k, st, n)
        c = self.cell(o, st)
        if isinstance(c, FrameC):
            return self.frame_get(o, c, k, st, n)
        if isinstance(c, ObjC) and isinstance(c.cls, ClassV):
            m = self.lookup(c.cls, "__getitem__")
            if m is not None:
                v, st2 = self.call_func(m.bind(o), [k], {}, st, n)
                if st2 is not st:
                    st.heap, st.pc = st2.heap, st2.pc
                return v
        if isinstance(o, SerV):
            if isinstance(k, SerV) and isbool(k.elem):
                self.check_align(o.ctx, o.kind, k, st, n)
                return SerV(RowCtx(o.ctx.base, and_(o.ctx.rows, k.elem), o.ctx.order, o.ctx.lineage, "G"), o.elem, o.kind)
            if isinstance(k, T) and isbool(k) and not is_const(k):
                return SerV(RowCtx(o.ctx.base, and_(o.ctx.rows, k), o.ctx.order, o.ctx.lineage, "G"), o.elem, o.kind)
            if isinstance(k, PosV) and k.ctx.base is o.ctx.base and k.ctx.rows is o.ctx.rows:
                return SerV(RowCtx(o.ctx.base, and_(o.ctx.rows, k.elem), o.ctx.order, o.ctx.lineage, "G"), o.elem, o.kind)
            if isinstance(k, TupV) and len(k.items) == 2 and self.term(k, st) is mk("tuple", mk("slice", NONE, NONE, NONE), NONE):
                return MatT([o])
            return mk("item", self.term(o, st), self.term(k, st))
        if isinstance(o, MatT):
            if isinstance(k, TupV) and len(k.items) == 2 and isinstance(k.items[0], T) and k.items[0].op == "slice" and all(x is NONE for x in k.items[0].args):
                i = num(k.items[1]) if isinstance(k.items[1], T) else None
                if i is not None and -len(o.comps) <= i < len(o.comps):
                    return o.comps[int(i)]
            return mk("item", self.term(o, st), self.term(k, st))
        if isinstance(o, (IdxV,)):
            if isinstance(k, SerV) and isbool(k.elem):
                return IdxV(RowCtx(o.ctx.base, and_(o.ctx.rows, k.elem), o.ctx.order, o.ctx.lineage, "G"))
            if isinstance(k, PosV):
                return IdxV(RowCtx(o.ctx.base, and_(o.ctx.rows, k.elem), o.ctx.order, o.ctx.lineage, "G"))
            return mk("item", self.term(o, st), self.term(k, st))
        if isinstance(o, PosV):
            if k is ZERO:
                return o
        if isinstance(o, ColsV):
            return mk("item", self.term(o, st), self.term(k, st))
        kt = self.term(k, st)
        if isinstance(o, TupV):
            i = num(kt)
            if i is not None and -len(o.items) <= i < len(o.items):
                return o.items[int(i)]
            if kt.op == "slice":
                sl = _pyslice(kt)
                if sl is not None:
                    return TupV(o.items[sl])
        if isinstance(c, ListC) and isinstance(k, TupV) and len(k.items) == 2 and c.known() and isinstance(k.items[0], T) and num(k.items[0]) is not None:
            i0 = int(num(k.items[0]))
            if -len(c.parts) <= i0 < len(c.parts) and isinstance(c.parts[i0], (Ref, SerV, TupV)):
                return self.getitem(c.parts[i0], k.items[1], st, n)
        if isinstance(c, ListC):
            i = num(kt)
            if i is not None:
                i = int(i)
                if c.known() and -len(c.parts) <= i < len(c.parts):
                    return c.parts[i]
                if 0 <= i < len(c.parts) and not any(isinstance(p, Splice) for p in c.parts[: i + 1]):
                    return c.parts[i]
                if i < 0 and -i <= len(c.parts) and not any(isinstance(p, Splice) for p in c.parts[i:]):
                    return c.parts[i]
            if kt.op == "slice" and c.known():
                sl = _pyslice(kt)
                if sl is not None:
                    return self.new(st, ListC(c.parts[sl], c.kind))
            return mk("item", self.term(o, st), kt)
        if isinstance(c, DictC):
            for a, b in c.items:
                if self.term(a, st) is kt:
                    return b
            dd = self.default_of(c.rest)
            if dd is not None:
                known = all(is_const(self.term(a, st)) for a, _ in c.items) and is_const(kt)
                fresh = c.rest.op == "call" and (known or not c.items)
                r = self.new(st, ListC([] if fresh else [Splice(mk("item", c.rest if known or not c.items else self.term(o, st), kt))], dd))
                st.heap[o.id] = DictC(list(c.items) + [(k, r)], c.rest)
                return r
            if all(is_const(self.term(a, st)) for a, _ in c.items) and is_const(kt):
                if c.rest is not None:
                    return mk("item", c.rest, kt)
                self.eff(st, "keyerror", show(kt), [o, k], node=n)
                return mk("missing")
            if c.rest is None and c.items and all(isinstance(b, T) for _, b in c.items) and len(c.items) <= 12 and not is_const(kt):
                r = mk("missing")
                for a, b in reversed(c.items):
                    r = ite(eq(kt, self.term(a, st)), b, r)
                return r
            if c.rest is not None and not c.items:
                return mk("item", c.rest, kt)
            if c.rest is None and c.items and len(c.items) <= 12 and not is_const(kt):
                r = mk("missing")
                for a, b in reversed(c.items):
                    cnd = eq(kt, self.term(a, st))
                    r = b if r.__class__ is T and r.op == "missing" else IteV(cnd, b, r)
                return r
            return mk("item", self.term(o, st), kt)
        t = self.term(o, st)
        if t.op == "wherepos" and kt is ZERO:
            return t
        kk = ("item", t.dig, kt.dig)
        if kk in st.heap:
            return st.heap[kk]
        if t.op in ("list", "tuple") and num(kt) is not None:
            i = int(num(kt))
            if -len(t.args) <= i < len(t.args):
                return t.args[i]
        if t.op == "const" and isinstance(t.args[0], str):
            if num(kt) is not None:
                try:
                    return const(t.args[0][int(num(kt))])
                except IndexError:
                    pass
            if kt.op == "slice":
                sl = _pyslice(kt)
                if sl is not None:
                    return const(t.args[0][sl])
        if isinstance(k, SerV):
            return SerV(k.ctx, mk("item", t, k.elem), "array")
        if t.op == "ite" and t.args[1].op in ("tuple", "list") and t.args[2].op in ("tuple", "list"):
            return ite(t.args[0], self.getitem(t.args[1], kt, st, n), self.getitem(t.args[2], kt, st, n))
        if t.op == "dict":
            for a in t.args:
                if a.op == "kv" and a.args[0] is kt:
                    return a.args[1]
        if kt.op == "slice" and all(x is NONE for x in kt.args):
            return t
        return rebuild("item", (t, kt))

    def setitem(self, o, t, v, st):
        n = t
        if isinstance(t.slice, ast.Tuple) and isinstance(o, LocV):
            k = TupV([self.ev(e, st) for e in t.slice.elts])
        else:
            k = self.ev(t.slice, st)
        self.setitem_v(o, k, v, st, n, t.value)

    def setitem_v(self, o, k, v, st, n, src=None):
        if isinstance(o, IteV):
            s1, s2 = st.copy(), st.copy()
            self.setitem_v(o.a, k, v, s1, n, None)
            self.setitem_v(o.b, k, v, s2, n, None)
            m = self.merge(o.c, s1, s2, st.pc)
            st.env, st.heap = m.env, m.heap
            return
        if isinstance(o, LocV):
            c = self.cell(o.ref, st)
            if isinstance(c, FrameC) and isinstance(k, TupV) and len(k.items) == 2:
                m, name = k.items
                nt = self.term(name, st)
                key = nt.args[0] if nt.op == "const" else nt
                old = c.cols.get(key, col(c.base, key))
                if isinstance(m, SerV) and isbool(m.elem):
                    # the values are for the chosen rows only
                    self.check_align(c.ctx(), "series", m, st, n)
                    new = ite(m.elem, self.elem(v, c.rep(rows=and_(c.rows, m.elem), index="G"), st, n), old)
                    ve = None
                else:
                    ve = self.elem(v, c, st, n)
                if ve is None:
                    pass
                elif isinstance(m, T) and m.op == "slice":
                    new = ve
                elif isinstance(m, IdxV) and m.ctx.lineage is c.lineage:
                    new = ite(m.ctx.rows, ve, old)
                elif isinstance(m, PosV) and m.ctx.lineage is c.lineage and c.index == "R" and m.ctx.rows is c.rows:
                    new = ite(m.elem, ve, old)
                else:
                    new = mk("store", old, self.term(m, st), ve)
                cols = dict(c.cols)
                cols[key] = new
                st.heap[o.ref.id] = c.rep(cols=cols)
                self.eff(st, "setcol", str(key), [o.ref, new], node=n)
                return
            ot = self.term(o.ref, st)
            self.eff(st, "setitem", "loc", [o.ref, k, v], node=n)
            return
        c = self.cell(o, st)
        if isinstance(c, FrameC):
            kt = self.term(k, st)
            if isinstance(k, SerV) or kt.op in ("list",):
                names = kt.args if kt.op == "list" else None
                if names:
                    cols = dict(c.cols)
                    for i, nm in enumerate(names):
                        x = self.getitem(v, const(i), st, n) if not isinstance(self.cell(v, st), FrameC) else self.getitem(v, nm, st, n)
                        key = nm.args[0] if nm.op == "const" else nm
                        cols[key] = self.elem(x, c, st, n)
                    st.heap[o.id] = c.rep(cols=cols)
                return
            key = kt.args[0] if kt.op == "const" and isinstance(kt.args[0], str) else kt
            cols = dict(c.cols)
            e = self.elem(v, c, st, n)
            cols[key] = e
            only = c.only
            if only is not None and kt.op == "const" and kt not in only and not any(x.op == "whole" for x in only):
                only = tuple(kt if x.op == "colif" and x.args[1] is kt else x for x in only)
                if kt not in only:
                    only = only + (kt,)
            st.heap[o.id] = c.rep(cols=cols, dropped=c.dropped - {kt}, only=only)
            self.eff(st, "setcol", str(key), [o, e], node=n)
            return
        if isinstance(c, DictC):
            kt = self.term(k, st)
            items = [(a, b) for a, b in c.items]
            for i, (a, b) in enumerate(items):
                if self.term(a, st) is kt:
                    items[i] = (a, v)
                    break
            else:
                items.append((k, v))
            st.heap[o.id] = DictC(items, c.rest)
            return
        if isinstance(c, ListC) and isinstance(k, TupV) and len(k.items) == 2 and c.known() and isinstance(k.items[0], T) and num(k.items[0]) is not None:
            i0 = int(num(k.items[0]))
            if -len(c.parts) <= i0 < len(c.parts) and isinstance(c.parts[i0], Ref):
                return self.setitem_v(c.parts[i0], k.items[1], v, st, n)
        if isinstance(c, ListC):
            kt = self.term(k, st)
            i = num(kt)
            if i is not None and c.known() and -len(c.parts) <= i < len(c.parts):
                ps = list(c.parts)
                ps[int(i)] = v
                st.heap[o.id] = ListC(ps, c.kind)
            else:
                st.heap[o.id] = ListC([Splice(mk("store", self.term(o, st), kt, self.term(v, st)))], c.kind)
            return
        # arrays held in a variable: functional update, rebinding the variable
        kt = self.term(k, st)
        new = None
        if isinstance(o, SerV) and isinstance(k, SerV) and isbool(k.elem):
            ve = v.elem if isinstance(v, SerV) else self.term(v, st)
            new = SerV(o.ctx, ite(k.elem, ve, o.elem), o.kind)
        elif isinstance(o, SerV) and isinstance(k, PosV):
            ve = v.elem if isinstance(v, SerV) else self.term(v, st)
            new = SerV(o.ctx, ite(k.elem, ve, o.elem), o.kind)
        elif isinstance(o, T) and isinstance(k, SerV) and isbool(k.elem):
            ve = v.elem if isinstance(v, SerV) else self.term(v, st)
            new = SerV(k.ctx, ite(k.elem, ve, o), "array")
        elif isinstance(o, T) and isbool(kt) and not is_const(kt):
            new = ite(kt, self.term(v, st), o)
        elif isinstance(o, T) and kt.op == "slice" and all(x is NONE for x in kt.args):
            new = self.term(v, st)
        else:
            ot = self.term(o, st)
            # overlay for opaque objects reached through attributes/params (dict-like)
            if isinstance(src, ast.Name) and src.id in st.env:
                new = mk("store", ot, kt, self.term(v, st))
                st.heap[("item", new.dig, kt.dig)] = v
            else:
                st.heap[("item", ot.dig, kt.dig)] = v
        if new is not None:
            if isinstance(src, ast.Name):
                st.env[src.id] = new
            elif isinstance(src, ast.Attribute):
                base = self.ev(src.value, st)
                self.setattr_(base, src.attr, new, st, n)
        self.eff(st, "setitem", "[]", [o, k, v], node=n, ret="reach" if new is None else None)

    def elem(self, v, c, st, n):
        """row-level term of a value assigned to a column of frame c"""
        if isinstance(v, IteV):
            return ite(v.c, self.elem(v.a, c, st, n), self.elem(v.b, c, st, n))
        if isinstance(v, SerV):
            self.check_align(c.ctx(), "series", v, st, n)
            return v.elem
        t = self.term(v, st)
        self.check_draws(c.ctx(), t, n)
        return t

    # frames -------------------------------------------------------------------
    from .frames import (frame_attr, frame_get, loc_get, ser_attr, frame_dropcols, frame_method, ser_method)
    from .calls import (e_Call, call_value, call_ext, call_bound, instantiate, list_method, dict_method, str_method,
                        t_method, _field_default)


# ----------------------------------------------------------------------- helpers
def depends(t, L):
    """does t mention the loop's index/element/mu?"""
    return contains(t, lambda x: x.op in ("idx", "key", "mu", "member") and (x.args[0] is L or (len(x.args) > 1 and x.args[1] is L)))


def is_path(t):
    return t.op == "call" and t.args[0] in ("importlib.resources.files", "pathlib.Path", ".joinpath", "pathlib.PurePath", ".resolve", ".absolute", ".expanduser") \
        or t.op == "attr" and t.args[1] == "parent"


def t_div(x, y):
    if is_path(x):
        return mk("call", ".joinpath", x, y)
    return div(x, y)


def truth_list(t):
    if t.op in ("list", "tuple", "set"):
        return TRUE if t.args else FALSE
    if t.op == "ite":
        return ite(t.args[0], truth_list(t.args[1]), truth_list(t.args[2]))
    if t.op == "map":
        L, x, c = t.args[:3]
        if c is TRUE:
            return rebuild("nonempty", (L.args[0],))
        return bind("exists", L, c)
    return rebuild("nonempty", (t,))


def draw_size(d):
    for a in d.args[2:]:
        if isinstance(a, T) and a.op == "kw" and a.args[0] == "size":
            return a.args[1]
    return None


def is_strish(t):
    return (t.op == "const" and isinstance(t.args[0], str)) or t.op in ("concat", "fmt") or (t.op == "call" and t.args[0] in ("str", "os.path.join", ".join", ".format", ".lower", ".upper", ".strip"))


def to_str(t):
    if t.op == "const" and isinstance(t.args[0], str):
        return t
    if t.op in ("concat", "fmt"):
        return t
    if t.op == "const":
        return const(str(t.args[0]))
    if t.op == "num":
        return const(str(pyval(t)))
    if t.op == "call" and t.args[0] == "str":
        return t
    return mk("call", "str", t)


def pct_format(a, b):
    return mk("call", "%", a, b)


def _pyslice(t):
    try:
        f = lambda x: None if x is NONE else int(num(x))
        return slice(*[f(x) for x in t.args])
    except (TypeError, ValueError):
        return None


def _dedup(xs):
    seen, out = set(), []
    for x in xs:
        if x.dig not in seen:
            seen.add(x.dig)
            out.append(x)
    return tuple(sorted(out, key=lambda t: t.dig))


def _assigned(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)
    return list(dict.fromkeys(out))


def _target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def _is_static(node):
    return _has_deco(node, "staticmethod")


def _has_deco(node, name):
    for d in getattr(node, "decorator_list", []):
        x = d.func if isinstance(d, ast.Call) else d
        if isinstance(x, ast.Name) and x.id == name:
            return True
        if isinstance(x, ast.Attribute) and x.attr == name:
            return True
    return False


def undecorated(f):
    return not getattr(f.node, "decorator_list", None)


_gen_cache = {}


def _is_generator(node):
    r = _gen_cache.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(x))
        _gen_cache[id(node)] = r
    return r
