"""Statistics per group of rows: g = df.groupby(keys); g[col].agg(..), named aggregations, joins of such tables."""
from .terms import *
from .values import *

AGGS = {"first", "last", "min", "max", "median", "mean", "all", "any", "size", "count", "sum", "std", "var", "nunique", "prod"}
DEFAULTS = {"observed": FALSE, "sort": TRUE, "as_index": TRUE, "group_keys": TRUE, "dropna": TRUE, "axis": ZERO, "level": NONE}


def grouping(o):
    """(groupby term, selected column name or None) of a term"""
    if not isinstance(o, T):
        return None
    if o.op == "call" and o.args[0] == ".groupby":
        return o, None
    if o.op == "item" and o.args[0].op == "call" and o.args[0].args[0] == ".groupby" and o.args[1].op in ("const", "list"):
        return o.args[0], o.args[1]
    return None


def parts(g):
    """(term of the rows, group names with their values, options) of a groupby term"""
    F = g.args[1]
    kws = {a.args[0]: a.args[1] for a in g.args[2:] if a.op == "kw"}
    pos = [a for a in g.args[2:] if a.op != "kw"]
    keys = pos[0] if pos else kws.pop("by", NONE)
    kws = {k: v for k, v in kws.items() if DEFAULTS.get(k) is not v}
    names = keys.args if keys.op in ("list", "tuple") else (keys,)
    if len(pos) > 1 or not all(k.op == "const" for k in names):
        return None
    rows = rowsof(F)
    base = mk("groups", rows, *[mk("kv", k, col(F, k.args[0])) for k in names], *[mk("kw", k, v) for k, v in sorted(kws.items())])
    return F, base, names


def rowsof(F):
    if F.op == "frame":
        return mk("rows", F.args[0], F.args[1], F.args[5])
    return mk("rows", F, TRUE, NONE)


def ctx(base):
    return RowCtx(base, TRUE, NONE, mk("keyidx", base), "?")


def one(F, base, name, fn):
    if fn == "size":
        return mk("gagg", "size", base)
    return mk("gagg", fn, base, col(F, name))


def table(base, cols):
    """table of statistics: [(name, value)] or [(name, value, condition under which it is there)]"""
    only = tuple(const(x[0]) if len(x) < 3 or x[2] is TRUE else mk("colif", x[2], const(x[0])) for x in cols)
    return FrameC(base, TRUE, {x[0]: x[1] for x in cols}, (), only, None, "?", mk("keyidx", base))


def fname(t):
    """the name of an aggregation, given by name or as a function"""
    if t.op == "const" and t.args[0] in AGGS:
        return t.args[0]
    if t.op == "ext" and t.args[0].rsplit(".", 1)[-1] in AGGS and t.args[0].split(".")[0] in ("builtins", "numpy"):
        return t.args[0].rsplit(".", 1)[-1]
    return None


def group_method(self, o, name, args, kws, st, n):
    g = grouping(o)
    if g is None:
        return None
    p = parts(g[0])
    if p is None:
        return None
    F, base, names = p
    sel = g[1]
    ts = [self.term(a, st) for a in args]
    ks = {k: self.term(v, st) for k, v in kws.items()}
    series = lambda e: SerV(ctx(base), e, "series")
    if name in AGGS and not args and not kws:
        if name == "size":
            return series(one(F, base, None, "size"))
        if sel is not None and sel.op == "const":
            return series(one(F, base, sel.args[0], name))
        if sel is not None:
            return self.new(st, table(base, [(x.args[0], one(F, base, x.args[0], name)) for x in sel.args]))
        return None
    if name not in ("agg", "aggregate"):
        return None
    if len(ts) == 1 and not ks:
        f = ts[0]
        fn = fname(f)
        if fn == "size":
            return series(one(F, base, None, "size"))
        if fn is not None and sel is not None and sel.op == "const":
            return series(one(F, base, sel.args[0], fn))
        if fn is not None and sel is not None:
            return self.new(st, table(base, [(x.args[0], one(F, base, x.args[0], fn)) for x in sel.args]))
        if f.op in ("list", "tuple") and sel is not None and sel.op == "const" and all(fname(x) for x in f.args):
            return self.new(st, table(base, [(fname(x), one(F, base, sel.args[0], fname(x))) for x in f.args]))
        if f.op == "dict" and all(a.op == "kv" and fname(a.args[1]) and a.args[0].op == "const" for a in f.args):
            return self.new(st, table(base, [(a.args[0].args[0], one(F, base, a.args[0].args[0], fname(a.args[1]))) for a in f.args]))
        return None
    if not ts and ks:
        cols = []
        for k in kws:                       # in the order they are written
            t, cond = ks[k], TRUE
            while t.op == "ite" and any(x.op == "missing" for x in t.args[1:]):
                cond, t = (and_(cond, t.args[0]), t.args[1]) if t.args[2].op == "missing" else (and_(cond, not_(t.args[0])), t.args[2])
            if sel is not None and sel.op == "const" and fname(t):
                cols.append((k, one(F, base, sel.args[0], fname(t)), cond))
                continue
            src, fn = None, None
            if t.op in ("tuple", "list") and len(t.args) == 2:
                src, fn = t.args
            elif t.op == "call" and str(t.args[0]).endswith("NamedAgg"):
                d = {a.args[0]: a.args[1] for a in t.args[1:] if a.op == "kw"}
                pos = [a for a in t.args[1:] if a.op != "kw"]
                src = d.get("column", pos[0] if pos else None)
                fn = d.get("aggfunc", pos[-1] if pos else None)
            if src is None or src.op != "const" or not fname(fn):
                return None
            cols.append((k, one(F, base, src.args[0], fname(fn)), cond))
        return self.new(st, table(base, cols))
    return None


def series_frame(s, name=None):
    """the table made of one statistic"""
    if s.ctx.base.op != "groups":
        return None
    if name is None:
        name = s.name
    if name is None:
        e = s.elem
        name = e.args[2].args[1] if e.op == "gagg" and len(e.args) == 3 and e.args[2].op == "col" else "0"
    return FrameC(s.ctx.base, s.ctx.rows, {name: s.elem}, (), (const(name),), s.ctx.order, "?", s.ctx.lineage)


def unframe(t):
    """the table a term denotes, if it is one of statistics"""
    if t.op == "frame" and t.args[0].op == "groups" and t.args[1] is TRUE and t.args[4].op == "only":
        cols = {(k.args[0] if k.op == "const" else k): v for k, v in t.args[2]}
        return FrameC(t.args[0], TRUE, cols, t.args[3], t.args[4].args, t.args[5], "?", mk("keyidx", t.args[0]))
    return None


def tables(self, v, st, cond=TRUE):
    """[(condition, table)] joined to another one: a table, a series or a list of them"""
    if isinstance(v, IteV):
        a, b = tables(self, v.a, st, and_(cond, v.c)), tables(self, v.b, st, and_(cond, not_(v.c)))
        return None if a is None or b is None else a + b
    if isinstance(v, SerV):
        f = series_frame(v)
        return None if f is None else [(cond, f)]
    c = self.cell(v, st)
    if isinstance(c, FrameC):
        return [(cond, c)] if c.base.op == "groups" else None
    if isinstance(c, ListC) or isinstance(v, TupV):
        out = []
        for p in (c.parts if isinstance(c, ListC) else v.items):
            r = tables(self, p.t if hasattr(p, "t") and type(p).__name__ == "Splice" else p, st, cond)
            if r is None:
                return None
            out += r
        return out
    if isinstance(v, T):
        if v.op in ("list", "tuple") or v.op == "lcat":
            out = []
            for x in (v.args[1:] if v.op == "lcat" else v.args):
                r = tables(self, x, st, cond)
                if r is None:
                    return None
                out += r
            return out
        if v.op == "ite":
            a, b = tables(self, v.args[1], st, and_(cond, v.args[0])), tables(self, v.args[2], st, and_(cond, not_(v.args[0])))
            return None if a is None or b is None else a + b
        f = unframe(v)
        if f is not None:
            return [(cond, f)]
    return None


def join(self, c, v, st):
    """table c with the columns of tables v of the same groups"""
    if c.base.op != "groups" or c.rows is not TRUE or c.only is None:
        return None
    ts = tables(self, v, st)
    if ts is None or not all(f.base is c.base and f.rows is TRUE and f.only is not None for _, f in ts):
        return None
    cols, only = dict(c.cols), list(c.only)
    for cond, f in ts:
        for x in f.only:
            cx, nm = (and_(cond, x.args[0]), x.args[1]) if x.op == "colif" else (cond, x)
            if nm.op != "const":
                return None
            k = nm.args[0]
            e = f.cols.get(k, col(f.base, k))
            had = [y for y in only if y is nm or y.op == "colif" and y.args[1] is nm]
            if not had:
                cols[k] = e
                only.append(nm if cx is TRUE else mk("colif", cx, nm))
                continue
            y = had[0]
            if y is nm or and_(y.args[0], cx) is not FALSE:
                return None                 # the name is there already
            cols[k] = ite(cx, e, cols[k])
            cc = or_(y.args[0], cx)
            only[only.index(y)] = nm if cc is TRUE else mk("colif", cc, nm)
    return c.rep(cols=cols, only=tuple(only))
