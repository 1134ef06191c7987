"""pandas model: row-level semantics of DataFrame / Series operations (methods of Interp)."""
from . import groups
from . import units
from .terms import *
from .values import *

FRAME_ATTRS = {"values"}


def _name(t):
    return t.args[0] if t.op == "const" and isinstance(t.args[0], str) else t


def dyn_col(c, nm):
    """value of the column with name nm, which may be computed (even from the row itself)"""
    if isinstance(nm, str) or nm in c.cols:
        return c.cols.get(nm, col(c.base, nm))
    e = col(c.base, nm)
    for k, v in c.cols.items():
        if v is col(c.base, k):
            continue
        q = eq(nm, const(k) if isinstance(k, str) else k)
        if q.op == "eq" and q.args[1] is const(""):
            continue      # a name made of a prefix and an empty part
        e = ite(q, v, e)
    return e


def frame_attr(self, o, c, a, st, n):
    if a == "index":
        return IdxV(c.ctx())
    if a == "columns":
        return ColsV(o)
    if a in ("loc", "iloc", "at", "iat"):
        return LocV(o, a)
    if a == "empty":
        return not_(rebuild("nonempty", (c.ctx().term(),)))
    if a == "shape":
        return TupV([mk("len", c.ctx().term()), mk("len", mk("columns", self.frame_term(c)))])
    if a == "size":
        return mk("attr", self.frame_term(c), "size")
    if a == "values":
        return mk("attr", self.frame_term(c), "values")
    if a in ("T", "dtypes", "attrs"):
        return mk("attr", self.frame_term(c), a)
    if a in _METHODS:
        return BndV(o, a)
    # column by attribute
    return SerV(c.ctx(), c.cols.get(a, col(c.base, a)))


_METHODS = {"drop", "reset_index", "copy", "astype", "rename", "merge", "join", "set_index", "sort_values", "sort_index",
            "query", "dropna", "groupby", "assign", "to_csv", "to_sql", "to_hdf", "insert", "apply", "round", "head",
            "tail", "iterrows", "itertuples", "drop_duplicates", "duplicated", "fillna", "isin", "filter", "items",
            "keys", "pop", "memory_usage", "to_numpy", "to_records", "to_dict", "describe", "mean", "max", "min", "sum",
            "any", "all", "isnull", "isna", "notnull", "reindex", "append", "sample", "where", "mask", "get", "agg",
            "aggregate", "equals", "nunique", "count", "transpose", "stack", "melt", "pivot", "eval", "update", "select_dtypes",
            "take", "squeeze", "map", "applymap", "pipe", "compare", "truncate", "explode"}


def frame_get(self, o, c, k, st, n):
    if isinstance(k, SerV):
        if isbool(k.elem) or k.elem.op in ("call", "col", "ite", "item", "sym", "attr"):
            self.check_align(c.ctx(), "series", k, st, n)
            return self.new(st, c.rep(rows=and_(c.rows, truth(k.elem)), index="G"))
    kc = self.cell(k, st)
    if isinstance(kc, FrameC):
        return mk("item", self.frame_term(c), self.frame_term(kc))
    kt = self.term(k, st)
    if isinstance(k, ColsV):
        return self.new(st, c.rep())
    if kt.op in ("list", "tuple", "set"):
        names = list(kt.args)
        if c.only is not None and all(x.op == "const" for x in names) and not any(x.op == "whole" for x in c.only):
            gone = [x for x in names if self.has_col(c, x) is FALSE]
            if gone:
                self.note("missing-column", "column %s is not in the frame" % show(gone[0]), n)
                self.raise_now(st, "KeyError", gone[0], n)
                return mk("missingcol", *gone)
        if all(x.op == "const" for x in names) or names:
            return self.new(st, c.rep(only=tuple(names)))
    if kt.op == "slice":
        return self.new(st, FrameC(mk("rowslice", self.frame_term(c), kt), index="?"))
    if isbool(kt) and not is_const(kt):
        self.check_draws(c.ctx(), kt, n)
        return self.new(st, c.rep(rows=and_(c.rows, kt), index="G"))
    if kt.op == "ite" and kt.args[1].op in ("list",) and kt.args[2].op in ("list",):
        return self.new(st, c.rep(only=(mk("whole", kt),)))
    if kt.op in ("map", "flatmap", "columns"):
        x = all_but(kt, c)
        if x is not None:
            r = self.new(st, c.rep())
            frame_dropcols(self, r, x, st)
            return r
        return self.new(st, c.rep(only=(mk("whole", kt),)))
    nm = _name(kt)
    fam = [k for k in c.cols if isinstance(k, T) and k.op == "colfam"]
    if any(k.args[0] is kt for k in fam):
        return self.new(st, c.rep(only=(mk("whole", kt),)))
    if nm in c.cols:
        e = c.cols[nm]
    elif fam:
        e = col(c.base, nm)
        for k in fam:
            e = mk("famcol", k.args[0], c.cols[k], kt, e)
    else:
        if kt.op == "ite":
            e = ite(kt.args[0], c.cols.get(_name(kt.args[1]), col(c.base, _name(kt.args[1]))), c.cols.get(_name(kt.args[2]), col(c.base, _name(kt.args[2]))))
        else:
            e = dyn_col(c, nm) if isinstance(nm, T) and nm.op == "concat" else col(c.base, nm)
        if kt in c.dropped or (c.only is not None and kt.op == "const" and self.has_col(c, kt) is FALSE):
            self.note("missing-column", "column %s is not in the frame" % show(kt), n)
            self.raise_now(st, "KeyError", kt, n)
            return mk("missingcol", kt)
        if kt.op == "const":
            self.missing_column(st, c, kt, n)
        self.eff(st, "readcol", str(nm) if isinstance(nm, str) else show(nm), [o], node=n)
    return SerV(c.ctx(), e)


def all_but(t, c):
    """the names left out by a selection of columns (a mask over them, or a filtered list of them)"""
    name = None
    if t.op == "map" and len(t.args) == 3 and t.args[1].op == "item" and t.args[1].args[0] is mk("columns", c.base):
        name, t = t.args[1], t.args[2]
    elif t.op == "not":
        name = mk("colname", c.base)
    if name is None or c.cols and any(isinstance(k, T) for k in c.cols):
        return None
    out = []
    for x in (t.args if t.op == "and" else (t,)):
        if x.op != "not":
            return None
        x = x.args[0]
        if x.op == "eq" and name in x.args:
            y = x.args[1] if x.args[0] is name else x.args[0]
            ys = [y]
        elif x.op == "in" and x.args[0] is name and x.args[1].op in ("list", "tuple", "set"):
            ys = list(x.args[1].args)
        else:
            return None
        if not all(y.op == "const" for y in ys):
            return None
        out += ys
    return out


def present_names(t):
    """the names x of a list built as `those of x.. that are columns`"""
    out = []
    if t.op != "lcat":
        return None
    for x in t.args[1:]:
        if x.op == "list":
            out += x.args
        elif x.op == "ite" and x.args[1].op == "list" and x.args[2].op == "list" and not x.args[2].args and len(x.args[1].args) == 1 \
                and x.args[0].op == "in" and x.args[0].args[0] is x.args[1].args[0] and x.args[0].args[1].op == "columns":
            out += x.args[1].args
        else:
            return None
    return out


def loc_get(self, o, k, st, n):
    c = self.cell(o.ref, st)
    if not isinstance(c, FrameC):
        if isinstance(o.ref, SerV) and o.kind == "iloc" and isinstance(k, T) and k.op == "idx":
            return mk("item", self.term(o.ref, st), k)
        if isinstance(o.ref, SerV):
            return self.getitem(o.ref, k, st, n) if o.kind in ("loc", "iloc") and isinstance(k, (SerV, PosV)) else mk("item", mk("attr", self.term(o.ref, st), o.kind), self.term(k, st))
        return mk("item", mk("attr", self.term(o.ref, st), o.kind), self.term(k, st))
    rowk, colk = (k.items if isinstance(k, TupV) and len(k.items) == 2 else (k, None))

    def rows(cell):
        rk = rowk
        if isinstance(rk, SerV) and isbool(rk.elem):
            self.check_align(cell.ctx(), "series", rk, st, n)
            return cell.rep(rows=and_(cell.rows, rk.elem), index="G")
        if isinstance(rk, PosV):
            if o.kind == "iloc":
                if rk.ctx.base is cell.base and rk.ctx.rows is cell.rows:
                    return cell.rep(rows=and_(cell.rows, rk.elem), index="G")
            elif rk.ctx.lineage is cell.lineage and cell.index == "R":
                return cell.rep(rows=and_(cell.rows, rk.elem), index="G")
            self.aligns.append(("position-as-label", "positions of %s used to select labels of %s" % (show(rk.ctx.term(), 3), show(self.frame_term(cell), 3)), self.where(n)))
        if isinstance(rk, IdxV):
            if o.kind == "loc" and rk.ctx.lineage is cell.lineage:
                return cell.rep(rows=and_(cell.rows, rk.ctx.rows), index="G")
            if o.kind == "iloc":
                if rk.ctx.lineage is cell.lineage and rk.ctx.index == "R" and cell.index == "R":
                    return cell.rep(rows=and_(cell.rows, rk.ctx.rows), index="G")
                self.aligns.append(("label-as-position", "labels of %s used as positions" % show(rk.ctx.term(), 3), self.where(n)))
        t = self.term(rk, st)
        if t.op == "slice":
            if all(x is NONE for x in t.args):
                return cell
            return FrameC(mk("rowslice", self.frame_term(cell), const(o.kind), t), index="?")
        if isbool(t) and not is_const(t):
            return cell.rep(rows=and_(cell.rows, t), index="G")
        if num(t) is not None or t.op in ("idx", "poly"):
            return None
        if o.kind == "iloc":
            self.eff(st, "positional", "iloc", [o.ref, rk], node=n)
        else:
            self.eff(st, "bylabel", "loc", [o.ref, rk], node=n)
        return FrameC(mk("rowsel", const(o.kind), self.frame_term(cell), t), index="G", lineage=mk("sel", cell.lineage))

    cc = rows(c)
    if cc is None:
        t = self.term(rowk, st)
        row = mk("row", self.frame_term(c), const(o.kind), t)
        if colk is None:
            return row
        return mk("item", row, self.term(colk, st))
    if colk is None:
        return self.new(st, cc)
    ct = self.term(colk, st)
    if ct.op == "slice":
        return self.new(st, cc)
    if isinstance(colk, SerV) or ct.op in ("list", "map", "flatmap", "columns", "call", "not", "in") or (isbool(ct) and not is_const(ct)):
        if ct.op == "list":
            return self.new(st, cc.rep(only=tuple(ct.args)))
        x = all_but(ct, cc)
        if x is not None:
            r = self.new(st, cc.rep())
            frame_dropcols(self, r, x, st)
            return r
        return self.new(st, FrameC(mk("colsel", self.frame_term(cc), ct), index=cc.index, lineage=cc.lineage))
    return frame_get(self, self.new(st, cc), cc, colk, st, n)


def frame_dropcols(self, o, names, st, inplace=True):
    c = self.cell(o, st)
    cols = dict(c.cols)
    dropped = set(c.dropped)
    for nm in names:
        t = self.term(nm, st) if not isinstance(nm, T) else nm
        k = _name(t)
        if k in cols:
            del cols[k]
            if ("base" if False else None):
                pass
            if c.only is not None:
                pass
            if mk("in", t, mk("columns", c.base)) is None:
                pass
            dropped.add(t)
        else:
            dropped.add(t)
    only = c.only
    if only is not None:
        only = tuple(x for x in only if x not in dropped and not (x.op == "colif" and x.args[1] in dropped))
    nc = c.rep(cols=cols, dropped=frozenset(dropped), only=only)
    if inplace:
        st.heap[o.id] = nc
        return o
    return self.new(st, nc)


def frame_method(self, o, name, args, kws, st, n):
    c = self.cell(o, st)
    kt = {k: self.term(v, st) for k, v in kws.items()}
    inplace = kt.get("inplace", FALSE)

    def out(nc):
        if inplace is TRUE:
            st.heap[o.id] = nc
            return NONE
        return self.new(st, nc)

    def kw(i, k, d=None):
        if k in kws:
            return kws[k]
        if i is not None and i < len(args):
            return args[i]
        return d

    if name == "copy":
        return self.new(st, c.rep())
    if name in ("all", "any") and kt.get("axis", self.term(args[0], st) if args else ZERO) in (ONE, const("columns")) and c.only is not None and not any(x.op == "colif" for x in c.only):
        per = []
        for x in c.only:
            if x.op == "whole":
                m = c.cols.get(mk("colfam", x.args[0]))
                if m is None or m.op != "map" or m.args[2] is not TRUE or len(m.args) > 3:
                    per = None
                    break
                v = truth(m.args[1])
                per.append(self.forall(m.args[0], v) if name == "all" else self.exists(m.args[0], v))
            else:
                per.append(truth(c.cols.get(_name(x), col(c.base, _name(x)))))
        if per:
            return SerV(c.ctx(), and_(*per) if name == "all" else or_(*per), "series")
    if name == "reset_index":
        drop = kt.get("drop", self.term(args[1], st) if len(args) > 1 else FALSE)
        if drop is TRUE:
            lin = mk("reset", self.frame_term(c.rep(cols={}, dropped=(), only=None)))
            return out(c.rep(index="R", lineage=lin))
        nc = FrameC(mk("reset_index", self.frame_term(c)), index="R")
        if c.index == "R":
            pass
        return out(nc)
    if name == "drop":
        axis = kt.get("axis", self.term(args[1], st) if len(args) > 1 else ZERO)
        colsarg = kws.get("columns")
        labels = kw(0, "labels")
        if colsarg is None and axis in (ONE, const("columns")):
            colsarg, labels = labels, None
        idx = kws.get("index", labels)
        nc_ref = o if inplace is TRUE else self.new(st, c)
        if colsarg is not None:
            ct = self.term(colsarg, st)
            names = list(ct.args) if ct.op in ("list", "tuple", "set") else present_names(ct) or [ct]
            self.frame_dropcols(nc_ref, names, st, True)
        if idx is not None:
            cc = self.cell(nc_ref, st)
            st.heap[nc_ref.id] = self_drop_rows(self, cc, idx, st, n)
        return NONE if inplace is TRUE else nc_ref
    if name == "rename":
        ct = self.term(kws.get("columns", args[0] if args else NONE), st)
        if ct.op == "dict" and all(a.op == "kv" for a in ct.args):
            cols, dropped = dict(c.cols), set(c.dropped)
            new = {}
            for kv in ct.args:
                old, nw = kv.args
                e = c.cols.get(_name(old), col(c.base, _name(old)))
                cols.pop(_name(old), None)
                dropped.add(old)
                new[_name(nw)] = e
                dropped.discard(nw)
            cols.update(new)
            only = c.only
            if only is not None:
                mp = {kv.args[0]: kv.args[1] for kv in ct.args}
                only = tuple(mk("colif", x.args[0], mp.get(x.args[1], x.args[1])) if x.op == "colif" else mp.get(x, x) for x in only)
            return out(c.rep(cols=cols, dropped=frozenset(dropped), only=only))
        return out(FrameC(mk("rename", self.frame_term(c), ct), index=c.index, lineage=c.lineage))
    if name == "assign":
        cols = dict(c.cols)
        for k, v in kws.items():
            if isinstance(v, FuncV):
                v = self.call_value(v, [o], {}, st, n)
            cols[k] = self.elem(v, c, st, n)
        return self.new(st, c.rep(cols=cols))
    if name == "insert":
        nm = _name(self.term(kw(1, "column"), st))
        cols = dict(c.cols)
        cols[nm] = self.elem(kw(2, "value"), c, st, n)
        st.heap[o.id] = c.rep(cols=cols)
        return NONE
    if name == "dropna":
        sub_ = kws.get("subset", None)
        if sub_ is not None:
            t = self.term(sub_, st)
            names = list(t.args) if t.op in ("list", "tuple") else [t]
            cond = and_(*[not_(isnan(c.cols.get(_name(x), col(c.base, _name(x))))) for x in names])
            return out(c.rep(rows=and_(c.rows, cond), index="G"))
        return out(FrameC(mk("dropna", self.frame_term(c)), index="G", lineage=c.lineage))
    if name in ("sort_values",):
        by = self.term(kw(0, "by"), st)
        asc = kt.get("ascending", TRUE)
        o_ = mk("sorted", c.order, by, asc)
        ig = kt.get("ignore_index", FALSE)
        return out(c.rep(order=o_, index="R" if ig is TRUE else ("G" if c.index in "RG" else c.index)))
    if name == "sort_index":
        if c.index == "R" or (c.index == "G" and c.order is NONE):
            return out(c.rep())
        return out(c.rep(order=mk("sortedindex", c.order, c.lineage)))
    if name == "set_index":
        nm = self.term(kw(0, "keys"), st)
        return out(FrameC(mk("set_index", self.frame_term(c), nm), index="?", lineage=mk("keyidx", nm)))
    if name in ("merge", "join"):
        other = kw(0, "right" if name == "merge" else "other")
        if name == "join" and "on" not in kt and not any(k.startswith(("l", "r")) for k in kt) or kt.get("left_index") is TRUE and kt.get("right_index") is TRUE:
            j = groups.join(self, c, other, st)
            if j is not None:
                return self.new(st, j)
        ot = self.term(other, st)
        d = {k: v for k, v in kt.items()}
        return merge_frames(self, c, ot, d, name, st, n, other)
    if name == "groupby":
        return mk("call", ".groupby", self.frame_term(c), *[self.term(a, st) for a in args], *[mk("kw", k, v) for k, v in sorted(kt.items())])
    if name in ("to_csv", "to_sql", "to_hdf", "to_parquet", "to_pickle", "to_json"):
        r = mk("call", "." + name, self.frame_term(c), *[self.term(a, st) for a in args], *[mk("kw", k, v) for k, v in sorted(kt.items())])
        self.eff(st, "mcall", name, [o] + list(args), kws, n, r)
        return r
    if name == "round":
        d = kw(0, "decimals", ZERO)
        dt = self.term(d, st)
        if dt.op == "dict":
            cols = dict(c.cols)
            ok = True
            for a in dt.args:
                if a.op == "kv":
                    e = c.cols.get(_name(a.args[0]), col(c.base, _name(a.args[0])))
                    cols[_name(a.args[0])] = mk("call", "round", e, a.args[1])
                else:
                    ok = False
            if ok:
                return self.new(st, c.rep(cols=cols))
        if c.only is not None and not any(x.op == "whole" for x in c.only):
            cols = dict(c.cols)
            for x in c.only:
                x = x.args[1] if x.op == "colif" else x
                cols[_name(x)] = mk("call", "round", c.cols.get(_name(x), col(c.base, _name(x))), dt)
            return self.new(st, c.rep(cols=cols))
        return self.new(st, FrameC(mk("round", self.frame_term(c), dt), index=c.index, lineage=c.lineage))
    if name == "iterrows":
        return mk("call", ".iterrows", self.frame_term(c))
    if name == "query":
        q = self.term(args[0], st)
        return out(FrameC(mk("query", self.frame_term(c), q), index="G", lineage=c.lineage))
    if name == "get":
        return self.frame_get(o, c, args[0], st, n)
    if name == "pop":
        r = self.frame_get(o, c, args[0], st, n)
        self.frame_dropcols(o, [args[0]], st, True)
        return r
    if name == "astype":
        t = self.term(kw(0, "dtype"), st)
        if t.op == "dict":
            cols = dict(c.cols)
            for a in t.args:
                if a.op == "kv":
                    e = c.cols.get(_name(a.args[0]), col(c.base, _name(a.args[0])))
                    cols[_name(a.args[0])] = astype(e, a.args[1])
            return self.new(st, c.rep(cols=cols))
        return self.new(st, FrameC(mk("astype", self.frame_term(c), t), index=c.index, lineage=c.lineage))
    if name == "to_records":
        dt = kt.get("column_dtypes")
        if (dt is None or (dt.op == "dict" and all(a.op == "kv" for a in dt.args))) and kt.get("index") is FALSE:
            cols = dict(c.cols)
            for a in (dt.args if dt is not None else ()):
                k = _name(a.args[0])
                if c.only is not None and self.has_col(c, a.args[0]) is FALSE:
                    continue
                cols[k] = astype(c.cols.get(k, col(c.base, k)), canon_dtype(a.args[1]))
            return self.new(st, c.rep(cols=cols, index="R", lineage=mk("reset", c.ctx().term())))
    if name == "items" or name == "keys":
        return mk("call", "." + name, self.frame_term(c))
    if name == "apply":
        t = mk("call", ".apply", self.frame_term(c), *[self.term(a, st) for a in args], *[mk("kw", k, v) for k, v in sorted(kt.items())])
        ax = kt.get("axis", self.term(args[1], st) if len(args) > 1 else ZERO)
        if ax in (ONE, const("columns")) and args and isinstance(args[0], FuncV):
            rowref = self.new(st, ObjC("row", {}))
            r = self.call_value(args[0], [mk("rowof", self.frame_term(c))], {}, st, n)
            def own(x):
                if x.op == "item" and x.args[0].op == "rowof":
                    k = subst(x.args[1], own)
                    k = concat(*k.args) if k.op == "concat" else k
                    return dyn_col(c, _name(k))
                return None
            e = subst(self.term(r, st), own)
            return SerV(c.ctx(), e)
        return t
    if name in ("isnull", "isna", "notna", "notnull") and c.only is not None and c.only and all(x.op == "const" for x in c.only):
        vs = [isnan(c.cols.get(_name(x), col(c.base, _name(x)))) for x in c.only]
        if name in ("notna", "notnull"):
            vs = [not_(x) for x in vs]
        return mk("cellmask", c.base, c.rows, or_(*vs), and_(*vs), "frame")
    if name in ("isin", "isnull", "isna"):
        return mk("call", "." + name, self.frame_term(c), *[self.term(a, st) for a in args])
    if name in ("fillna", "drop_duplicates", "head", "tail", "sample", "reindex", "append", "filter", "where", "mask", "truncate", "replace", "update", "take", "explode"):
        t = mk(name, self.frame_term(c), *[self.term(a, st) for a in args], *[mk("kw", k, v) for k, v in sorted(kt.items()) if k != "inplace"])
        nc = FrameC(t, index="G" if name in ("drop_duplicates", "sample") else ("?" if name in ("head", "tail", "reindex", "append") else c.index), lineage=c.lineage)
        if name in ("drop_duplicates",):
            nc = FrameC(t, index="G", lineage=c.lineage)
        return out(nc)
    t = mk("call", "." + name, self.frame_term(c), *[self.term(a, st) for a in args], *[mk("kw", k, v) for k, v in sorted(kt.items())])
    self.eff(st, "mcall", name, [o] + list(args), kws, n, t)
    return t


def self_drop_rows(self, c, idx, st, n):
    if isinstance(idx, IdxV):
        if idx.ctx.lineage is c.lineage:
            if c.index == "?" or idx.ctx.index == "?":
                self.note("index", "drop by labels of an index of unknown uniqueness", n)
            return c.rep(rows=and_(c.rows, not_(idx.ctx.rows)), index="G")
        self.aligns.append(("foreign-labels", "labels of %s dropped from %s" % (show(idx.ctx.term(), 3), show(self.frame_term(c), 3)), self.where(n)))
        return FrameC(mk("droplabels", self.frame_term(c), self.term(idx, st)), index="G", lineage=c.lineage)
    if isinstance(idx, PosV):
        if c.index == "R" and idx.ctx.base is c.base and idx.ctx.rows is c.rows:
            return c.rep(rows=and_(c.rows, not_(idx.elem)), index="G")
        if idx.ctx.base is c.base and idx.ctx.rows is c.rows:
            self.aligns.append(("position-as-label", "positions dropped as labels from a table whose labels may have gaps (%s)" % show(self.frame_term(c), 3), self.where(n)))
            return c.rep(rows=and_(c.rows, not_(mk("mislabel", idx.elem))), index="G")
        self.aligns.append(("position-as-label", "positions of other rows dropped from %s" % show(self.frame_term(c), 3), self.where(n)))
    t = self.term(idx, st)
    # union of label sets collected over a loop: [.. for ..] of labels
    r = label_union(self, t, c)
    if r is not None:
        return c.rep(rows=and_(c.rows, not_(r)), index="G")
    if t.op in ("wherepos",):
        if c.index == "R":
            return c.rep(rows=and_(c.rows, not_(t.args[0])), index="G")
        self.aligns.append(("position-as-label", "positions dropped as labels from a table whose labels may have gaps (%s)" % show(self.frame_term(c), 3), self.where(n)))
        return c.rep(rows=and_(c.rows, not_(mk("mislabel", t.args[0]))), index="G")
    self.eff(st, "bylabel", "drop", [self.new(st, c), idx], node=n)
    return c.rep(rows=and_(c.rows, not_(mk("in", mk("label", c.lineage), t))), index="G")


def label_union(self, t, c):
    """predicate 'the row's label is in t' for label collections built from masks over c's own lineage"""
    if t.op == "labels":
        if t.args[1] is c.lineage:
            return t.args[0].args[1]
        return None
    if t.op == "lcat":
        rs = [label_union(self, a, c) for a in t.args[1:]]
        return or_(*rs) if all(r is not None for r in rs) else None
    if t.op in ("list", "set", "tuple"):
        rs = [label_union(self, a, c) for a in t.args]
        if all(r is not None for r in rs):
            return or_(*rs)
        return None
    if t.op == "call" and t.args[0] in ("list", "set", "sorted", "numpy.concatenate", "numpy.unique", ".tolist", "numpy.hstack", "set|", "sum", ".union", "itertools.chain.from_iterable", "numpy.array"):
        rs = [label_union(self, a, c) for a in t.args[1:] if a.op != "kw" and not (a.op == "list" and not a.args)]
        if rs and all(r is not None for r in rs):
            return or_(*rs)
        return None
    if t.op in ("map", "flatmap"):
        L, x, cond = t.args[:3]
        if t.op == "flatmap" and x.op == "map" and x.args[2] is TRUE and x.args[1] is mk("item", x.args[0].args[0], mk("idx", x.args[0])):
            x = x.args[0].args[0]
        # flattening [x for xs in C for x in xs] gives the union of C's elements
        if t.op == "map" and x.op == "item" and x.args[1].op == "idx" and x.args[1].args[0] is L:
            return label_union(self, x.args[0], c)
        r = label_union(self, x, c)
        if r is not None:
            return self.exists(L, and_(cond, r)) if True else None
        if x.op in ("item", "idx", "map"):
            return label_union(self, L.args[0], c)
        return None
    if t.op == "ite":
        a, b = label_union(self, t.args[1], c), label_union(self, t.args[2], c)
        if a is not None and b is not None:
            return ite(t.args[0], a, b)
    return None


def merge_frames(self, c, other_t, d, name, st, n, other=None):
    d = dict(d)
    lt_ = self.frame_term(c)
    if name == "join":
        d.setdefault("how", const("left"))
    else:
        d.setdefault("how", const("inner"))
        if "on" in d:
            d["left_on"] = d["right_on"] = d.pop("on")
        for k in ("left_on", "right_on"):
            if k in d and d[k].op in ("list", "tuple") and len(d[k].args) == 1:
                d[k] = d[k].args[0]
    if name == "join" and "on" in d and other_t.op == "set_index" and other_t.args[1] is d["on"] and not d.keys() - {"on", "how", "sort", "validate"}:
        # joining on a column with a table indexed by it is merging on that column
        other_t = other_t.args[0]
        d["left_on"] = d["right_on"] = d.pop("on")
    t = mk("merge", lt_, other_t, *[mk("kw", k, v) for k, v in sorted(d.items()) if k not in ("copy", "sort")])
    self.eff(st, "merge", name, [lt_, other_t], {k: v for k, v in d.items()}, n, t)
    idx = "R" if name == "merge" else "?"
    return self.new(st, FrameC(t, index=idx))


def isnan(e):
    return FALSE if e.op == "num" else mk("isnan", e)


def canon_dtype(t):
    m = {"f8": "float64", "i8": "int64", "u8": "uint64"}
    return const(m[t.args[0]]) if t.op == "const" and t.args[0] in m else t


def astype(e, t):
    if t.op == "ext" and t.args[0] in ("builtins.float", "numpy.float64"):
        return e
    if t.op == "const" and t.args[0] in ("float", "float64"):
        return e
    if t.op == "ext" and t.args[0] == "builtins.str" or t.op == "const" and t.args[0] == "str":
        return mk("call", "str", e)
    return mk("call", "astype", e, t)


# ------------------------------------------------------------------ series
def ser_attr(self, o, a, st, n):
    if a in ("values", "array"):
        return SerV(o.ctx, o.elem, "array")
    if a == "index":
        return IdxV(o.ctx)
    if a in ("loc", "iloc", "at", "iat"):
        return LocV(o, a)
    if a in ("str", "dt"):
        return StrV(o, a)
    if a in ("size",):
        return mk("len", o.ctx.term())
    if a == "shape":
        return TupV([mk("len", o.ctx.term())])
    if a == "empty":
        return not_(rebuild("nonempty", (o.ctx.term(),)))
    if a in ("name", "dtype", "T", "ndim", "unit"):
        return mk("attr", self.term(o, st), a) if a != "T" else o
    if a == "value":
        v = units.value(o.elem)
        if v is not None:
            return SerV(o.ctx, v, "array")
    if a in ("value", "degree", "deg", "rad", "km", "au", "ra", "dec", "real", "arcsec", "radian"):
        return SerV(o.ctx, mk("attr", o.elem, a), "array")
    return BndV(o, a)


ELEMENTWISE_METHODS = {"abs", "round", "clip", "fillna", "to", "to_value", "separation", "tan", "exp"}


def ser_method(self, o, name, args, kws, st, n):
    kt = {k: self.term(v, st) for k, v in kws.items()}
    ats = [self.term(a, st) for a in args]
    if name == "to_frame":
        f = groups.series_frame(o, *[a.args[0] for a in ats + list(kt.values()) if a.op == "const"])
        if f is not None:
            return self.new(st, f)
    if name == "rename" and o.ctx.base.op == "groups" and ats and ats[0].op == "const":
        return SerV(o.ctx, o.elem, o.kind, ats[0].args[0])
    if name == "to_frame" and not args and not kws:
        from .calls import series_table
        f = series_table(o)
        if f is not None:
            return self.new(st, f)
    if name in ("copy", "ravel", "flatten", "squeeze", "rename", "infer_objects", "to_frame"):
        return o
    if name in ("to_numpy", "tolist", "to_list", "__array__", "to_array"):
        return SerV(o.ctx, o.elem, "array")
    if name in ("isin",):
        a = args[0]
        r = self.contains(o, a, st, n)
        if isinstance(r, SerV):
            return SerV(o.ctx, r.elem, o.kind)
        t = self.term(a, st)
        if t.op in ("list", "tuple", "set"):
            return SerV(o.ctx, or_(*[eq(o.elem, x) for x in t.args]), o.kind)
        return SerV(o.ctx, mk("in", o.elem, canon_coll(t)), o.kind)
    if name in ("isnull", "isna"):
        return SerV(o.ctx, isnan(o.elem), o.kind)
    if name in ("notnull", "notna"):
        return SerV(o.ctx, not_(isnan(o.elem)), o.kind)
    if name == "astype":
        return SerV(o.ctx, astype(o.elem, ats[0] if ats else kt.get("dtype", NONE)), o.kind)
    if name == "between":
        inc = kt.get("inclusive", const("both"))
        lo, hi = ats[0], ats[1]
        a = {"both": and_(ge(o.elem, lo), le(o.elem, hi)), "neither": and_(gt(o.elem, lo), lt(o.elem, hi)),
             "left": and_(ge(o.elem, lo), lt(o.elem, hi)), "right": and_(gt(o.elem, lo), le(o.elem, hi))}.get(pyval(inc) if is_const(inc) else None)
        if a is not None:
            return SerV(o.ctx, a, o.kind)
    cmpf = {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": lambda a, b: not_(eq(a, b)), "add": add, "sub": sub, "mul": mul, "div": div,
            "truediv": div, "pow": pow_, "radd": add, "rmul": mul, "rsub": lambda a, b: sub(b, a), "rdiv": lambda a, b: div(b, a), "multiply": mul, "subtract": sub, "divide": div}
    if name in cmpf and args:
        return self.lift(cmpf[name], st, o, args[0], node=n)
    if name in ("all", "any"):
        return rebuild("allrows" if name == "all" else "anyrows", (o.ctx.term(), truth(o.elem)))
    if name in ("apply", "map", "transform"):
        f = args[0]
        if isinstance(f, FuncV):
            r = self.call_value(f, [o.elem] + list(kws.get("args", TupV([])).items if isinstance(kws.get("args"), TupV) else []), {}, st, n)
            return SerV(o.ctx, self.term(r, st), o.kind)
        if isinstance(f, ExtV):
            r = self.call_value(f, [o.elem], {}, st, n)
            return SerV(o.ctx, self.term(r, st), o.kind)
        fc = self.cell(f, st)
        if isinstance(fc, DictC):
            r = self.getitem(f, o.elem, st, n)
            return SerV(o.ctx, self.term(r, st), o.kind)
        return SerV(o.ctx, mk("item", self.term(f, st), o.elem), o.kind)
    if name == "unique":
        return mk("call", ".unique", self.term(o, st))
    if name in ("to", "to_value") and len(ats) == 1 and not kt:
        v = units.to(o.elem, ats[0])
        if v is not None:
            return SerV(o.ctx, v if name == "to" else units.value(v), o.kind)
    if name in ("abs",):
        return SerV(o.ctx, absx(o.elem), o.kind)
    if name in ("to", "to_value", "round", "clip", "fillna", "replace", "where", "mask", "shift", "diff", "cumsum", "combine_first"):
        args_t = [a.elem if isinstance(a, SerV) else self.term(a, st) for a in args]
        return SerV(o.ctx, mk("call", name if name == "round" else "." + name, o.elem, *args_t, *[mk("kw", k, v) for k, v in sorted(kt.items())]), o.kind)
    if name == "reset_index":
        return SerV(RowCtx(o.ctx.base, o.ctx.rows, o.ctx.order, mk("reset", o.ctx.term()), "R"), o.elem, o.kind)
    if name == "dropna":
        return SerV(RowCtx(o.ctx.base, and_(o.ctx.rows, not_(isnan(o.elem))), o.ctx.order, o.ctx.lineage, "G"), o.elem, o.kind)
    if name in ("sum", "max", "min", "mean", "median", "std", "nunique", "argmax", "argmin", "idxmax", "idxmin", "count", "item", "prod", "var"):
        if name == "nunique" and not ats and not kt:
            return mk("len", mk("call", ".unique", self.term(o, st)))
        t = mk("call", "agg." + name, self.term(o, st), *ats, *[mk("kw", k, v) for k, v in sorted(kt.items())])
        return t
    if name in ("isspace",):
        pass
    t = mk("call", "." + name, self.term(o, st), *ats, *[mk("kw", k, v) for k, v in sorted(kt.items())])
    self.eff(st, "mcall", name, [o] + list(args), kws, n, t)
    return t
