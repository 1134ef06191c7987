"""Registry of properties, reference programs, and the comparison of a function with its reference."""
from sa.rule import *

PROPS = {}      # id -> list of rule functions
SPECS = {}      # module name -> source of reference programs
NOTES = {}


def prop(*ids):
    def deco(f):
        for i in ids:
            PROPS.setdefault(i, []).append(f)
        return f
    return deco


def spec(name, src):
    SPECS["vspec." + name] = src


def alive(r, mask=None):
    """condition under which the call returns normally, abnormal library failures aside"""
    t = r.st.pc
    def f(x):
        if x.op == "exc":
            return FALSE
        return None
    return subst(t, f)


def strip_exc(t):
    return subst(t, lambda x: FALSE if x.op == "exc" else None)


def returns_frame(r, v=None):
    return r.frame(v)


def working(*rs):
    """names of the columns the calls set themselves"""
    return {e.name for r in rs for e in r.I.effects if e.kind == "setcol"}


def alternatives(v, c=TRUE):
    """[(condition, value)] of a value that depends on conditions"""
    if isinstance(v, IteV):
        return alternatives(v.a, and_(c, v.c)) + alternatives(v.b, and_(c, not_(v.c)))
    return [(c, v)]


def compare_value(ctx, rule, construct, g, gv, w, wv, what="the result", ignore=(), order=True, mask=None):
    """compare two interpreted values (tables column by column, tuples element by element)"""
    gc, wc = g.cell(gv), w.cell(wv)
    if isinstance(gv, IteV) or isinstance(wv, IteV):
        ga, wa = alternatives(gv), alternatives(wv)
        if len(ga) * len(wa) <= 24 and any(not isinstance(v, T) for _, v in ga + wa) and not ctx.agree(clean(g.term(gv)), clean(w.term(wv))):
            for cw, b in wa:
                for cg, a in ga:
                    both = and_(cg, cw) if ctx.given is TRUE else and_(ctx.given, cg, cw)
                    if implies(both, FALSE):
                        continue
                    old, ctx.given = ctx.given, both
                    try:
                        compare_value(ctx, rule, construct, g, a, w, b, what, ignore, order, mask)
                    finally:
                        ctx.given = old
            return
    if isinstance(wv, TupV):
        items = None
        if isinstance(gv, TupV):
            items = gv.items
        elif isinstance(gc, ListC) and gc.known():
            items = gc.parts
        if items is None or len(items) != len(wv.items):
            return ctx.bad(rule, construct, "returns %s, must return %d values" % (show(g.term(gv), 4)[:200], len(wv.items)))
        for i, (a, b) in enumerate(zip(items, wv.items)):
            compare_value(ctx, rule, construct, g, a, w, b, "result %d" % i, ignore, order)
        return
    if isinstance(wc, FrameC):
        if not isinstance(gc, FrameC):
            return ctx.bad(rule, construct, "%s is %s, must be a table" % (what, show(g.term(gv), 5)[:300]))
        cmp_frames(ctx, rule, construct, gc, wc, ignore=ignore, order=order, temps=working(g, w))
        return
    if isinstance(wv, SerV):
        if not isinstance(gv, SerV):
            return ctx.bad(rule, construct, "%s is %s, must be one value per row" % (what, show(g.term(gv), 5)[:300]))
        ctx.eq(rule, construct, gv.ctx.term(), wv.ctx.term(), "rows of " + what)
        ctx.eq(rule, construct, clean(gv.elem), clean(wv.elem), what)
        return
    ctx.eq(rule, construct, clean(g.term(gv)), clean(w.term(wv)), what)


def clean(t):
    """abnormal library failures set aside"""
    return subst(t, lambda x: FALSE if x.op == "exc" else None) if contains(t, lambda x: x.op == "exc") else t


def same_defaults(ctx, rule, con, g, qual, w, rq):
    """a parameter both have, and both give a default, has the same default"""
    def defaults(r, q):
        f = r.I.get_func(q)
        if not hasattr(f.node, "args"):
            return {}
        a = f.node.args
        ps = a.posonlyargs + a.args
        ds = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        st = St(dict(r.I.modenv(f.mod)), {}, TRUE)
        out = {}
        for k, d in ds.items():
            try:
                t = r.I.term(r.I.ev(d, st), st)
            except Exception:
                continue
            if is_const(t):
                out[k] = t
        return out
    a, b = defaults(g, qual), defaults(w, rq)
    for k in sorted(set(a) & set(b)):
        ctx.ob(rule, a[k] is b[k], con, "parameter %s is %s when it is not given, must be %s" % (k, show(a[k]), show(b[k])))


def same(ctx, rule, qual, ref, frames=(), args=None, ignore=(), order=True, exits=True, self_=None, rself=None,
         opaque=(), ret_frames=(), opaque_fn=None, hooks=None, index="R", draws=True, value=True, construct=None):
    """function `qual` of the repository computes what reference function `ref` computes, for every input"""
    rq = "vspec." + ref
    w = ctx.run(rq, frames, args, opaque, ret_frames, rself, index, hooks, opaque_fn)
    names, req = own_params(w.I.get_func(rq), rself is not None)
    g = ctx.run(qual, frames, args, opaque, ret_frames, self_, index, hooks, opaque_fn, like=req)
    con = construct or qual
    check_notes(ctx, g, con)
    same_defaults(ctx, rule, con, g, qual, w, rq)
    if value:
        ctx.given = clean(w.st.pc)
        if ctx.mask:
            ctx.given = ctx.mask(ctx.given)
        try:
            compare_value(ctx, rule, con, g, g.v, w, w.v, ignore=ignore, order=order)
        finally:
            ctx.given = TRUE
    if exits:
        ctx.eq(rule + "/exits", con, clean(g.st.pc), clean(w.st.pc), "the condition under which it returns normally")
    same_mutations(ctx, rule, con, g, w)
    align_findings(ctx, "alignment", g.I)
    return g, w


MUTATORS = {"append", "add", "extend", "update", "insert", "remove", "pop", "setdefault", "sort", "clear", "discard", "popitem", "reverse", "fill", "put"}


def mutations(r):
    """changes made to objects reached from outside (not modelled in the result)"""
    out = {}
    for e in r.I.effects:
        if e.kind == "mcall" and e.name in MUTATORS or e.kind in ("setattr", "setitem") and isinstance(e.ret, str) and e.ret == "reach":
            st = St({}, e.heap, TRUE)
            t = r.I.close_term(clean(mk("change", e.kind, e.name, e.pc, *[r.I.term(a, st) for a in e.args])))
            out[t] = e
    return out


def same_mutations(ctx, rule, con, g, w):
    a, b = mutations(g), mutations(w)
    for t in a:
        ctx.ob(rule + "/changes", t in b, con, "changes an object it was given: %s at %s" % (show(t, 5)[:200], a[t].where.split(" ")[0]))
    for t in b:
        ctx.ob(rule + "/changes", t in a, con, "must make the change %s" % show(t, 5)[:200])


def check_notes(ctx, r, con):
    for kind, msg, where in r.I.notes:
        if kind in ("arity", "undefined"):
            ctx.bad("well-formed calls", where.split(" (")[-1].rstrip(")"), "%s (%s)" % (msg, where))
        elif kind in ("unsupported",):
            raise AnalysisError("%s: %s at %s" % (con, msg, where))


# ------------------------------------------------------------------ effects on the outside world
SIG = {   # positional parameter names and defaults of library calls with effects
    "to_csv": (["self", "path_or_buf", "sep"], {"sep": ",", "index": True, "header": True, "mode": "w"}),
    "to_sql": (["self", "name", "con"], {"index": True, "if_exists": "fail"}),
    "to_hdf": (["self", "path_or_buf", "key", "mode"], {"mode": "a"}),
    "pandas.HDFStore": (["path", "mode"], {"mode": "a"}),
    "append": (["self", "key", "value", "format"], {}),
    "builtins.open": (["file", "mode"], {"mode": "r"}),
    "sqlite3.connect": (["database"], {}),
    "execute": (["self", "sql", "parameters"], {}),
    "os.remove": (["path"], {}), "os.unlink": (["path"], {}),
    "shutil.copy": (["src", "dst"], {}), "shutil.copyfile": (["src", "dst"], {}),
    "write": (["self", "text"], {}),
    "logging.FileHandler": (["filename", "mode"], {"mode": "a"}),
    "retrieve": (["self", "url", "known_hash", "path"], {}),
    "os.makedirs": (["name", "mode", "exist_ok"], {"exist_ok": False}),
}
WRITERS = {"to_csv", "to_sql", "to_hdf", "append", "pandas.HDFStore", "sqlite3.connect", "execute", "executemany", "to_pickle",
           "to_parquet", "to_json", "os.remove", "os.unlink", "os.rename", "os.replace", "shutil.copy", "shutil.copyfile", "shutil.rmtree",
           "shutil.move", "builtins.open", "write", "put", "os.makedirs", "os.rmdir", "truncate", "numpy.save", "numpy.savetxt", "commit",
           "os.mkdir", "mkdir", "unlink", "rename", "write_text", "touch", "to_feather", "shutil.copytree", "savefig", "dump"}


class Act:
    """one call with an effect, arguments by name"""

    def __init__(self, r, e):
        self.e, self.name, self.pc, self.where = e, e.name, r.I.close_term(clean(e.pc)), e.where
        names, defs = SIG.get(e.name, ((["self"] if e.kind == "mcall" else []), {}))
        self.args, self.frames = {}, {}
        st = St({}, e.heap, TRUE)
        vals = {}
        for i, v in enumerate(e.args):
            vals[names[i] if i < len(names) else "#%d" % i] = v
        vals.update(e.kws or {})
        for k, v in vals.items():
            t = r.I.term(v, st)
            if k in defs and t is const(defs[k]):
                continue
            self.args[k] = r.I.close_term(clean(t))
            c = r.I.cell(v, st)
            if isinstance(c, FrameC):
                self.frames[k] = c


def acts(r, names):
    return [Act(r, e) for e in r.I.effects if e.kind in ("ext", "mcall", "opaque") and e.name in names]


def merge_acts(xs):
    """mutually exclusive calls of one function as one call with gated arguments; identical ones in any case"""
    out = []
    for x in xs:
        for y in out:
            if y.name == x.name and and_(x.pc, y.pc) is FALSE:
                for k in set(x.args) | set(y.args):
                    a, b = y.args.get(k, mk("absent")), x.args.get(k, mk("absent"))
                    if a is not b:
                        y.args[k] = ite(y.pc, a, b)
                        y.frames.pop(k, None)
                    else:
                        y.args[k] = a
                y.pc = or_(y.pc, x.pc)
                break
        else:
            out.append(x)
    return out


def exclusive_order(ga, wa):
    """the acts in the wanted order, as far as only acts that never happen together change places"""
    if len(ga) != len(wa):
        return ga
    rest, out = list(ga), []
    for w in wa:
        ok = [a for i, a in enumerate(rest) if a.name == w.name and all(and_(x.pc, a.pc) is FALSE for x in rest[:i])]
        if not ok:
            return out + rest
        a = next((a for a in ok if a.pc is w.pc), ok[0])
        rest.remove(a)
        out.append(a)
    return out


def same_acts(ctx, rule, con, g, w, names=WRITERS, ignore=(), ignore_cols=()):
    """same effectful calls, in the same order, under the same conditions, with the same arguments"""
    ga, wa = acts(g, names), acts(w, names)
    if len(ga) != len(wa):
        ga, wa = merge_acts(ga), merge_acts(wa)
    ga = exclusive_order(ga, wa)
    gn, wn = [a.name for a in ga], [a.name for a in wa]
    if gn != wn:
        return ctx.bad(rule, con, "does %s (%s), must do %s" % (gn, ", ".join(a.where.split(" ")[0] for a in ga), wn))
    for a, b in zip(ga, wa):
        at = "%s at %s" % (a.name, a.where.split(" ")[0])
        ctx.eq(rule, con, a.pc, b.pc, "the condition under which %s happens" % at)
        for k in sorted(set(a.args) | set(b.args)):
            if k in ignore:
                continue
            if k in a.frames and k in b.frames:
                cmp_frames(ctx, rule, con, a.frames[k], b.frames[k], ignore=ignore_cols)
                go, wo = a.frames[k].only, b.frames[k].only
                ctx.ob(rule, (go is None) == (wo is None) and (go is None or list(go) == list(wo)), con, "the columns given to %s are %s, must be %s" % (
                    at, "all" if go is None else [show(x) for x in go], "all" if wo is None else [show(x) for x in wo]))
                continue
            old, ctx.given = ctx.given, b.pc if ctx.given is TRUE else and_(ctx.given, b.pc)
            try:
                ctx.eq(rule, con, a.args.get(k, mk("absent")), b.args.get(k, mk("absent")), "argument %s of %s" % (k, at))
            finally:
                ctx.given = old


def same_effects(ctx, rule, qual, ref, frames=(), args=None, names=WRITERS, exits=True, value=False, opaque=(), opaque_fn=None,
                 self_=None, rself=None, hooks=None, ignore=(), construct=None, ret_frames=(), ignore_cols=(), pre=None):
    w = ctx.run("vspec." + ref, frames, args, opaque, ret_frames, rself, "R", hooks, opaque_fn)
    nm, req = own_params(w.I.get_func("vspec." + ref), rself is not None)
    g = ctx.run(qual, frames, args, opaque, ret_frames, self_, "R", hooks, opaque_fn, like=req)
    con = construct or qual
    check_notes(ctx, g, con)
    same_defaults(ctx, rule, con, g, qual, w, "vspec." + ref)
    same_acts(ctx, rule, con, g, w, names, ignore, ignore_cols)
    if value:
        compare_value(ctx, rule, con, g, g.v, w, w.v)
    if exits:
        ctx.eq(rule + "/exits", con, clean(g.st.pc), clean(w.st.pc), "the condition under which it returns normally")
    align_findings(ctx, "alignment", g.I)
    return g, w


def attrs(**kw):
    """pin attributes of symbolic objects: attrs(sconfigs__output__output_columns=const("basic"))"""
    def f(I, st):
        for path, v in kw.items():
            ps = path.split("__")
            t = sym(ps[0])
            for a in ps[1:-1]:
                t = mk("attr", t, a)
            if isinstance(v, list):
                v = I.new(st, ListC([const(x) if not isinstance(x, T) else x for x in v]))
            st.heap[("attr", t.dig, ps[-1])] = v if not isinstance(v, (str, int, float, bool, type(None))) else const(v)
        return {}
    return f


def present(*names):
    """mask: the named columns are taken to be present (all when none is named)"""
    def f(t):
        return subst(t, lambda x: TRUE if x.op == "in" and x.args[1].op == "columns" and (not names or (is_const(x.args[0]) and x.args[0].args[0] in names)) else None)
    return f


class masked:
    def __init__(self, ctx, mask):
        self.ctx, self.mask = ctx, mask

    def __enter__(self):
        self.old, self.ctx.mask = self.ctx.mask, self.mask

    def __exit__(self, *a):
        self.ctx.mask = self.old
