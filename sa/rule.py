"""Rule support: obligations, findings, comparison of extracted facts with reference programs."""
import ast
from .interp import *
from .program import Program, AnalysisError
from . import terms as TT


class Ctx:
    def __init__(self, prop, tier="quick", extra=None, prog=None):
        self.prop, self.tier = prop, tier
        self.extra = dict(extra or {})
        self.prog = prog or Program(extra=self.extra)
        self.findings = []          # (rule, construct, message)
        self.obl = {}               # rule -> count
        self.analysed = {}
        self.effects = 0
        self.loops = 0
        self.facts = []
        self.given = TRUE           # comparisons are made under this condition
        self.mask = None            # transformation applied to both sides of a comparison

    def interp(self, **kw):
        I = Interp(self.prog, **kw)
        return I

    def done(self, I):
        for k, v in I.analysed.items():
            if not k.startswith("vspec"):
                self.analysed[k] = self.analysed.get(k, 0) + v
        self.effects += len(I.effects)
        self.loops += len(I.loops)

    def ob(self, rule, ok, construct, msg=""):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        if not ok:
            f = (rule, str(construct), str(msg))
            if f not in self.findings:
                self.findings.append(f)
        return ok

    def bad(self, rule, construct, msg):
        return self.ob(rule, False, construct, msg)

    def agree(self, got, want, budget=6000):
        """whether the two terms are the same, without an obligation"""
        got, want = noexc(got), noexc(want)
        if self.mask is not None:
            got, want = self.mask(got), self.mask(want)
        if self.given is not TRUE:
            got, want = ite(self.given, got, NONE), ite(self.given, want, NONE)
        try:
            return got is want or TT.equal(TT.loop_names(got), TT.loop_names(want), budget)[0]
        except TT.Undecided:
            return False

    def eq(self, rule, construct, got, want, what="", budget=60000):
        """obligation: two terms denote the same value"""
        got, want = noexc(got), noexc(want)
        if self.mask is not None:
            got, want = self.mask(got), self.mask(want)
        if got is want:
            return self.ob(rule, True, construct)
        try:
            ok, r = TT.equal(got, want, budget)
            if not ok:
                g2, w2 = TT.loop_names(got), TT.loop_names(want)
                if g2 is not got or w2 is not want:
                    got, want = g2, w2
                    ok, r = TT.equal(got, want, budget)
            if not ok and self.given is not TRUE:
                ok, r = TT.equal(ite(self.given, got, NONE), ite(self.given, want, NONE), budget)
        except TT.Undecided:
            raise AnalysisError("%s: %s: comparison undecided" % (construct, what))
        if ok:
            return self.ob(rule, True, construct)
        path, x, y = r
        when = " when " + " and ".join(("" if v else "not ") + show(a, 4) for a, v in path) if path else ""
        return self.ob(rule, False, construct, "%s is %s, must be %s%s" % (what or "value", show(x, 9)[:600], show(y, 9)[:600], when[:600]))

    # ------------------------------------------------------------------
    def run(self, qual, frames=(), args=None, opaque=(), ret_frames=(), self_=None, index="R", hooks=None, opaque_fn=None, like=None, pc=None):
        """interpret function `qual`; parameters without a default are free symbols (tables for `frames`).
        `like`: parameter names to use (those of a reference); matched by name, the rest by position."""
        I = Interp(self.prog, opaque=opaque, ret_frames=ret_frames, opaque_fn=opaque_fn)
        if hooks:
            I.hooks.update(hooks)
        st = St({}, {}, pc if pc is not None else TRUE)
        a = {}
        for f in frames:
            nm, base = (f if isinstance(f, tuple) else (f, f))
            a[nm] = I.new(st, FrameC(sym(base), index=index))
        if callable(args):
            a.update(args(I, st))
        elif args:
            a.update(args)
        slf = self_(I, st) if callable(self_) else self_
        if like is not None:
            a = match_params(I.get_func(qual), a, like, slf is not None, st)
        v, st2 = I.run(qual, a, st, self_=slf, defaults=True)
        self.done(I)
        return Res(I, v, st2, qual, a)


def own_params(f, bound):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = ps[:len(ps) - nd] if nd else list(ps)
    if bound:
        ps, req = ps[1:], req[1:]
    kw = [x.arg for x in a.kwonlyargs]
    return ps + kw, req + [x for x, d in zip(kw, a.kw_defaults) if d is None]


def match_params(f, given, like, bound, st):
    """bind the required parameters `like` (names used by the reference) to f's own: by name, then by position"""
    ps, req = own_params(f, bound)
    given = dict(given)
    for n in like:
        given.setdefault(n, sym(n))
    out = {n: v for n, v in given.items() if n in ps}
    left = [n for n in given if n not in ps]
    free = [p for p in ps if p not in out]
    if left:
        order = {n: i for i, n in enumerate(like)}
        left.sort(key=lambda n: order.get(n, 99))
        reqfree = [p for p in free if p in req] or free
        if len(left) > len(reqfree):
            raise AnalysisError("anchor changed: %s no longer takes %s" % (f.qual, ", ".join(left)))
        for n, p in zip(left, reqfree):
            out[p] = given[n]
    return out


class Res:
    def __init__(self, I, v, st, qual, args=None):
        self.I, self.v, self.st, self.qual, self.args = I, v, st, qual, args or {}

    def cell(self, v=None):
        v = self.v if v is None else v
        return self.I.cell(v, self.st)

    def term(self, v=None):
        return self.I.term(self.v if v is None else v, self.st)

    def frame(self, v=None):
        c = self.cell(v)
        if not isinstance(c, FrameC):
            return None
        return c

    def effs(self, *kinds):
        return [e for e in self.I.effects if e.kind in kinds]

    def calls(self, qual):
        return [e for e in self.I.effects if e.kind in ("opaque", "ext", "mcall") and e.name == qual]


def noexc(t):
    """abnormal library failures set aside"""
    return subst(t, lambda x: FALSE if x.op == "exc" else None) if contains(t, lambda x: x.op == "exc") else t


def flatten(c):
    """the cell with nested and gated base tables resolved into its own rows and columns"""
    r = _flat(noexc(c.base))
    if r is None:
        return c
    base, rows, cols, dropped, order = r
    if c.order is not NONE and order is not NONE:
        return c
    cols = dict(cols)
    for k, v in c.cols.items():
        cols[k if isinstance(k, str) else k] = v
    return c.rep(base=base, rows=and_(rows, c.rows), cols=cols, dropped=frozenset(dropped) | c.dropped, order=c.order if order is NONE else order)


def _flat(t):
    if t.op == "frame" and t.args[4] is None or t.op == "frame" and t.args[4] is NONE:
        base, rows, cols, dropped, only, order = t.args[:6]
        cs = {(k.args[0] if is_const(k) and isinstance(k.args[0], str) else k): v for k, v in cols}
        r = _flat(base)
        if r is None:
            return base, rows, cs, tuple(dropped or ()), order if isinstance(order, T) else NONE
        b2, r2, c2, d2, o2 = r
        c3 = dict(c2)
        c3.update(cs)
        order = order if isinstance(order, T) else NONE
        if order is not NONE and o2 is not NONE:
            return None
        return b2, and_(r2, rows), c3, tuple(d2) + tuple(dropped or ()), order if o2 is NONE else o2
    if t.op == "ite":
        c, a, b = t.args
        fa, fb = _flat(a), _flat(b)
        if fa is None and fb is None:
            return None
        fa = fa or (a, TRUE, {}, (), NONE)
        fb = fb or (b, TRUE, {}, (), NONE)
        if fa[4] is not fb[4] or set(fa[3]) != set(fb[3]):
            return None
        cs = {}
        for k in set(fa[2]) | set(fb[2]):
            x, y = fa[2].get(k, col(fa[0], k)), fb[2].get(k, col(fb[0], k))
            cs[k] = x if x is y else ite(c, x, y)
        return ite(c, fa[0], fb[0]), (fa[1] if fa[1] is fb[1] else ite(c, fa[1], fb[1])), cs, fa[3], fa[4]
    return None


def getcol(c, name):
    return c.cols.get(name, col(c.base, name))


def cmp_frames(ctx, rule, construct, got, want, ignore=(), order=True, base=True, index=True, columns=True, temps=()):
    """frame `got` must have the same rows, columns and order as `want` (columns of temporaries dropped again are not compared)"""
    if got is None:
        return ctx.bad(rule, construct, "does not return a table derived from its input rows")
    if want is None:
        raise AnalysisError("reference did not yield a table for %s" % construct)
    got, want = flatten(got), flatten(want)
    if base:
        ctx.eq(rule, construct, got.base, want.base, "the underlying rows")
    ctx.eq(rule, construct, got.rows, want.rows, "the condition under which a row is kept")
    for k in sorted(set(got.cols) | set(want.cols), key=str):
        if k in ignore:
            continue
        kt = k if isinstance(k, T) else const(k)
        if kt in want.dropped or kt in got.dropped:
            if kt in want.dropped and kt in got.dropped:
                continue
        a, b = getcol(got, k), getcol(want, k)
        if kt.op == "const":
            # the value is that of a column both have (whether they have it is compared below)
            here = and_(*[h for h in (hascol(got, kt), hascol(want, kt)) if h is not FALSE and not contains(h, lambda x: x.op == "columns")])
            if here is not TRUE:
                a, b = ite(here, a, NONE), ite(here, b, NONE)
        ctx.eq(rule, construct, a, b, "column %s" % (k if isinstance(k, str) else show(k)))
    if order:
        ctx.eq(rule, construct, got.order, want.order, "row order")
    if columns:
        for k in sorted({x for c in (got, want) for x in colnames(c)} - set(ignore)):
            kt = const(k)
            a, b = hascol(got, kt), hascol(want, kt)
            if k in temps and FALSE in (a, b) and any(x.op == "in" and x.args[1].op == "columns" for x in (a, b)):
                continue  # a working column of one of them, gone again
            ctx.eq(rule, construct, a, b, "whether it has a column %s" % k)


def colnames(c):
    for k in c.cols:
        if isinstance(k, str):
            yield k
    for x in list(c.dropped) + list(c.only or ()):
        x = x.args[1] if x.op == "colif" else x
        if x.op == "const" and isinstance(x.args[0], str):
            yield x.args[0]


def hascol(c, t):
    """the condition under which table c has the column named t"""
    if c.only is not None and not any(x.op == "whole" for x in c.only):
        return or_(*[and_(k.args[0], eq(t, k.args[1])) if k.op == "colif" else eq(t, k) for k in c.only])
    if t.args[0] in c.cols:
        return TRUE
    if t in c.dropped:
        return FALSE
    if c.only is not None:
        return mk("in", t, mk("columns", mk("onlycols", *c.only)))
    return mk("in", t, mk("columns", c.base))


def align_findings(ctx, rule, I):
    for kind, msg, where in I.aligns:
        ctx.bad(rule, where.split(" (")[-1].rstrip(")"), "%s at %s: %s" % (kind, where, msg))


# ------------------------------------------------------------------ syntax helpers
def functions_named(prog, pred):
    for m, c, f in prog.functions():
        if pred(m, c, f):
            yield m, c, f
