"""P29 culling; P30 activity and light-curve models."""
import ast
from .common import *

CULL = "sorcha.modules.PPFaintObjectCullingFilter:"

spec("models", '''
import numpy as np
import pandas as pd
from sorcha.activity.activity_registration import CA_METHODS
from sorcha.lightcurves.lightcurve_registration import LC_METHODS
from sorcha.activity.base_activity import AbstractCometaryActivity
from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
from sorcha.modules.PPFaintObjectCullingFilter import PPEstimatePerihelion
from sorcha.ephemeris.simulation_parsing import get_perihelion_row
from collections import namedtuple

def cull(aux_df, filterpointing, mainfilter, observing_filters, lightcurve_choice, activity_choice):
    depth = filterpointing.groupby("optFilter", observed=True)["fieldFiveSigmaDepth_mag"].max().to_dict()
    if "q" not in aux_df.columns:
        aux_df["q"] = PPEstimatePerihelion(aux_df)
    far = aux_df[aux_df["q"] >= 2]
    q = far["q"]
    t = pd.DataFrame(far["ObjID"])
    for f in observing_filters:
        H = far["H_" + mainfilter]
        if f != mainfilter:
            H = H + far[f + "-" + mainfilter]
        m = H + 5.0 * np.log10(q) + 5.0 * np.log10(q - 1.0)
        if lightcurve_choice:
            m += LC_METHODS.get(lightcurve_choice)().maxBrightness(far)
        if activity_choice:
            far["trailedSourceMagTrue"] = m
            far["optFilter"] = f
            m = CA_METHODS.get(activity_choice)().maxBrightness(far, [f], q, q - 1.0, np.zeros(far.shape[0]))
        t[f] = m > depth.get(f, -np.inf) + 2
    gone = t.loc[t[observing_filters].all(axis=1), "ObjID"].tolist()
    return aux_df[~aux_df["ObjID"].isin(gone)]

def perihelion(aux_df):
    t = aux_df["epochMJD_TDB"].iloc[0]
    Sun = namedtuple("Sun", "x y z vx vy vz")
    sun = {t: Sun(x=0, y=0, z=0, vx=0, vy=0, vz=0)}
    return aux_df.apply(lambda row: get_perihelion_row(row, t, None, sun, 2.9591220828559115e-04, 2.9630927487993194e-04)[0], axis=1)

def registered(base):
    d = {}
    for c in base.__subclasses__():
        if c.name_id() in d:
            raise ValueError("duplicate")
        d[c.name_id()] = c
    return d

def registered_activity():
    return registered(AbstractCometaryActivity)

def registered_lc():
    return registered(AbstractLightCurve)

def update_activity():
    for c in AbstractCometaryActivity.__subclasses__():
        if c.name_id() not in CA_METHODS:
            CA_METHODS[c.name_id()] = c

def update_lc():
    for c in AbstractLightCurve.__subclasses__():
        if c.name_id() not in LC_METHODS:
            LC_METHODS[c.name_id()] = c

class A(AbstractCometaryActivity):
    def __init__(self, names):
        self.required_column_names = names
    def compute(self, df):
        return df
    @staticmethod
    def name_id():
        return "a"

class B(AbstractLightCurve):
    def __init__(self, names):
        self.required_column_names = names
    def compute(self, df):
        return df
    @staticmethod
    def name_id():
        return "b"

def real_need_a(names, df):
    A(names)._validate_column_names(df)

def real_need_b(names, df):
    B(names)._validate_column_names(df)

from sorcha.activity.identity_activity import IdentityCometaryActivity
from sorcha.lightcurves.identity_lightcurve import IdentityLightCurve

def real_same_lc(df):
    return IdentityLightCurve().compute(df)

def same_lc(df):
    if "fieldMJD_TAI" not in df.columns:
        raise ValueError("missing")
    return np.zeros_like(df["fieldMJD_TAI"])

def real_same_activity(df):
    return IdentityCometaryActivity().compute(df)

def same_activity(df):
    return df

def real_brightest_activity(df):
    return IdentityCometaryActivity().maxBrightness(df)

def brightest_activity(df):
    return df["trailedSourceMagTrue"]

def real_brightest_lc(df):
    return IdentityLightCurve().maxBrightness(df)

def brightest_lc(df):
    return 0

def need(names, df):
    for n in names:
        if n not in df.columns:
            raise ValueError("missing")
''')


@prop("P29")
def culling(ctx):
    """an object is dropped only where its brightest possible magnitude is beyond the depth by the margin in every filter"""
    op = (CULL + "PPEstimatePerihelion",)
    g, w = same(ctx, "culling", CULL + "PPFaintObjectCullingFilter", "models:cull", ("aux_df", "filterpointing"), opaque=op)
    # whatever was culled, a row kept is a row as given
    c = g.frame()
    if c is not None:
        c = flatten(c)
        ctx.ob("kept rows", set(c.cols) <= {"q"}, CULL + "PPFaintObjectCullingFilter", "the rows kept have changed columns %s" % sorted(map(str, c.cols)))


@prop("P29", "P28")
def perihelion(ctx):
    """the distance the bound uses is each object's own perihelion"""
    same(ctx, "perihelion", CULL + "PPEstimatePerihelion", "models:perihelion", ("aux_df",), opaque=("sorcha.ephemeris.simulation_parsing:get_perihelion_row",))


REG = {"activity": ("sorcha.activity.activity_registration:", "register_activity_subclasses", "update_activity_subclasses", "CA_METHODS", "sorcha.activity.base_activity:AbstractCometaryActivity"),
       "lightcurves": ("sorcha.lightcurves.lightcurve_registration:", "register_lc_subclasses", "update_lc_subclasses", "LC_METHODS", "sorcha.lightcurves.base_lightcurve:AbstractLightCurve")}


def stores(r):
    out = []
    for e in r.I.effects:
        if e.kind == "setitem":
            st = St({}, e.heap, TRUE)
            out.append((e, [clean(r.I.close_term(clean(e.pc)))] + [clean(r.I.close_term(r.I.term(a, st))) for a in e.args]))
    return out


@prop("P30")
def registries(ctx):
    """a registry holds every model under its own name, and no two under one; new ones are added when a run starts"""
    for pk, (q, reg, upd, var, base) in REG.items():
        short = "activity" if pk == "activity" else "lc"
        same(ctx, "registry", q + reg, "models:registered_" + short)
        g, w = same(ctx, "registry", q + upd, "models:update_" + short)
        a, b = stores(g), stores(w)
        if ctx.ob("registry", len(a) == len(b), q + upd, "adds to the registry at %d places, must be %d" % (len(a), len(b))):
            for (e, x), (_, y) in zip(a, b):
                for i, what in enumerate(("the condition under which it is added", "the registry", "the name", "the model")):
                    if i < len(x):
                        ctx.eq("registry", q + upd, x[i], y[i], what)
        m = ctx.prog.module(q[:-1])
        made = [n for n in m.tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == var for t in n.targets)]
        ok = len(made) == 1 and isinstance(made[0].value, ast.Call) and isinstance(made[0].value.func, ast.Name) and made[0].value.func.id == reg
        ctx.ob("registry", ok, q + var, "%s is not what %s returns" % (var, reg))
    for x in "ab":
        same(ctx, "required columns", "vspec.models:real_need_" + x, "models:need", construct=REG["activity" if x == "a" else "lightcurves"][4] + "._validate_column_names")


def classes(ctx, pk, base):
    """repository classes deriving from the base, directly or not"""
    out, names = [], {base.split(":")[1]}
    more = True
    while more:
        more = False
        for mn, m in ctx.prog.modules.items():
            if mn.startswith("vspec"):
                continue
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and (mn, n) not in out and any((b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)) in names for b in n.bases):
                    out.append((mn, n))
                    names.add(n.name)
                    more = True
    return out


def model_calls(ctx):
    """calls made to selected models: (registry, method, positional, keywords, where, rows)"""
    out = []
    for q, fs in ((CULL + "PPFaintObjectCullingFilter", ("aux_df", "filterpointing")),
                  ("sorcha.modules.PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter", ("padain",))):
        r = ctx.run(q, fs, {"lightcurve_choice": sym("lightcurve_choice"), ("cometary_activity_choice" if "padain" in fs else "activity_choice"): sym("activity_choice")},
                    opaque=(CULL + "PPEstimatePerihelion",))
        for e in r.I.effects:
            if e.kind == "mcall" and e.name in ("compute", "maxBrightness"):
                t = r.I.term(e.args[0], St({}, e.heap, TRUE))
                which = [pk for pk, x in REG.items() if contains(t, lambda y: y.op == "global" and y.args[0].endswith(":" + x[3]))]
                if len(which) == 1:
                    out.append((which[0], e.name, len(e.args) - 1, sorted(k for k in (e.kws or {})), e.where))
    return out


def takes(f, npos, kws, bound=True):
    a = f.args
    ps = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
    if npos > len(ps) and a.vararg is None:
        return "takes %d arguments, is given %d" % (len(ps), npos)
    for k in kws:
        if k not in ps[npos:] and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return "has no argument %s" % k
    nd = len(a.defaults)
    for i, p in enumerate(ps):
        if i >= npos and p not in kws and i < len(ps) - nd:
            return "needs %s, which is not given" % p
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws:
            return "needs %s, which is not given" % x.arg
    return None


@prop("P30")
def interfaces(ctx):
    """every model in the repository has every operation the pipelines call on models of its kind, taking what they give it; names are unique"""
    calls = model_calls(ctx)
    for pk, (q, reg, upd, var, base) in REG.items():
        mine = [c for c in calls if c[0] == pk]
        ctx.ob("calls", {c[1] for c in mine} == {"compute", "maxBrightness"}, base, "operations called on models: %s" % sorted({c[1] for c in mine}))
        names = {}
        order = [n.module for n in ctx.prog.module("sorcha." + pk).tree.body if isinstance(n, ast.ImportFrom)]
        for mn, n in classes(ctx, pk, base):
            con = mn + ":" + n.name
            ctx.analysed[con] = ctx.analysed.get(con, 0) + 1
            meths = {x.name: x for x in n.body if isinstance(x, ast.FunctionDef)}
            for _, name, npos, kws, where in mine:
                f = meths.get(name)
                if ctx.ob("operations", f is not None, con, "has no %s, which is called at %s" % (name, where.split(" ")[0])):
                    bad = takes(f, npos, kws)
                    ctx.ob("operations", bad is None, con + "." + name, "%s (call at %s)" % (bad, where.split(" ")[0]))
            init = meths.get("__init__")
            bad = takes(init, 0, []) if init is not None else None
            ctx.ob("operations", bad is None, con, "cannot be made without arguments: %s" % bad)
            nid = meths.get("name_id")
            if ctx.ob("names", nid is not None and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in nid.decorator_list), con, "has no static name_id"):
                t = ctx.run(con + ".name_id").term()
                ok = is_const(t) and isinstance(t.args[0], str) and t.args[0]
                ctx.ob("names", ok and t.args[0] not in ("none", "None") and t.args[0] not in names, con, "its name %s is not unique or not a name" % show(t))
                names[show(t)] = con
            # known to the registry: its module is imported before the registry is made
            short = mn.split(".")[-1]
            if mn.startswith("sorcha." + pk + "."):
                regs = q[:-1].split(".")[-1]
                ok = short in order and regs in order and order.index(short) < order.index(regs)
                ctx.ob("registered", ok, con, "the package does not import %s before the registry is made" % short)


@prop("P30", "P29", "P13")
def identity(ctx):
    """the identity models leave every magnitude as it is"""
    for nm, con in (("same_lc", "sorcha.lightcurves.identity_lightcurve:IdentityLightCurve.compute"), ("same_activity", "sorcha.activity.identity_activity:IdentityCometaryActivity.compute"),
                    ("brightest_activity", "sorcha.activity.identity_activity:IdentityCometaryActivity.maxBrightness"), ("brightest_lc", "sorcha.lightcurves.identity_lightcurve:IdentityLightCurve.maxBrightness")):
        same(ctx, "identity", "vspec.models:real_" + nm, "models:" + nm, ("df",), construct=con)
