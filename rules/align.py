"""P33: row labels and row positions, followed through the two pipelines.

A table's labels are R (0, 1, 2, ... as the rows stand), G (all different, with gaps or out of order) or ? (they may repeat).
Each pipeline is interpreted; whenever a stage is called, its function is interpreted with the label states its tables have
at that call (tables that come out of it have the state it leaves them in), and every place where values of other rows, or
positions and labels, are mixed up is a finding."""
from .common import *
from . import drivers as D

FOVQ = D.M + "PPApplyFOVFilter:PPApplyFOVFilter"
VISITS = D.M + "PPVisitsFootprintFilter:PPVisitsFootprint"
RANK = {"R": 0, "G": 1, "?": 2}
# what a reader hands over has the labels of its file or its cache
GIVEN = {"read_block": "?", "read_aux_block": "?", "create_ephemeris": "R"}
CAMERAS = ("footprint", "visits_footprint", "circle", "none")
SET_ = "sorcha.ephemeris.simulation_setup:"
OPAQUE = {"PPFaintObjectCullingFilter": lambda q: q.endswith(":PPEstimatePerihelion"),
          "precompute_pointing_information": lambda q: q in (SET_ + "create_assist_ephemeris", SET_ + "furnish_spiceypy") or "Observatory." in q or "barycentricObservatoryRates" in q,
          "DESDiscoveryFilter": lambda q: ":compute_" in q,
          "PPWriteOutput": lambda q: "PPOutWrite" in q, "PPApplyFOVFilter": lambda q: q == VISITS,
          "create_ephemeris": None, "read_block": None, "read_aux_block": None}


class Labels:
    def __init__(self, ctx):
        self.ctx, self.done = ctx, {}

    def stage(self, e):
        """label state of the table a stage returns, given the states it was called with"""
        states = tuple(sorted((k, c.index) for k, c in e.frames.items()))
        k = (e.stage, states)
        if k in self.done:
            return self.done[k]
        if e.stage in GIVEN:
            self.done[k] = GIVEN[e.stage]
            return GIVEN[e.stage]
        out = None
        for cam in CAMERAS if e.stage == "PPApplyFOVFilter" else (None,):
            out = worse(out, self.run(e.stage, dict(states), cam))
        self.done[k] = out
        return out

    def run(self, stage, states, cam):
        ctx, q = self.ctx, D.STAGES[stage]
        req = own_params(Interp(ctx.prog).get_func(q), False)[1]

        def args(I, st):
            a = {n: I.new(st, FrameC(sym(n), index=s)) for n, s in states.items()}
            if cam is not None:
                attrs(sconfigs__fov__camera_model=const(cam))(I, st)
                a.update(visits=sym("visits"), footprint=sym("footprint"), verbose=sym("verbose"))
            return a
        r = ctx.run(q, (), args, opaque_fn=OPAQUE.get(stage))
        rule = "values meet their own rows"
        n = len(ctx.findings)
        align_findings(ctx, rule, r.I)
        for kind, msg, where in r.I.notes:
            if kind == "index" and "?" in states.values():
                ctx.bad(rule, where.split(" (")[-1].rstrip(")"), "%s: %s" % (where, msg))
        if len(ctx.findings) == n:
            ctx.ob(rule, True, q)
        if cam == "visits_footprint":
            # the per-visit footprint hands back labels, used as positions
            used = [e for e in r.I.effects if e.kind == "positional"]
            s = states.get("observations")
            ctx.ob("labels used as positions", s == "R" or not used, q, "rows on a detector are known by their labels and taken by position, from a table whose labels may have gaps")
        c = r.cell()
        return c.index if isinstance(c, FrameC) else None


def worse(a, b):
    return b if a is None else a if b is None else max(a, b, key=RANK.get)


@prop("P33")
def stages(ctx):
    """no stage mixes up labels and positions, whatever the stages before it left behind"""
    for which, q in (("lsst", D.LSST), ("des", D.DES)):
        L = Labels(ctx)

        def ret(e):
            s = L.stage(e)
            return s if s is not None else "?"
        d = D.Driver(ctx, q, ret)
        for e in d.events:
            if e.frames and e.stage not in D.CLASSES:
                L.stage(e)
        n = len(ctx.findings)
        align_findings(ctx, "values meet their own rows", d.I)
        if len(ctx.findings) == n:
            ctx.ob("values meet their own rows", True, q)
        ctx.states = getattr(ctx, "states", {})
        ctx.states[which] = [(k, v) for k, v in L.done.items()]
