"""Extraction of the two survey pipelines and their reference programs."""
from sa.rule import *

M = "sorcha.modules."
STAGES = {
    "PPGetMainFilterAndColourOffsets": M + "PPGetMainFilterAndColourOffsets:PPGetMainFilterAndColourOffsets",
    "PPReadPointingDatabase": M + "PPReadPointingDatabase:PPReadPointingDatabase",
    "precompute_pointing_information": "sorcha.ephemeris.simulation_setup:precompute_pointing_information",
    "PPFaintObjectCullingFilter": M + "PPFaintObjectCullingFilter:PPFaintObjectCullingFilter",
    "create_ephemeris": "sorcha.ephemeris.simulation_driver:create_ephemeris",
    "read_block": "sorcha.readers.CombinedDataReader:CombinedDataReader.read_block",
    "read_aux_block": "sorcha.readers.CombinedDataReader:CombinedDataReader.read_aux_block",
    "check_aux_object_ids": "sorcha.readers.CombinedDataReader:CombinedDataReader.check_aux_object_ids",
    "PPMatchPointingToObservations": M + "PPMatchPointingToObservations:PPMatchPointingToObservations",
    "PPCalculateApparentMagnitude": M + "PPCalculateApparentMagnitude:PPCalculateApparentMagnitude",
    "PPTrailingLoss": M + "PPTrailingLoss:PPTrailingLoss",
    "vignettingEffects": M + "PPVignetting:vignettingEffects",
    "addUncertainties": M + "PPAddUncertainties:addUncertainties",
    "randomizeAstrometryAndPhotometry": M + "PPRandomizeMeasurements:randomizeAstrometryAndPhotometry",
    "PPApplyFOVFilter": M + "PPApplyFOVFilter:PPApplyFOVFilter",
    "PPSNRLimit": M + "PPSNRLimit:PPSNRLimit",
    "PPMagnitudeLimit": M + "PPMagnitudeLimit:PPMagnitudeLimit",
    "PPFadingFunctionFilter": M + "PPFadingFunctionFilter:PPFadingFunctionFilter",
    "DESFadingFunctionFilter": M + "DESFadingFunctionFilter:DESFadingFunctionFilter",
    "PPBrightLimit": M + "PPBrightLimit:PPBrightLimit",
    "PPLinkingFilter": M + "PPLinkingFilter:PPLinkingFilter",
    "distance_cut": M + "PPDistanceandMotionCuts:distance_cut",
    "motion_cut": M + "PPDistanceandMotionCuts:motion_cut",
    "DESDiscoveryFilter": M + "DESDiscoveryFilter:DESDiscoveryFilter",
    "PPWriteOutput": M + "PPOutput:PPWriteOutput",
    "PPIndexSQLDatabase": M + "PPOutput:PPIndexSQLDatabase",
    "stats": M + "PPStats:stats",
    "Footprint": M + "PPFootprintFilter:Footprint",
    "EphemerisDataReader": "sorcha.readers.EphemerisReader:EphemerisDataReader",
    "OrbitAuxReader": "sorcha.readers.OrbitAuxReader:OrbitAuxReader",
    "CSVDataReader": "sorcha.readers.CSVReader:CSVDataReader",
    "PrintConfigsToLog": "sorcha.utilities.sorchaConfigs:PrintConfigsToLog",
}
QNAME = {v: k for k, v in STAGES.items()}
# stages returning a table; index state of that table
RET = {"PPReadPointingDatabase": "R", "precompute_pointing_information": "R", "PPFaintObjectCullingFilter": "R",
       "create_ephemeris": "R", "read_block": "R", "read_aux_block": "R", "PPMatchPointingToObservations": "R",
       "PPCalculateApparentMagnitude": "R", "addUncertainties": "R", "randomizeAstrometryAndPhotometry": "R",
       "PPApplyFOVFilter": "G", "PPSNRLimit": "R", "PPMagnitudeLimit": "R", "PPFadingFunctionFilter": "R",
       "DESFadingFunctionFilter": "R", "PPBrightLimit": "R", "PPLinkingFilter": "G", "distance_cut": "G",
       "motion_cut": "G", "DESDiscoveryFilter": "G"}
SERIES = {"PPTrailingLoss", "vignettingEffects"}
CLASSES = {"Footprint", "EphemerisDataReader", "OrbitAuxReader", "CSVDataReader"}
LSST = "sorcha.sorcha:runLSSTSimulation"
DES = "sorcha.des:runDESSimulation"

SPEC = '''
import logging, os, sys
import pandas as pd
from sorcha.modules.PPGetMainFilterAndColourOffsets import PPGetMainFilterAndColourOffsets
from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase
from sorcha.ephemeris.simulation_setup import precompute_pointing_information
from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter
from sorcha.ephemeris.simulation_driver import create_ephemeris
from sorcha.readers.CombinedDataReader import CombinedDataReader
from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude
from sorcha.modules.PPTrailingLoss import PPTrailingLoss
from sorcha.modules.PPVignetting import vignettingEffects
from sorcha.modules.PPAddUncertainties import addUncertainties
from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry
from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter
from sorcha.modules.PPSNRLimit import PPSNRLimit
from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter
from sorcha.modules.DESFadingFunctionFilter import DESFadingFunctionFilter
from sorcha.modules.PPBrightLimit import PPBrightLimit
from sorcha.modules.PPLinkingFilter import PPLinkingFilter
from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut
from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter
from sorcha.modules.PPOutput import PPWriteOutput, PPIndexSQLDatabase
from sorcha.modules.PPStats import stats
from sorcha.modules.PPFootprintFilter import Footprint
from sorcha.readers.EphemerisReader import EphemerisDataReader
from sorcha.readers.OrbitAuxReader import OrbitAuxReader
from sorcha.readers.CSVReader import CSVDataReader
from sorcha.utilities.sorchaConfigs import PrintConfigsToLog


def survey(args, sconfigs, return_only, des):
    logger = logging.getLogger(__name__)
    args.validate_arguments()
    sconfigs.filters.mainfilter, sconfigs.filters.othercolours = PPGetMainFilterAndColourOffsets(
        args.paramsinput, sconfigs.filters.observing_filters, sconfigs.input.aux_format)
    PrintConfigsToLog(sconfigs, args)
    external = sconfigs.input.ephemerides_type.casefold() == "external"
    if des:
        filterpointing = PPReadPointingDatabase(args.pointing_database, sconfigs.filters.observing_filters,
            sconfigs.input.pointing_sql_query, args.surveyname,
            fading_function_on=sconfigs.fadingfunction.fading_function_on)
    else:
        filterpointing = PPReadPointingDatabase(args.pointing_database, sconfigs.filters.observing_filters,
            sconfigs.input.pointing_sql_query, args.surveyname)
    if not external:
        filterpointing = precompute_pointing_information(filterpointing, args, sconfigs)
    if not external and sconfigs.input.ephemerides_type.casefold() != "ar":
        logger.error("bad")
        sys.exit("bad")
    reader = CombinedDataReader(ephem_primary=False)
    if external:
        reader.add_ephem_reader(EphemerisDataReader(args.input_ephemeris_file, sconfigs.input.eph_format))
    reader.add_aux_data_reader(OrbitAuxReader(args.orbinfile, sconfigs.input.aux_format))
    reader.add_aux_data_reader(CSVDataReader(args.paramsinput, sconfigs.input.aux_format))
    if sconfigs.activity.comet_activity is not None or sconfigs.lightcurve.lc_model is not None:
        reader.add_aux_data_reader(CSVDataReader(args.complex_parameters, sconfigs.input.aux_format))
    reader.check_aux_object_ids()
    footprint = None
    if sconfigs.fov.camera_model == "footprint":
        footprint = Footprint(sconfigs.fov.footprint_path, args.surveyname)

    if external:
        obs = reader.read_block(block_size=sconfigs.input.size_serial_chunk)
    else:
        orbits = reader.read_aux_block(block_size=sconfigs.input.size_serial_chunk)
        if not sconfigs.expert.brute_force:
            orbits = PPFaintObjectCullingFilter(orbits, filterpointing, sconfigs.filters.mainfilter,
                sconfigs.filters.observing_filters, sconfigs.lightcurve.lc_model, sconfigs.activity.comet_activity)
        obs = create_ephemeris(orbits, filterpointing, args, sconfigs)
    obs = PPMatchPointingToObservations(obs, filterpointing)
    obs = PPCalculateApparentMagnitude(obs, sconfigs.phasecurves.phase_function, sconfigs.filters.mainfilter,
        sconfigs.filters.othercolours, sconfigs.filters.observing_filters, sconfigs.activity.comet_activity,
        lightcurve_choice=sconfigs.lightcurve.lc_model, verbose=args.loglevel)
    if sconfigs.expert.trailing_losses_on:
        obs["PSFMagTrue"] = obs["trailedSourceMagTrue"] + PPTrailingLoss(obs, "circularPSF")
    else:
        obs["PSFMagTrue"] = obs["trailedSourceMagTrue"]
    if sconfigs.expert.vignetting_on:
        obs["fiveSigmaDepth_mag"] = vignettingEffects(obs)
    else:
        obs["fiveSigmaDepth_mag"] = obs["fieldFiveSigmaDepth_mag"]
    if not des:
        obs = addUncertainties(obs, sconfigs, args._rngs, verbose=args.loglevel)
    if sconfigs.expert.randomization_on:
        obs = randomizeAstrometryAndPhotometry(obs, sconfigs, args._rngs, verbose=args.loglevel)
    else:
        obs["RATrue_deg"] = obs["RA_deg"]
        obs["DecTrue_deg"] = obs["Dec_deg"]
        obs["trailedSourceMag"] = obs["trailedSourceMagTrue"]
        obs["PSFMag"] = obs["PSFMagTrue"]
    if sconfigs.fov.camera_model != "none":
        obs = PPApplyFOVFilter(obs, sconfigs, args._rngs, visits=args.visits, footprint=footprint, verbose=args.loglevel)
    if sconfigs.expert.snr_limit_on:
        obs = PPSNRLimit(obs, sconfigs.expert.snr_limit)
    if sconfigs.expert.mag_limit_on:
        obs = PPMagnitudeLimit(obs, sconfigs.expert.mag_limit)
    if sconfigs.fadingfunction.fading_function_on:
        if des:
            obs = DESFadingFunctionFilter(obs, sconfigs.fadingfunction.des_transient_efficency, args._rngs, verbose=args.loglevel)
        else:
            obs = PPFadingFunctionFilter(obs, sconfigs.fadingfunction.fading_function_peak_efficiency,
                sconfigs.fadingfunction.fading_function_width, args._rngs, verbose=args.loglevel)
    if sconfigs.saturation.bright_limit_on:
        obs = PPBrightLimit(obs, sconfigs.filters.observing_filters, sconfigs.saturation.bright_limit)
    if des:
        if sconfigs.linkingfilter.distance_cut_on:
            obs = distance_cut(obs, sconfigs.linkingfilter.distance_cut_upper, sconfigs.linkingfilter.distance_cut_lower)
        if sconfigs.linkingfilter.motion_cut_on:
            obs = motion_cut(obs, sconfigs.linkingfilter.motion_cut_upper, sconfigs.linkingfilter.motion_cut_lower)
        if sconfigs.linkingfilter.des_discovery_on:
            obs = DESDiscoveryFilter(obs)
    else:
        if sconfigs.linkingfilter.ssp_linking_on:
            obs = PPLinkingFilter(obs, sconfigs.linkingfilter.ssp_detection_efficiency,
                sconfigs.linkingfilter.ssp_number_observations, sconfigs.linkingfilter.ssp_number_tracklets,
                sconfigs.linkingfilter.ssp_track_window, sconfigs.linkingfilter.ssp_separation_threshold,
                sconfigs.linkingfilter.ssp_maximum_time, sconfigs.linkingfilter.ssp_night_start_utc,
                drop_unlinked=sconfigs.linkingfilter.drop_unlinked)
    if return_only:
        if args.stats is not None:
            stats(obs, args.stats, args.outpath, sconfigs, return_only=True)
    else:
        PPWriteOutput(args, sconfigs, obs, verbose=args.loglevel)
        if args.stats is not None:
            stats(obs, args.stats, args.outpath, sconfigs)


def lsst(args, sconfigs, return_only=False):
    return survey(args, sconfigs, return_only, False)


def des(args, sconfigs, return_only=False):
    return survey(args, sconfigs, return_only, True)
'''


class Event:
    __slots__ = ("stage", "args", "pc", "seq", "where", "inloop", "frames", "heap", "order", "fullpc")


LOOPTESTS = set()


def loop_tests(I):
    """the tests of the loops themselves: a loop's own condition, and that it was not left yet (or was left, behind it)"""
    for r in I.loops:
        cs = [r.cond] if r.cond is not None else []
        for b in r.breaks or ():
            cs.append(b.pc)
        for c in cs:
            for l in [c] + (list(c.args) if c.op in ("and", "or") else []):
                if contains(l, lambda y: y.op in ("mu", "while")):
                    LOOPTESTS.update((l.dig, not_(l).dig))


def drop_loop(pc):
    """the part of a path condition that is about configuration: loop membership, loop counters, emptiness of
    tables and abnormal terminations are left out"""
    def lit(x):
        if x.op in ("inloop", "exc"):
            return TRUE
        if x.op == "not" and x.args[0].op == "exc":
            return TRUE
        if x.dig in LOOPTESTS:
            return TRUE
        return x
    if pc.op == "and":
        pc = and_(*[lit(x) for x in pc.args])
    else:
        pc = lit(pc)
    return nonempty_true(pc)


def nonempty_true(t):
    def f(x):
        if x.op == "nonempty" and x.args[0].op == "rows":
            return TRUE
        if x.op == "exc":
            return FALSE
        return None
    return subst(t, f)


class Driver:
    """events of one pipeline"""

    def __init__(self, ctx, qual, ret=None):
        self.qual = qual
        self.events = []
        I = Interp(ctx.prog)
        self.I = I
        order = [0]

        def make(stage, q, iscls):
            def hook(I, f, args, kws, st, node):
                if st.dead:
                    return None
                if iscls:
                    init = I.lookup(f, "__init__")
                    f2 = FuncV(init.node, init.mod, init.cls, init.closure, sym("self"), q)
                    vals = I.bind_args(f2, args, kws, st, node)
                    vals.pop(init.node.args.args[0].arg, None)
                else:
                    vals = I.bind_args(f, args, kws, st, node)
                    if f.self_ is not None and f.node.args.args:
                        vals.pop(f.node.args.args[0].arg, None)
                order[0] += 1
                e = Event()
                e.stage, e.pc, e.where = stage, st.pc, I.where(node)
                e.fullpc = st.pc
                e.args = {k: I.term(v, st) for k, v in vals.items()}
                e.frames = {k: I.cell(v, st) for k, v in vals.items() if isinstance(I.cell(v, st), FrameC)}
                e.seq, e.inloop, e.order = len(I.effects), I.loopdepth, order[0]
                e.heap = None
                if not I.quiet:
                    eff = I.eff(st, "stage", stage, list(vals.values()), vals, node)
                    eff.ret = e
                t = mk("stage", stage)
                if iscls:
                    return mk("call", q, *[mk("kw", k, v) for k, v in sorted(e.args.items())])
                if stage in RET:
                    r = I.new(st, FrameC(t, index=ret(e) if ret is not None else RET[stage]))
                    return r, st
                if stage in SERIES:
                    c = next(iter(e.frames.values()), None)
                    if c is not None:
                        return SerV(c.ctx(), mk("stagecol", stage, e.args.get("model", NONE)), "array"), st
                return t, st
            return hook
        for s, q in STAGES.items():
            ctx.prog.find(q)
            I.hooks[q] = make(s, q, s in CLASSES)
        st = St({}, {}, TRUE)
        self.v, self.st = I.run(qual, {}, st)
        ctx.done(I)
        loop_tests(I)
        self.events = [e.ret for e in I.effects if e.kind == "stage"]

    def of(self, stage):
        return [e for e in self.events if e.stage == stage]


_cache = {}


def driver(ctx, which):
    k = (id(ctx.prog), which)
    if k not in _cache:
        q = {"lsst": LSST, "des": DES, "spec_lsst": "vspec.drivers:lsst", "spec_des": "vspec.drivers:des"}[which]
        _cache[k] = Driver(ctx, q)
    return _cache[k]


import ast
from .common import prop, spec  # noqa
spec("drivers", SPEC)


def frame_term_norm(f):
    return f


def cmp_event(ctx, rule, which, g, w, pcs=True, args=True, frames=True, skip=()):
    con = "%s: %s" % (LSST if which == "lsst" else DES, g.stage)
    if pcs:
        ctx.eq(rule + "/condition", con, drop_loop(g.pc), drop_loop(w.pc), "the condition under which %s runs" % g.stage)
    old, ctx.given = ctx.given, nonempty_true(drop_loop(w.pc))
    try:
        cmp_inputs(ctx, rule, con, g, w, args, frames, skip)
    finally:
        ctx.given = old


COMPUTES = {"PPTrailingLoss": "sorcha.modules.PPTrailingLoss", "vignettingEffects": "sorcha.modules.PPVignetting"}


def words(ctx, mod):
    m = ctx.prog.modules.get(mod)
    return {n.value for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)} if m is not None else set()


def cmp_inputs(ctx, rule, con, g, w, args, frames, skip):
    if args:
        for k in w.args:
            if k in skip or k == "verbose":
                continue
            if k in w.frames:
                continue
            if k not in g.args:
                ctx.bad(rule + "/arguments", con, "argument %s is not passed" % k)
                continue
            ctx.eq(rule + "/arguments", con, nonempty_true(g.args[k]), nonempty_true(w.args[k]), "argument %s of %s" % (k, g.stage))
    if frames:
        for k in w.frames:
            gf, wf = g.frames.get(k), w.frames[k]
            if gf is None:
                if k in g.args:
                    ctx.eq(rule + "/table", con, nonempty_true(g.args[k]), nonempty_true(w.args[k]), "table %s given to %s" % (k, g.stage))
                else:
                    ctx.bad(rule + "/table", con, "table %s is not passed" % k)
                continue
            ctx.eq(rule + "/table", con, nonempty_true(gf.base), nonempty_true(wf.base), "the table %s gets" % g.stage)
            ctx.eq(rule + "/table", con, nonempty_true(gf.rows), nonempty_true(wf.rows), "the rows %s gets" % g.stage)
            for c in sorted(set(gf.cols) | set(wf.cols), key=str):
                if const(c) in gf.dropped and const(c) in wf.dropped:
                    continue
                if g.stage in COMPUTES and c not in words(ctx, COMPUTES[g.stage]):
                    continue    # the step gives back one value per row, from columns it names
                ctx.eq(rule + "/table", con, nonempty_true(getcol(gf, c)), nonempty_true(getcol(wf, c)), "column %s in the table %s gets" % (c, g.stage))
            if gf.only is not None and wf.only is None and g.stage not in COMPUTES:
                left = [x for x in gf.only if x.op == "whole"]
                if left:
                    ctx.bad(rule + "/table", con, "the table %s gets has only the columns %s" % (g.stage, show(left[0], 6)[:200]))
            for c in sorted((x for x in set(gf.dropped) ^ set(wf.dropped) if x.op == "const"), key=show):
                if g.stage in COMPUTES or c in gf.dropped and not known_column(ctx, c.args[0]):
                    continue    # a working column, gone again
                ctx.bad(rule + "/table", con, "the table %s gets %s a column %s" % (g.stage, "has no longer" if c in gf.dropped else "must no longer have", show(c)))


def known_column(ctx, name):
    """a column name the rest of the program speaks of"""
    own = {q.split(":")[0] for q in (LSST, DES)}
    return any(name in words(ctx, m) for m in ctx.prog.modules if m not in own and not m.startswith("vspec"))


def match_events(ctx, which, stage):
    """events of `stage` in the pipeline paired with the reference's; several events on disjoint conditions are merged by order"""
    g, w = driver(ctx, which).of(stage), driver(ctx, "spec_" + which).of(stage)
    return g, w


def merge_events(evs):
    """several calls of a stage in different branches, as one: condition = union, arguments chosen by branch"""
    if len(evs) <= 1:
        return evs
    # only when mutually exclusive
    for i, a in enumerate(evs):
        for b in evs[i + 1:]:
            if and_(drop_loop(a.pc), drop_loop(b.pc)) is not FALSE:
                return evs
    m = Event()
    last = evs[-1]
    for s in Event.__slots__:
        setattr(m, s, getattr(last, s))
    m.args, m.frames = dict(last.args), dict(last.frames)
    for e in reversed(evs[:-1]):
        c = drop_loop(e.pc)
        m.pc = or_(e.pc, m.pc)
        m.fullpc = or_(e.fullpc, m.fullpc)
        for k in set(e.args) | set(m.args):
            x, y = e.args.get(k, mk("absent")), m.args.get(k, mk("absent"))
            m.args[k] = x if x is y else ite(c, x, y)
        for k in list(m.frames):
            f, h = e.frames.get(k), m.frames[k]
            if f is None:
                m.frames.pop(k)
                continue
            cols = {n: (getcol(f, n) if getcol(f, n) is getcol(h, n) else ite(c, getcol(f, n), getcol(h, n))) for n in set(f.cols) | set(h.cols)}
            m.frames[k] = FrameC(f.base if f.base is h.base else ite(c, f.base, h.base), ite(c, f.rows, h.rows), cols,
                                 f.dropped & h.dropped, None, f.order, f.index)
    return [m]


def under(t, c):
    """simplify t under condition c (cheap: literals of c)"""
    if c.op == "and":
        lits = c.args
    else:
        lits = (c,)
    asg = {}
    for l in lits:
        if l.op == "not":
            asg[l.args[0]] = False
        else:
            asg[l] = True
    return TT.assume(t, asg)


def stage_slice(ctx, stage, surveys=("lsst", "des"), rule="pipeline", **kw):
    for which in surveys:
        g, w = match_events(ctx, which, stage)
        g, w = merge_events(g), merge_events(w)
        con = LSST if which == "lsst" else DES
        if not w:
            raise AnalysisError("reference has no %s in %s" % (stage, which))
        if len(g) != len(w):
            ctx.bad(rule + "/count", "%s: %s" % (con, stage), "%s is called at %d places (%s), must be %d" % (
                stage, len(g), ", ".join(e.where for e in g), len(w)))
            continue
        for a, b in zip(g, w):
            cmp_event(ctx, rule, which, a, b, **kw)
        for e in g:
            ctx.facts.append("%s: %s if %s" % (e.where, stage, show(drop_loop(e.pc), 5)[:160]))
