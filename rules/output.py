"""P16 writers, P17 rounding, P18 statistics."""
from .common import *

O = "sorcha.modules.PPOutput:"

POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma",
       "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter",
         "trailedSourceMag", "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s",
         "Obj_Sun_LTC_km"]

spec("out", '''
import os, sqlite3, sys, logging
import numpy as np
import pandas as pd

def csv(padain, outf, separator=","):
    padain.to_csv(path_or_buf=outf, mode="a", header=not os.path.exists(outf), sep=separator, index=False)

def hdf5(pp_results, outf, keyname="sorcha_results"):
    pp_results = pp_results.astype({"ObjID": str})
    store = pd.HDFStore(outf)
    store.append(keyname, pp_results, format="t", data_columns=True)
    store.close()

def sqlite(pp_results, outf, tablename="sorcha_results"):
    pp_results = pp_results.drop("level_0", axis=1, errors="ignore")
    cnx = sqlite3.connect(outf)
    pp_results.to_sql(tablename, con=cnx, if_exists="append", index=False)

def index(outf, tablename="sorcha_results"):
    cnx = sqlite3.connect(outf)
    cur = cnx.cursor()
    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
    cnx.commit()

POS = %r
MAG = %r
BASIC = %r

def write(cmd_args, sconfigs, observations_in):
    observations_in["Obj_Sun_LTC_km"] = np.sqrt(observations_in["Obj_Sun_x_LTC_km"] ** 2
        + observations_in["Obj_Sun_y_LTC_km"] ** 2 + observations_in["Obj_Sun_z_LTC_km"] ** 2)
    cols = sconfigs.output.output_columns
    if cols == "basic":
        observations = observations_in[BASIC]
        if sconfigs.linkingfilter.ssp_linking_on and not sconfigs.linkingfilter.drop_unlinked:
            observations["object_linked"] = observations_in["object_linked"]
    elif cols == "all":
        observations = observations_in.copy()
    else:
        observations = observations_in[cols]
    if sconfigs.output.position_decimals is not None:
        for c in POS:
            if c in observations.columns:
                observations[c] = observations[c].round(decimals=sconfigs.output.position_decimals)
    if sconfigs.output.magnitude_decimals is not None:
        for c in MAG:
            if c in observations.columns:
                observations[c] = observations[c].round(decimals=sconfigs.output.magnitude_decimals)
    stem = os.path.join(cmd_args.outpath, cmd_args.outfilestem)
    fmt = sconfigs.output.output_format
    if fmt == "csv":
        csv(observations, os.path.join(cmd_args.outpath, cmd_args.outfilestem + ".csv"))
    elif fmt == "sqlite3":
        sqlite(observations, os.path.join(cmd_args.outpath, cmd_args.outfilestem + ".db"))
    elif fmt == "hdf5" or fmt == "h5":
        hdf5(observations, os.path.join(cmd_args.outpath, cmd_args.outfilestem + ".h5"))

def stats(observations, statsfilename, outpath, sconfigs, return_only=False):
    path = os.path.join(outpath, statsfilename + ".csv")
    g = observations.groupby(["ObjID", "optFilter"], observed=False)
    mag = g["trailedSourceMag"].agg(["min", "max", "median"]).rename(
        columns={"min": "min_apparent_mag", "max": "max_apparent_mag", "median": "median_apparent_mag"})
    phase = g["phase_deg"].agg(["min", "max"]).rename(columns={"min": "min_phase", "max": "max_phase"})
    n = g.agg("size").to_frame("number_obs")
    if sconfigs.linkingfilter.ssp_linking_on:
        date = g["date_linked_MJD"].agg("first").to_frame("date_linked_MJD")
        if not sconfigs.linkingfilter.drop_unlinked:
            linked = g["object_linked"].agg("all").to_frame("object_linked")
            out = n.join([mag, phase, linked, date])
        else:
            out = n.join([mag, phase, date])
    else:
        out = n.join([mag, phase])
    if return_only:
        return out
    out.to_csv(path_or_buf=path, mode="a", header=not os.path.exists(path), index=True)
''' % (POS, MAG, BASIC))

SCEN = [("basic", const("basic"), {}),
        ("all", const("all"), {}),
        ("a list", ["ObjID", "other"] + POS + MAG, {}),
        ("a short list", ["ObjID", "other"], {})]


def hascol(t):
    """columns not known to be absent are taken to be present"""
    return subst(t, lambda x: TRUE if x.op == "in" and x.args[1].op == "columns" else None)


@prop("P16", "P24", "P34")
def writers(ctx):
    """each writer appends the chunk it is given: mode, header iff the file is new, one table, no index column"""
    same_effects(ctx, "append a chunk", O + "PPOutWriteCSV", "out:csv", ("padain",))
    same_effects(ctx, "append a chunk", O + "PPOutWriteHDF5", "out:hdf5", ("pp_results",), names=WRITERS | {"close"})
    same_effects(ctx, "append a chunk", O + "PPOutWriteSqlite3", "out:sqlite", ("pp_results",))
    same_effects(ctx, "index", O + "PPIndexSQLDatabase", "out:index")


def written(ctx, decimals):
    """the table handed to each writer, for every kind of column request and output format"""
    for name, cols, _ in SCEN:
        for fmt in ("csv", "sqlite3", "hdf5", "h5"):
            dec = {} if decimals else {"sconfigs__output__position_decimals": None, "sconfigs__output__magnitude_decimals": None}
            a = attrs(sconfigs__output__output_columns=cols, sconfigs__output__output_format=fmt, **dec)
            w = ctx.run("vspec.out:write", ("observations_in",), a)
            g = ctx.run(O + "PPWriteOutput", ("observations_in",), a, like=["cmd_args", "sconfigs", "observations_in"])
            con = O + "PPWriteOutput"
            check_notes(ctx, g, con)
            for r in (g, w):
                for e in r.I.effects:
                    e.heap = {k: (FrameC(c.base, hascol(clean(c.rows)), {n: hascol(clean(x)) for n, x in c.cols.items()}, c.dropped, c.only, c.order, c.index, c.lineage) if isinstance(c, FrameC) else c) for k, c in e.heap.items()} if e.name in WRITERS else e.heap
            same_acts(ctx, "what is written (%s columns)" % name, con, g, w)


@prop("P16", "P24")
def documented_columns(ctx):
    """column sets, file names and writer per output format"""
    written(ctx, False)


@prop("P17", "P24")
def rounding(ctx):
    """exactly the position / magnitude columns present are rounded to the configured decimals, nothing else changes"""
    written(ctx, True)


@prop("P17")
def rounding_leaves_the_table(ctx):
    """the table handed to the writer, which the statistics are taken of afterwards, keeps its values"""
    con = O + "PPWriteOutput"
    for name, cols, _ in SCEN:
        a = attrs(sconfigs__output__output_columns=cols, sconfigs__output__output_format="csv")
        g = ctx.run(con, ("observations_in",), a, like=["cmd_args", "sconfigs", "observations_in"])
        tabs = [v for v in g.args.values() if isinstance(g.cell(v), FrameC)]
        if len(tabs) != 1:
            raise AnalysisError("anchor changed: the table given to PPWriteOutput")
        c = g.cell(tabs[0])
        for k, x in c.cols.items():
            ctx.ob("the table given to the writer keeps its values", k == "Obj_Sun_LTC_km", con, "changes column %s of the table it is given (%s columns)" % (k, name))
        ctx.ob("the table given to the writer keeps its values", c.rows is TRUE and c.order is NONE and c.only is None, con, "changes the rows or columns of the table it is given (%s columns)" % name)


@prop("P17")
def rounding_only_at_output(ctx):
    """nothing but the writer and the cited roundings rounds"""
    n = 0
    for which in ("lsst", "des"):
        from .drivers import driver, LSST, DES
        d = driver(ctx, which)
        for e in d.events:
            for k, c in e.frames.items():
                for nm, x in c.cols.items():
                    n += 1
                    ctx.ob("no rounding before the output", not contains(x, lambda y: y.op == "call" and y.args[0] == "round"),
                           LSST if which == "lsst" else DES, "column %s given to %s at %s is rounded" % (nm, e.stage, e.where))
    if not n:
        raise AnalysisError("no columns seen")


@prop("P18")
def statistics(ctx):
    """the tally per object and filter"""
    same_effects(ctx, "tally", "sorcha.modules.PPStats:stats", "out:stats", ("observations",), {"return_only": sym("return_only")}, value=True)


@prop("P18")
def statistics_in_pipeline(ctx):
    """the tally gets the table that is written, when asked for"""
    from .drivers import stage_slice
    stage_slice(ctx, "stats")
