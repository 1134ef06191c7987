"""P11 error model, P12 randomisation, P13 apparent magnitude, P14 trailing loss and vignetting, P15 visit pairing."""
from .common import *

M = "sorcha.modules."

spec("errmodel", '''
import numpy as np
import logging

def loss(detDF):
    speed = np.sqrt(detDF["RARateCosDec_deg_day"] ** 2 + detDF["DecRate_deg_day"] ** 2) / 24.0
    x = speed * detDF["visitExposureTime"] / detDF["seeingFwhmGeom_arcsec"]
    return 1.25 * np.log10(1.0 + 0.761 * x**2 / (1.0 + 1.162 * x))

def snr_of(mag, m5):
    x = np.power(10, 0.4 * (mag - m5))
    return 1.0 / np.sqrt((0.04 - 0.039) * x + 0.039 * x * x)

def add(detDF, sconfigs, module_rngs, verbose=True):
    if sconfigs.expert.trailing_losses_on:
        m = detDF["trailedSourceMagTrue"] + loss(detDF)
    else:
        m = detDF["trailedSourceMagTrue"]
    s = snr_of(m, detDF["fiveSigmaDepth_mag"])
    p = snr_of(detDF["PSFMagTrue"], detDF["fiveSigmaDepth_mag"])
    err = 0.6 * detDF["seeingFwhmGeom_arcsec"] * 1000 / s
    detDF["astrometricSigma_deg"] = np.sqrt(100.0 + err * err) / 1000.0 / 3600.0
    detDF["SNRTrailedSourceMag"] = s
    detDF["trailedSourceMagSigma"] = 2.5 * np.log10(1.0 + 1.0 / s)
    detDF["SNRPSFMag"] = p
    detDF["PSFMagSigma"] = 2.5 * np.log10(1.0 + 1.0 / p)
    return detDF

def ast(mag, m5, nvisit=1, FWHMeff=700.0, error_sys=10.0, astErrCoeff=0.6, output_units="mas"):
    snr = snr_of(mag, m5)
    rand = astErrCoeff * FWHMeff / snr
    if nvisit > 1:
        rand = rand / np.sqrt(nvisit)
    tot = np.sqrt(error_sys * error_sys + rand * rand)
    if output_units == "arcsec":
        return tot / 1000, snr, rand / 1000
    return tot, snr, rand

def phot(snr):
    return 2.5 * np.log10(1.0 + 1.0 / snr)
''')


@prop("P11", "P04", "P33")
def error_model(ctx):
    """signal-to-noise, sigmas and astrometric errors of a table of rows, the LSST error model"""
    same(ctx, "error model", M + "PPAddUncertainties:addUncertainties", "errmodel:add", ["detDF"], construct="sorcha.modules.PPAddUncertainties.addUncertainties")


@prop("P11")
def error_model_scalar(ctx):
    """the error model on single values, every coefficient of it"""
    same(ctx, "astrometric uncertainty", M + "PPAddUncertainties:calcAstrometricUncertainty", "errmodel:ast",
         args=dict(nvisit=sym("nvisit"), FWHMeff=sym("FWHMeff"), error_sys=sym("error_sys"), astErrCoeff=sym("astErrCoeff"), output_units=sym("output_units")))
    same(ctx, "astrometric uncertainty/defaults", M + "PPAddUncertainties:calcAstrometricUncertainty", "errmodel:ast")
    same(ctx, "photometric uncertainty", M + "PPAddUncertainties:calcPhotometricUncertainty", "errmodel:phot")


spec("randomize", '''
import numpy as np
import logging, sys

MOD = "sorcha.modules.PPRandomizeMeasurements"

def to_vec(ra, dec):
    a, d = np.deg2rad(ra), np.deg2rad(dec)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])

def to_radec(x, y, z):
    r = np.linalg.norm(np.array([x, y, z]), axis=0)
    return np.mod(np.rad2deg(np.arctan2(y / r, x / r)) + 360, 360), np.rad2deg(np.arcsin(z / r))

def go(observations, sconfigs, module_rngs, verbose=False):
    if sconfigs.expert.default_snr_cut:
        observations = observations[observations["SNRPSFMag"] > 2.0].reset_index(drop=True)
    rng = module_rngs.getModuleRNG(MOD)
    observations["trailedSourceMag"] = observations["trailedSourceMagTrue"] + rng.normal(0, 1, len(observations)) * observations["trailedSourceMagSigma"]
    if sconfigs.expert.trailing_losses_on:
        observations["PSFMag"] = observations["PSFMagTrue"] + module_rngs.getModuleRNG(MOD).normal(0, 1, len(observations)) * observations["PSFMagSigma"]
    else:
        observations["PSFMag"] = observations["trailedSourceMag"]
    c = to_vec(observations["RA_deg"], observations["Dec_deg"]).T
    s = np.deg2rad(observations["astrometricSigma_deg"])
    g = module_rngs.getModuleRNG(MOD).multivariate_normal(np.zeros(3), np.identity(3), len(s))
    v = g * np.array([s, s, s]).T + c
    v = v / np.linalg.norm(v, axis=1)[:, None]
    ra, dec = to_radec(v[:, 0], v[:, 1], v[:, 2])
    observations = observations.rename(columns={"RA_deg": "RATrue_deg", "Dec_deg": "DecTrue_deg"})
    observations["RA_deg"] = ra
    observations["Dec_deg"] = dec
    return observations

def astrometry(df, module_rngs, raName, decName, raOrigName, decOrigName, sigName, radecUnits, sigUnits):
    if radecUnits == "deg":
        c = to_vec(df[raName], df[decName]).T
    else:
        c = to_vec(np.rad2deg(df[raName]), np.rad2deg(df[decName])).T
    if sigUnits == "deg":
        s = np.deg2rad(df[sigName])
    elif sigUnits == "mas":
        s = np.deg2rad(df[sigName] / 3600000.0)
    elif sigUnits == "rad":
        s = df[sigName]
    else:
        sys.exit("unknown unit")
    g = module_rngs.getModuleRNG(MOD).multivariate_normal(np.zeros(3), np.identity(3), len(s))
    v = g * np.array([s, s, s]).T + c
    v = v / np.linalg.norm(v, axis=1)[:, None]
    if radecUnits == "deg":
        ra, dec = to_radec(v[:, 0], v[:, 1], v[:, 2])
    else:
        r = np.linalg.norm(np.array([v[:, 0], v[:, 1], v[:, 2]]), axis=0)
        ra, dec = np.mod(np.arctan2(v[:, 1] / r, v[:, 0] / r) + 2 * np.pi, 2 * np.pi), np.arcsin(v[:, 2] / r)
    df = df.rename(columns={raName: raOrigName, decName: decOrigName})
    df[raName] = ra
    df[decName] = dec
    return df

def phot(df, module_rngs, magName="Filtermag", magRndName="FiltermagRnd", sigName="FiltermagSig"):
    rng = module_rngs.getModuleRNG(MOD)
    return df[magName] + rng.normal(0, 1, len(df)) * df[sigName]
''')


@prop("P12")
def randomisation_by_itself(ctx):
    """the two randomisers with their own column names and units"""
    q = M + "PPRandomizeMeasurements:"
    same(ctx, "randomised magnitude", q + "randomizePhotometry", "randomize:phot", ["df"])
    same(ctx, "randomised magnitude", q + "randomizePhotometry", "randomize:phot", ["df"], args=dict(magName=sym("magName"), magRndName=sym("magRndName"), sigName=sym("sigName")))
    names = dict(raName=const("ra"), decName=const("dec"), raOrigName=const("ra0"), decOrigName=const("dec0"), sigName=const("sig"), sigUnits=sym("sigUnits"))
    for u in ("deg", "rad"):
        same(ctx, "randomised position (%s)" % u, q + "randomizeAstrometry", "randomize:astrometry", ["df"], args=dict(names, radecUnits=const(u)))


@prop("P12", "P01", "P04", "P33")
def randomisation(ctx):
    """every randomised quantity is drawn about the true one with the row's own sigma, one draw per row and quantity"""
    same(ctx, "randomised measurements", M + "PPRandomizeMeasurements:randomizeAstrometryAndPhotometry", "randomize:go", ["observations"])


spec("mag", '''
import numpy as np
import logging, sys
import astropy.units as u
from sbpy.photometry import HG, HG1G2, HG12_Pen16, LinearPhaseFunc
from sorcha.lightcurves.lightcurve_registration import LC_METHODS
from sorcha.activity.activity_registration import CA_METHODS
from sorcha.modules.PPApplyColourOffsets import PPApplyColourOffsets
from sorcha.modules.PPCalculateApparentMagnitudeInFilter import PPCalculateApparentMagnitudeInFilter
from sorcha.modules.PPCalculateSimpleCometaryMagnitude import PPCalculateSimpleCometaryMagnitude

AU = 149597870.7

def infilter(padain, function, observing_filters, colname="trailedSourceMagTrue", lightcurve_choice=None, cometary_activity_choice=None):
    delta = padain["Range_LTC_km"].values / AU
    if "Obj_Sun_LTC_km" in padain.columns:
        rho = padain["Obj_Sun_LTC_km"].values / AU
    else:
        rho = np.sqrt(padain["Obj_Sun_x_LTC_km"].values ** 2 + padain["Obj_Sun_y_LTC_km"].values ** 2 + padain["Obj_Sun_z_LTC_km"].values ** 2) / AU
    alpha = padain["phase_deg"].values
    H = padain["H_filter"].values
    if function == "HG1G2":
        red = HG1G2(H=H * u.mag, G1=padain["G1"].values, G2=padain["G2"].values)(alpha * u.deg).value
    elif function == "HG":
        red = HG(H=H * u.mag, G=padain["GS"].values)(alpha * u.deg).value
    elif function == "HG12":
        red = HG12_Pen16(H=H * u.mag, G12=padain["G12"].values)(alpha * u.deg).value
    elif function == "linear":
        red = LinearPhaseFunc(H=H * u.mag, S=padain["S"].values * u.mag / u.deg)(alpha * u.deg).value
    elif function == "none":
        red = H
    else:
        sys.exit("unknown phase function")
    padain[colname] = 5.0 * np.log10(delta) + 5.0 * np.log10(rho) + red
    if lightcurve_choice and LC_METHODS.get(lightcurve_choice, False):
        shift = LC_METHODS[lightcurve_choice]().compute(padain)
        padain["Delta_m"] = shift
        padain[colname] = padain[colname] + shift
    if cometary_activity_choice:
        padain = PPCalculateSimpleCometaryMagnitude(padain, observing_filters, rho, delta, alpha, activity_choice=cometary_activity_choice)
    return padain.reset_index(drop=True)

def stage(observations, phasefunction, mainfilter, othercolours, observing_filters, cometary_activity_choice=None, lightcurve_choice=None, verbose=False):
    if len(observing_filters) > 1:
        observations = PPApplyColourOffsets(observations, phasefunction, othercolours, observing_filters, mainfilter)
    else:
        observations["H_filter"] = observations["H_" + mainfilter]
    return PPCalculateApparentMagnitudeInFilter(observations, phasefunction, observing_filters, lightcurve_choice=lightcurve_choice, cometary_activity_choice=cometary_activity_choice)

def comet(padain, observing_filters, rho, delta, alpha, activity_choice=None):
    if activity_choice and CA_METHODS.get(activity_choice, False):
        return CA_METHODS.get(activity_choice)().compute(padain, observing_filters, rho, delta, alpha)
    return padain
''')


spec("colour", '''
import sys

PARAMS = {"HG1G2": ["G1", "G2"], "HG": ["GS"], "HG12": ["G12"], "linear": ["S"], "none": []}

def phase_params(observations, function, H_col, observing_filters, names):
    """the table has the parameters, or one set of them for each filter"""
    if all(k in observations.columns for k in names):
        return observations
    if not all(k + f in observations.columns for k in names for f in observing_filters):
        sys.exit("missing phase parameters")
    for k in names:
        observations[k] = observations.apply(lambda row: row[k + row["optFilter"]], axis=1)
    return observations

def colours(observations, function, othercolours, observing_filters, mainfilter):
    H_col = "H_" + mainfilter
    observations[mainfilter + "-" + mainfilter] = 0.0
    shifted = observations.apply(lambda row: row[H_col] + row[row["optFilter"] + "-" + mainfilter], axis=1)
    if function == "HG1G2":
        observations = phase_params(observations, function, H_col, observing_filters, ["G1", "G2"])
    elif function == "HG":
        observations = phase_params(observations, function, H_col, observing_filters, ["GS"])
    elif function == "HG12":
        observations = phase_params(observations, function, H_col, observing_filters, ["G12"])
    elif function == "linear":
        observations = phase_params(observations, function, H_col, observing_filters, ["S"])
    elif function == "none":
        pass
    else:
        sys.exit("unknown phase function")
    observations["H_filter"] = shifted
    return observations.rename(columns={H_col: H_col})

def one(observations, phasefunction, mainfilter, othercolours, observing_filters, cometary_activity_choice=None, lightcurve_choice=None, verbose=False):
    observations["H_filter"] = observations["H_" + mainfilter]
    return observations

def header(filename, observing_filters, filesep):
    with open(filename) as f:
        line = f.readline()
    if "H_" not in line:
        sys.exit("no H column")
    main = line[line.find("H_") + 2]
    if main not in observing_filters:
        sys.exit("main filter is not observed")
    if len(observing_filters) > 1:
        others = [x + "-" + main for x in observing_filters[1:]]
    elif len(observing_filters) == 1:
        others = None
    else:
        sys.exit("no filters")
    if filesep == "whitespace":
        cols = line[:-1].split()
    elif filesep == "comma" or filesep == "csv":
        cols = line[:-1].split(",")
    else:
        sys.exit("unknown format")
    if len(cols) <= 1:
        sys.exit("wrong format")
    if others and not all(c in cols for c in others):
        sys.exit("missing colours")
    return main, others
''')


def colour_args(main, filters):
    def f(I, st):
        return dict(mainfilter=const(main), observing_filters=I.new(st, ListC([const(x) for x in filters])))
    return f


@prop("P13")
def colour_and_phase(ctx):
    """colour, distance and phase terms of the apparent magnitude, each phase function with its own coefficients"""
    for main, filters in (("r", "rgizuy"), ("g", "gr"), ("r", "ri")):
        same(ctx, "own filter's colour and phase parameters", M + "PPApplyColourOffsets:PPApplyColourOffsets", "colour:colours", ["observations"],
             args=colour_args(main, filters), ignore=("%s-%s" % (main, main),), construct="sorcha.modules.PPApplyColourOffsets:PPApplyColourOffsets")


@prop("P13")
def main_filter(ctx):
    """the main filter and the colours of the other filters"""
    same(ctx, "main filter and colours", M + "PPGetMainFilterAndColourOffsets:PPGetMainFilterAndColourOffsets", "colour:header")


@prop("P13", "P33", "P34")
def in_filter(ctx):
    """the magnitude in the observation's filter: H plus that filter's colour"""
    same(ctx, "apparent magnitude", M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter", "mag:infilter", ["padain"],
         args=dict(colname=sym("colname"), lightcurve_choice=sym("lightcurve_choice"), cometary_activity_choice=const(None)))


SC = "sorcha.modules.PPCalculateSimpleCometaryMagnitude:PPCalculateSimpleCometaryMagnitude"


@prop("P13", "P30")
def in_filter_active(ctx):
    """activity and light curve act on the magnitude, with the object's own parameters"""
    same(ctx, "apparent magnitude with activity", M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter", "mag:infilter", ["padain"],
         args=dict(colname=sym("colname"), lightcurve_choice=sym("lightcurve_choice"), cometary_activity_choice=sym("activity")), opaque=(SC,), ret_frames={SC: "R"})
    same(ctx, "activity model", SC, "mag:comet", args=dict(activity_choice=sym("activity_choice")))


@prop("P13")
def magnitude_stage(ctx):
    """the magnitude stage as the pipelines use it"""
    q = M + "PPCalculateApparentMagnitude:PPCalculateApparentMagnitude"
    for filters in ("r", "rgi"):
        same(ctx, "apparent magnitude stage", q, "mag:stage", ["observations"],
             args=lambda I, st: dict(observing_filters=I.new(st, ListC([const(x) for x in filters])), mainfilter=const("r"),
                                     cometary_activity_choice=sym("activity"), lightcurve_choice=sym("lightcurve")), opaque_fn=lambda x: x.endswith("InFilter") or x.endswith("Offsets"),
             ret_frames={M + "PPApplyColourOffsets:PPApplyColourOffsets": "R", M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter": "R"})


spec("losses", '''
import numpy as np
import sys
from sorcha.modules.PPVignetting import vignetFunc

COEF = {"trailedSource": (0.761, 1.162), "circularPSF": (0.42, 0.003)}

def loss(dRaCosDec, dDec, seeing, texp=30.0, model="circularPSF", a_trail=0.761, b_trail=1.162, a_det=0.42, b_det=0.003):
    x = np.sqrt(dRaCosDec**2 + dDec**2) / 24.0 * texp / seeing
    if model == "trailedSource":
        return 1.25 * np.log10(1.0 + a_trail * x**2 / (1.0 + b_trail * x))
    if model == "circularPSF":
        return 1.25 * np.log10(1.0 + a_det * x**2 / (1.0 + b_det * x))
    sys.exit("unknown model")

def trailing(eph_df, model="circularPSF", dra_cosdec_name="RARateCosDec_deg_day", ddec_name="DecRate_deg_day", dec_name="Dec_deg",
             seeing_name_survey="seeingFwhmEff_arcsec", visit_time_name="visitExposureTime"):
    return loss(eph_df[dra_cosdec_name], eph_df[ddec_name], eph_df[seeing_name_survey], texp=eph_df[visit_time_name], model=model)

def vignetting(df, raName="RA_deg", decName="Dec_deg", fieldName="FieldID", raNameSurvey="fieldRA_deg", decNameSurvey="fieldDec_deg"):
    a1, d1 = np.deg2rad(df[raName]), np.deg2rad(df[decName])
    a2, d2 = np.deg2rad(df[raNameSurvey]), np.deg2rad(df[decNameSurvey])
    h = np.sin((d2 - d1) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((a2 - a1) / 2) ** 2
    return df["fieldFiveSigmaDepth_mag"] - vignetFunc(np.rad2deg(2 * np.arcsin(np.sqrt(h))))
''')

VF = M + "PPVignetting:vignetFunc"


def numbers(t, I, st, sets):
    """numeric value of a constant array expression"""
    from fractions import Fraction
    if t.op in ("list", "arr", "tuple"):
        return [numbers(x, I, st, sets) for x in t.args]
    if t.op == "num":
        return Fraction(t.args[0])
    if t.op == "attr" and t.args[0].op == "func" and t.args[1] in sets:
        return numbers(sets[t.args[1]], I, st, {})
    if t.op == "poly":
        tot = None
        for m, c in t.args[0]:
            v = Fraction(c)
            for a, e in m:
                x = numbers(a, I, st, sets)
                if e.denominator != 1:
                    raise AnalysisError("attenuation table is not rational")
                for _ in range(abs(int(e))):
                    if isinstance(v, list) and isinstance(x, list):
                        v = [p * q if e > 0 else p / q for p, q in zip(v, x)]
                    elif isinstance(v, list):
                        v = [p * x if e > 0 else p / x for p in v]
                    elif isinstance(x, list):
                        v = [v * q if e > 0 else v / q for q in x]
                    else:
                        v = v * x if e > 0 else v / x
            tot = v if tot is None else [p + q for p, q in zip(tot, v)] if isinstance(tot, list) else tot + v
        return tot
    if t.op == "item" and num(t.args[1]) is not None:
        return numbers(t.args[0], I, st, sets)[int(num(t.args[1]))]
    raise AnalysisError("attenuation table is not a constant: %s" % show(t, 4)[:200])


@prop("P14", "P04")
def trailing_loss(ctx):
    """trailing losses of rate, exposure and seeing"""
    same(ctx, "trailing loss", M + "PPTrailingLoss:calcTrailingLoss", "losses:loss")
    same(ctx, "trailing loss/coefficients", M + "PPTrailingLoss:calcTrailingLoss", "losses:loss",
         args={k: sym(k) for k in ("texp", "model", "a_trail", "b_trail", "a_det", "b_det")})
    same(ctx, "trailing loss of a table", M + "PPTrailingLoss:PPTrailingLoss", "losses:trailing", ["eph_df"])
    same(ctx, "trailing loss of a table", M + "PPTrailingLoss:PPTrailingLoss", "losses:trailing", ["eph_df"], args=dict(model=sym("model"), seeing_name_survey=sym("seeing")))


@prop("P14", "P04")
def vignetting(ctx):
    """the depth at a position of the focal plane"""
    same(ctx, "vignetted depth", M + "PPVignetting:vignettingEffects", "losses:vignetting", ["df"], opaque=(VF,))


@prop("P14")
def attenuation(ctx):
    """-2.5 log10 of an attenuation interpolated in a table that starts at 1 and never increases"""
    rule, con = "attenuation never decreases outwards", VF
    r = ctx.run(VF)
    v = clean(r.term())
    calls = [x for x in walk(v) if x.op == "call" and x.args[0] in ("numpy.interp",)]
    if len(calls) != 1 or len(calls[0].args) < 4:
        return ctx.bad(rule, con, "the dimming is not an interpolation in one table of attenuations: %s" % show(v, 4)[:200])
    c = calls[0]
    ctx.eq(rule, con, v, mul(const(-2.5), mk("call", "log10", c)), "the dimming")
    ctx.ob(rule, c.args[1] is sym("x"), con, "the attenuation is interpolated at %s, must be the distance from the field centre" % show(c.args[1], 4))
    sets = {}
    for e in r.I.effects:
        if e.kind == "setattr":
            sets[e.name] = subst(r.I.term(e.args[1], St({}, e.heap, TRUE)), lambda x: sets.get(x.args[1]) if x.op == "attr" and x.args[0].op == "func" and x.args[1] in sets else None)
    try:
        xs, ys = numbers(c.args[2], r.I, r.st, sets), numbers(c.args[3], r.I, r.st, sets)
    except AnalysisError as e:
        return ctx.bad(rule, con, str(e))
    for k in c.args[4:]:
        side = k.args[0] if k.op == "kw" else None
        try:
            edge = numbers(mk("list", k.args[1]), r.I, r.st, sets) if k.op == "kw" else None
        except AnalysisError:
            edge = None
        ctx.ob(rule, side in ("left", "right") and edge == [ys[0] if side == "left" else ys[-1]], con,
               "beyond the table the attenuation is %s, must be that of its edge" % show(k, 5)[:200])
    ctx.ob(rule, len(xs) == len(ys) and len(xs) > 1, con, "table of %d distances and %d attenuations" % (len(xs), len(ys)))
    bad = [i for i in range(len(xs) - 1) if not xs[i] < xs[i + 1]]
    ctx.ob(rule, not bad, con, "the table's distances are not increasing at entry %s" % bad[:1])
    bad = [i for i in range(len(ys) - 1) if ys[i] < ys[i + 1]]
    ctx.ob(rule, not bad, con, "the attenuation rises outwards at entry %s (%s deg)" % (bad[:1], float(xs[bad[0]]) if bad else ""))
    ctx.ob(rule, ys[0] == 1 and ys[-1] > 0, con, "the attenuation is %s at the centre and %s at the edge, must be 1 and positive" % (float(ys[0]), float(ys[-1])))


spec("visits", '''
import pandas as pd
import numpy as np
import sqlite3, sys

def match(padain, pointfildb):
    skip = ["fieldJD_TDB", "pixels_begin", "pixels_end"]
    for v in ["visit_vector", "pixels", "r_obs", "v_obs", "r_sun", "v_sun"]:
        skip += [v + "_x", v + "_y", v + "_z"]
    res = pd.merge(padain, pointfildb.drop(columns=skip, errors="ignore"), left_on="FieldID", right_on="FieldID", how="left")
    res = res[res["optFilter"].notna()].reset_index(drop=True)
    if not np.isclose(res["observationStartMJD_TAI"], res["fieldMJD_TAI"]).all():
        sys.exit("times differ")
    return res.drop(columns=["observationStartMJD_TAI", "observationId_", "observationMidpointMJD_TAI"])

def read(bsdbname, observing_filters, dbquery, surveyname, fading_function_on=0):
    con = sqlite3.connect("file:" + bsdbname + "?mode=ro", uri=True)
    df = pd.read_sql_query(dbquery, con)
    df["observationId_"] = df["observationId"]
    df = df.rename(columns={"observationId": "FieldID", "filter": "optFilter"})
    df["optFilter"] = df["optFilter"].astype("category")
    df = df[df["optFilter"].isin(observing_filters)]
    if df.empty:
        sys.exit("no visits")
    if surveyname in ["rubin_sim", "RUBIN_SIM"]:
        df["observationMidpointMJD_TAI"] = df["observationStartMJD_TAI"] + df["visitTime"] / 2.0 / 86400.0
    elif surveyname in ["DES", "des"]:
        df["observationStartMJD_TAI"] = df["observationMidpointMJD_TAI"] - df["visitExposureTime"] / 2.0 / 86400.0
    else:
        sys.exit("unknown survey")
    if fading_function_on and surveyname in ["DES", "des"]:
        if "c" not in df.columns or "k" not in df.columns:
            sys.exit("missing columns")
        if df["c"].isna().any() or df["k"].isna().any():
            sys.exit("missing values")
    return df
''')


@prop("P15", "P08", "P33")
def visit_join(ctx):
    """every row gets the columns of its own visit, and only requested filters"""
    same(ctx, "visit join", M + "PPMatchPointingToObservations:PPMatchPointingToObservations", "visits:match", ["padain", "pointfildb"])


@prop("P15", "P24", "P34", "P08")
def visit_query(ctx):
    """the visits database is asked the configured question"""
    same(ctx, "visits in the requested filters", M + "PPReadPointingDatabase:PPReadPointingDatabase", "visits:read", args=dict(fading_function_on=sym("fading_function_on")))
    same(ctx, "visits in the requested filters", M + "PPReadPointingDatabase:PPReadPointingDatabase", "visits:read")
