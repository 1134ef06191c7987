"""P23 validation of configuration values; P24 storage of configured values and options."""
from .common import *

CFG = "sorcha.utilities.sorchaConfigs:"

spec("cfg", '''
import sys, os
import configparser
import numpy as np
from sorcha.utilities import sorchaConfigs as C
from sorcha.lightcurves.lightcurve_registration import LC_METHODS
from sorcha.activity.activity_registration import CA_METHODS

def need(v):
    if v is None:
        sys.exit("required")

def absent(v):
    if v is not None:
        sys.exit("contradiction")

def oneof(v, xs):
    if v not in xs:
        sys.exit("not accepted")

def whole(v):
    try:
        return int(v)
    except ValueError:
        sys.exit("not an integer")

def real(v):
    try:
        x = float(v)
    except ValueError:
        sys.exit("not a number")
    if np.isnan(x):
        sys.exit("not a number")
    return x

def within(v, lo, hi):
    if v < lo or v > hi:
        sys.exit("out of range")

def least(v, lo):
    if v < lo:
        sys.exit("out of range")

def switch(v, default):
    if v is None:
        return default
    return onoff(v)

def onoff(v):
    s = str(v).strip()
    if s in ["true", "1", "yes", "y", "True"]:
        return True
    if s in ["false", "0", "no", "n", "False"]:
        return False
    sys.exit("not a switch")

def real_input(a, b, c, d, e):
    x = C.inputConfigs(ephemerides_type=a, eph_format=b, size_serial_chunk=c, aux_format=d, pointing_sql_query=e)
    return x.ephemerides_type, x.eph_format, x.size_serial_chunk, x.aux_format, x.pointing_sql_query

def input(a, b, c, d, e):
    for v in (a, b, c, d, e):
        need(v)
    oneof(a, ["ar", "external"])
    oneof(b, ["csv", "whitespace", "hdf5"])
    oneof(d, ["comma", "whitespace", "csv"])
    c = whole(c)
    least(c, 1)
    return a, b, c, d, e

def real_simulation(t, a, b, c, d, e, n):
    x = C.simulationConfigs(_ephemerides_type=t, ar_ang_fov=a, ar_fov_buffer=b, ar_picket=c, ar_obs_code=d, ar_healpix_order=e, ar_n_sub_intervals=n)
    return x.ar_ang_fov, x.ar_fov_buffer, x.ar_picket, x.ar_obs_code, x.ar_healpix_order, x.ar_n_sub_intervals

def simulation(t, a, b, c, d, e, n):
    need(t)
    oneof(t, ["ar", "external"])
    if t == "ar":
        for v in (a, b, c, d, e):
            need(v)
        return real(a), real(b), whole(c), d, whole(e), whole(n)
    for v in (a, b, c, d, e):
        absent(v)
    return a, b, c, d, e, n

def real_filters(f, s):
    x = C.filtersConfigs(observing_filters=f, survey_name=s)
    return x.observing_filters

def filters(f, s):
    need(f)
    need(s)
    if isinstance(f, str):
        f = [x.strip() for x in f.split(",")]
    if s in ["rubin_sim", "RUBIN_SIM", "LSST", "lsst"]:
        if not all(x in ["u", "g", "r", "i", "z", "y"] for x in f):
            sys.exit("filter")
    if s in ["DES", "des"]:
        if not all(x in ["g", "r", "i", "z", "Y"] for x in f):
            sys.exit("filter")
    return f

def real_saturation(o, l, f):
    x = C.saturationConfigs(bright_limit_on=o, bright_limit=l, _observing_filters=f)
    return x.bright_limit_on, x.bright_limit

def saturation(o, l, f):
    if l is not None:
        o = True
    if o:
        need(f)
        if isinstance(l, str):
            try:
                l = [float(e.strip()) for e in l.split(",")]
            except ValueError:
                sys.exit("number")
        elif isinstance(l, float):
            l = [l] * len(f)
        if isinstance(l, list):
            if len(l) == 1:
                l = [l[0]] * len(f)
            elif len(l) != len(f):
                sys.exit("as many as filters")
    return o, l

def real_phase(f):
    return C.phasecurvesConfigs(phase_function=f).phase_function

def phase(f):
    need(f)
    oneof(f, ["HG", "HG1G2", "HG12", "linear", "none"])
    return f

def real_fov(m, p, q, ff, r, e, s):
    x = C.fovConfigs(camera_model=m, footprint_path=p, visits_query=q, fill_factor=ff, circle_radius=r, footprint_edge_threshold=e, survey_name=s)
    return x.camera_model, x.footprint_path, x.visits_query, x.fill_factor, x.circle_radius, x.footprint_edge_threshold

def fov(m, p, q, ff, r, e, s):
    need(m)
    oneof(m, ["circle", "footprint", "visits_footprint", "none"])
    if m == "footprint":
        if p is not None:
            if not os.path.exists(p):
                sys.exit("no such file")
        elif s.lower() not in ["lsst", "rubin_sim", "des"]:
            sys.exit("no default")
        if e is not None:
            e = real(e)
        absent(q)
        absent(ff)
        absent(r)
    elif m == "visits_footprint":
        oneof(s.lower(), ["des"])
        need(q)
        absent(e)
        absent(ff)
        absent(r)
    elif m == "circle":
        if ff is not None:
            ff = real(ff)
            within(ff, 0.0, 1.0)
        if r is not None:
            r = real(r)
            least(r, 0.0)
        if ff is None and r is None:
            sys.exit("one of them")
        absent(e)
    return m, p, q, ff, r, e

def real_fading(o, w, p, t, s):
    x = C.fadingfunctionConfigs(fading_function_on=o, fading_function_width=w, fading_function_peak_efficiency=p, des_transient_efficency=t, survey_name=s)
    return x.fading_function_on, x.fading_function_width, x.fading_function_peak_efficiency, x.des_transient_efficency

def fading(o, w, p, t, s):
    if s in ["DES", "des"]:
        need(o)
        o = onoff(o)
        if o:
            t = real(t) if t is not None else 1
        absent(p)
        absent(w)
        return o, w, p, t
    if w is None and p is None:
        return False, w, p, t
    if w is None or p is None:
        sys.exit("both")
    w, p = real(w), real(p)
    if w <= 0.0 or w > 0.5:
        sys.exit("width")
    within(p, 0.0, 1.0)
    return True, w, p, t

def real_linking(drop, eff, nobs, sep, tmax, ntr, win, noon, dd, s, du, dl, mu, ml):
    x = C.linkingfilterConfigs(drop_unlinked=drop, ssp_detection_efficiency=eff, ssp_number_observations=nobs, ssp_separation_threshold=sep,
        ssp_maximum_time=tmax, ssp_number_tracklets=ntr, ssp_track_window=win, ssp_night_start_utc=noon, des_discovery_on=dd, survey_name=s,
        distance_cut_upper=du, distance_cut_lower=dl, motion_cut_upper=mu, motion_cut_lower=ml)
    return (x.ssp_linking_on, x.drop_unlinked, x.ssp_detection_efficiency, x.ssp_number_observations, x.ssp_separation_threshold, x.ssp_maximum_time,
            x.ssp_number_tracklets, x.ssp_track_window, x.ssp_night_start_utc, x.des_discovery_on, x.distance_cut_on, x.distance_cut_upper, x.distance_cut_lower,
            x.motion_cut_on, x.motion_cut_upper, x.motion_cut_lower)

def linking(drop, eff, nobs, sep, tmax, ntr, win, noon, dd, s, du, dl, mu, ml):
    given = [sep, nobs, ntr, win, eff, tmax, noon]
    if all(v is not None for v in given) and s.lower() != "des":
        eff, nobs, sep, tmax, ntr, win, noon = real(eff), whole(nobs), real(sep), real(tmax), whole(ntr), whole(win), real(noon)
        least(nobs, 1)
        least(sep, 0.0)
        if nobs > 1 and sep == 0.0:
            sys.exit("separation")
        least(ntr, 1)
        if win <= 0:
            sys.exit("window")
        within(eff, 0, 1)
        least(tmax, 0)
        within(noon, 0, 24)
        on = True
    elif all(v is None for v in given):
        on = False
    else:
        sys.exit("all or none")
    drop = switch(drop, True)
    if dd and s.lower() == "des":
        dd = onoff(dd)
    dc = mc = None
    if du is not None or dl is not None:
        need(du)
        need(dl)
        dc, du, dl = True, real(du), real(dl)
    if mu is not None or ml is not None:
        need(mu)
        need(ml)
        mc, mu, ml = True, real(mu), real(ml)
    if (dc or mc) and s.lower() != "des":
        sys.exit("DES only")
    return on, drop, eff, nobs, sep, tmax, ntr, win, noon, dd, dc, du, dl, mc, mu, ml

def real_output(f, c, p, m):
    x = C.outputConfigs(output_format=f, output_columns=c, position_decimals=p, magnitude_decimals=m)
    return x.output_format, x.output_columns, x.position_decimals, x.magnitude_decimals

def output(f, c, p, m):
    need(f)
    need(c)
    oneof(f, ["csv", "sqlite3", "hdf5"])
    if "," in c:
        c = [n.strip(" ") for n in c.split(",")]
    else:
        oneof(c, ["basic", "all"])
    if p is not None:
        p = whole(p)
        least(p, 0)
    if m is not None:
        m = whole(m)
        least(m, 0)
    return f, c, p, m

def real_lightcurve(m):
    return C.lightcurveConfigs(lc_model=m).lc_model

def lightcurve(m):
    if m == "none" or m is None:
        return None
    oneof(m, LC_METHODS)
    return m

def real_activity(m):
    return C.activityConfigs(comet_activity=m).comet_activity

def activity(m):
    if m == "none" or m is None:
        return None
    oneof(m, CA_METHODS)
    return m

def real_expert(snr, mag, tl, cut, rand, vig, brute, s, cam):
    x = C.expertConfigs(snr_limit=snr, mag_limit=mag, trailing_losses_on=tl, default_snr_cut=cut, randomization_on=rand, vignetting_on=vig,
                        brute_force=brute, survey_name=s, camera_model=cam)
    return x.snr_limit, x.snr_limit_on, x.mag_limit, x.mag_limit_on, x.trailing_losses_on, x.default_snr_cut, x.randomization_on, x.vignetting_on, x.brute_force

def expert(snr, mag, tl, cut, rand, vig, brute, s, cam):
    if snr is not None:
        snr = real(snr)
        least(snr, 0)
    if mag is not None:
        mag = real(mag)
        least(mag, 0)
    if snr is not None and mag is not None:
        sys.exit("one of them")
    cut, brute = switch(cut, True), switch(brute, True)
    if s in ["rubin_sim", "RUBIN_SIM", "LSST", "lsst"]:
        rand, vig, tl = switch(rand, True), switch(vig, cam != "visits_footprint"), switch(tl, True)
        if cam == "visits_footprint" and vig:
            sys.exit("no vignetting")
    elif s in ["DES", "des"]:
        rand, vig, tl = switch(rand, False), switch(vig, False), switch(tl, False)
        if rand or vig or tl:
            sys.exit("not for DES")
    elif cam == "visits_footprint":
        vig = switch(vig, False)
        if vig:
            sys.exit("no vignetting")
    return snr, snr is not None, mag, mag is not None, tl, cut, rand, vig, brute

class Aux(C.auxiliaryConfigs):
    pass

NAMES = ("planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "orientation_constants", "observatory_codes_compressed")

def real_aux(file, url):
    out = []
    for n in NAMES:
        x = C.auxiliaryConfigs(**{n: file, n + "_url": url})
        out.append((n, getattr(x, n), getattr(x, n + "_url")))
    return out

def aux(file, url):
    out = []
    for n in NAMES:
        df, du = getattr(C.auxiliaryConfigs, n), getattr(C.auxiliaryConfigs, n + "_url")
        if file == df and url != du:
            sys.exit("url without file name")
        out.append((n, file, None if file != df and url == du else url))
    return out

class Read(C.sorchaConfigs):
    def __init__(self, survey):
        self.survey_name = survey

def real_read(cfg, survey):
    x = Read(survey)
    x._read_configs_from_object(cfg)
    return (x.input, x.simulation, x.filters, x.saturation, x.phasecurves, x.fov, x.fadingfunction, x.linkingfilter, x.output, x.lightcurve, x.activity, x.expert, x.auxiliary, x.survey_name)

def keys(cfg, section):
    return dict(cfg[section]) if cfg.has_section(section) else {}

def read(cfg, survey):
    i = C.inputConfigs(**keys(cfg, "INPUT"))
    s = C.simulationConfigs(**keys(cfg, "SIMULATION"), _ephemerides_type=i.ephemerides_type)
    f = C.filtersConfigs(**keys(cfg, "FILTERS"), survey_name=survey)
    if cfg.has_section("SATURATION"):
        sat = C.saturationConfigs(**dict(cfg["SATURATION"]), _observing_filters=f.observing_filters)
    else:
        sat = C.saturationConfigs()
    p = C.phasecurvesConfigs(**keys(cfg, "PHASECURVES"))
    v = C.fovConfigs(**keys(cfg, "FOV"), survey_name=survey)
    fa = C.fadingfunctionConfigs(**keys(cfg, "FADINGFUNCTION"), survey_name=survey)
    li = C.linkingfilterConfigs(**keys(cfg, "LINKINGFILTER"), survey_name=survey)
    o = C.outputConfigs(**keys(cfg, "OUTPUT"))
    l = C.lightcurveConfigs(**keys(cfg, "LIGHTCURVE"))
    a = C.activityConfigs(**keys(cfg, "ACTIVITY"))
    if cfg.has_section("EXPERT"):
        e = C.expertConfigs(**dict(cfg["EXPERT"]), survey_name=survey, camera_model=v.camera_model)
    elif v.camera_model == "visits_footprint":
        e = C.expertConfigs(survey_name=survey, camera_model=v.camera_model)
    else:
        e = C.expertConfigs(survey_name=survey)
    x = C.auxiliaryConfigs(**keys(cfg, "AUXILIARY"))
    return i, s, f, sat, p, v, fa, li, o, l, a, e, x, survey

def load(config_file_location, survey_name):
    x = Made(survey_name)
    if config_file_location:
        c = configparser.ConfigParser()
        c.read(config_file_location)
        x._read_configs_from_object(c)
    return x.survey_name, x.parts if config_file_location else None

class Made(C.sorchaConfigs):
    def __init__(self, survey):
        self.survey_name, self.parts = survey, None
    def _read_configs_from_object(self, c):
        self.parts = ("read from", c)

class Loaded(C.sorchaConfigs):
    parts = None
    def _read_configs_from_object(self, c):
        self.parts = ("read from", c)

def real_load(config_file_location, survey_name):
    x = Loaded(config_file_location, survey_name)
    return x.survey_name, x.parts if config_file_location else None
''')


CLASSES = {CFG + c for c in ("inputConfigs", "simulationConfigs", "filtersConfigs", "saturationConfigs", "phasecurvesConfigs", "fovConfigs", "fadingfunctionConfigs",
                             "linkingfilterConfigs", "outputConfigs", "lightcurveConfigs", "activityConfigs", "expertConfigs", "auxiliaryConfigs")}


@prop("P23", "P24", "P34")
def reading(ctx):
    """every section of the file is given to its own class, with the survey and the values it is checked against"""
    same(ctx, "sections read", "vspec.cfg:real_read", "cfg:read", opaque=tuple(CLASSES), construct=CFG + "sorchaConfigs._read_configs_from_object")
    same(ctx, "file read", "vspec.cfg:real_load", "cfg:load", construct=CFG + "sorchaConfigs.__init__")


def keep_float(I, f, args, kws, st, n):
    if not args:
        return None
    return I.lift(lambda x: x if x.op == "num" or x.op == "call" and x.args[0] == "float" else mk("call", "float", x), st, args[0])


SURVEYS = ["rubin_sim", "RUBIN_SIM", "LSST", "lsst", "DES", "des"]


def arg_cls(nm):
    return CFG + nm


SECTIONS = (("input", "inputConfigs"), ("simulation", "simulationConfigs"), ("filters", "filtersConfigs"), ("saturation", "saturationConfigs"),
            ("phase", "phasecurvesConfigs"), ("fov", "fovConfigs"), ("fading", "fadingfunctionConfigs"), ("linking", "linkingfilterConfigs"),
            ("output", "outputConfigs"), ("lightcurve", "lightcurveConfigs"), ("activity", "activityConfigs"), ("expert", "expertConfigs"), ("aux", "auxiliaryConfigs"))


def accepted(ctx, names=None):
    for nm, cls in SECTIONS:
        if names is None or nm in names:
            same(ctx, "accepted values", "vspec.cfg:real_" + nm, "cfg:" + nm, hooks={"builtins.float": keep_float}, construct=CFG + cls)


@prop("P23", "P24", "P34")
def sections(ctx):
    """every configuration class accepts exactly the values in range, and keeps them as given (converted to their type)"""
    accepted(ctx)


@prop("P30")
def model_names(ctx):
    """only the names of registered light curve and activity models are accepted"""
    accepted(ctx, ("lightcurve", "activity"))


@prop("P17")
def decimals(ctx):
    """the configured decimals are whole numbers, kept as given, zero included"""
    accepted(ctx, ("output",))


@prop("P06")
def circle_values(ctx):
    """radius and fill factor are kept as given, zero included"""
    accepted(ctx, ("fov",))


@prop("P35")
def aux_values(ctx):
    """the configured names and sources are kept as given"""
    accepted(ctx, ("aux",))
