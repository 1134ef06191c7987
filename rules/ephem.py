"""P28 ephemeris columns, P32 candidate search."""
from .common import *

DRV = "sorcha.ephemeris.simulation_driver:"
GEO = "sorcha.ephemeris.simulation_geometry:"
SET = "sorcha.ephemeris.simulation_setup:"
SP = "sorcha.ephemeris.simulation_parsing:"
PIX = "sorcha.ephemeris.pixel_dict:"

spec("ephem", '''
import os
import numpy as np
import pandas as pd
import healpy as hp
import spiceypy as spice
from csv import writer
from io import StringIO
from sorcha.ephemeris.simulation_constants import AU_KM, SPEED_OF_LIGHT, RADIUS_EARTH_KM
from sorcha.ephemeris.simulation_geometry import vec2ra_dec, integrate_light_time, ra_dec2vec, barycentricObservatoryRates
from sorcha.ephemeris.simulation_driver import EphemerisGeometryParameters, calculate_rates_and_geometry, write_out_ephemeris_file
from sorcha.ephemeris.simulation_setup import create_assist_ephemeris, furnish_spiceypy, generate_simulations
from sorcha.ephemeris.simulation_parsing import Observatory, mjd_tai_to_epoch
from sorcha.ephemeris.pixel_dict import PixelDict
from sorcha.modules.PPOutput import PPOutWriteCSV, PPOutWriteHDF5

def au():
    return 149597870700 / 1000.0

def vec(row, name):
    return np.array([row[name + "_x"], row[name + "_y"], row[name + "_z"]])

def radec(v):
    d = 180.0 / np.pi
    return (d * np.arctan2(v[1], v[0])) % 360, d * np.arcsin(v[2])

def unit(ra, dec):
    d = np.pi / 180.0
    return np.array((np.cos(ra * d) * np.cos(dec * d), np.sin(ra * d) * np.cos(dec * d), np.sin(dec * d))).T

def residual(v1):
    x, y, z = v1
    c = np.sqrt(1 - z * z)
    return np.array((-y, x, 0.0)) / c, np.array((-z * x / c, -z * y / c, c))

def light_time(sim, ex, t, r_obs, lt0=0, iter=3, speed_of_light=SPEED_OF_LIGHT):
    lt = lt0
    for i in range(iter):
        ex.integrate_or_interpolate(t - lt)
        target = np.array(sim.particles[0].xyz)
        vtarget = np.array(sim.particles[0].vxyz)
        rho = target - r_obs
        dist = np.linalg.norm(rho)
        lt = dist / speed_of_light
    return rho, dist, lt, target, vtarget

def row(pointing, ephem_geom_params):
    p = ephem_geom_params
    r_sun, r_obs = vec(pointing, "r_sun"), vec(pointing, "r_obs")
    v_sun, v_obs = vec(pointing, "v_sun"), vec(pointing, "v_obs")
    ra0, dec0 = radec(p.rho_hat)
    drho = p.v_ast - v_obs
    rate = np.dot(p.rho, drho) / p.rho_mag
    drho = p.v_ast * (1 - rate / SPEED_OF_LIGHT) - v_obs
    A, D = residual(p.rho_hat)
    dhat = drho / p.rho_mag - rate * p.rho_hat / p.rho_mag
    dra = np.dot(A, dhat)
    ddec = np.dot(D, dhat)
    s = p.r_ast - r_sun
    sv = p.v_ast - v_sun
    o = p.r_ast - r_obs
    phase = np.arccos(np.dot(s, o) / (np.linalg.norm(s) * np.linalg.norm(o)))
    os_ = r_obs - r_sun
    osv = v_obs - v_sun
    day = 24 * 60 * 60
    return (p.obj_id, pointing["FieldID"], p.mjd_tai, pointing["fieldJD_TDB"], p.rho_mag * AU_KM, rate * AU_KM / day,
            ra0, dra * 180 / np.pi, dec0, ddec * 180 / np.pi,
            s[0] * AU_KM, s[1] * AU_KM, s[2] * AU_KM, sv[0] * AU_KM / day, sv[1] * AU_KM / day, sv[2] * AU_KM / day,
            os_[0] * AU_KM, os_[1] * AU_KM, os_[2] * AU_KM, osv[0] * AU_KM / day, osv[1] * AU_KM / day, osv[2] * AU_KM / day,
            phase * 180 / np.pi)

def create(orbits_df, pointings_df, args, sconfigs):
    radius = sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer
    target = None
    if args.output_ephemeris_file and args.outpath:
        target = os.path.join(args.outpath, args.output_ephemeris_file)
    ephem, gm_sun, gm_total = create_assist_ephemeris(args, sconfigs.auxiliary)
    furnish_spiceypy(args, sconfigs.auxiliary)
    sims = generate_simulations(ephem, gm_sun, gm_total, orbits_df, args)
    observatories = Observatory(args, sconfigs.auxiliary)
    output = StringIO()
    table = writer(output)
    table.writerow(("ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s",
        "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
        "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
        "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"))
    pixdict = PixelDict(pointings_df["fieldJD_TDB"].iloc[0], sims, ephem, sconfigs.simulation.ar_obs_code, observatories,
        sconfigs.simulation.ar_picket, 2 ** sconfigs.simulation.ar_healpix_order, n_sub_intervals=sconfigs.simulation.ar_n_sub_intervals)
    for _, pointing in pointings_df.iterrows():
        desigs = pixdict.get_designations(pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], radius)
        vectors = pixdict.interpolate_unit_vectors(desigs, pointing["fieldJD_TDB"])
        centre = vec(pointing, "visit_vector")
        r_obs = vec(pointing, "r_obs")
        for k, uv in vectors.items():
            p = EphemerisGeometryParameters()
            p.obj_id = k
            p.mjd_tai = float(pointing["observationMidpointMJD_TAI"])
            sim, ex = sims[k]["sim"], sims[k]["ex"]
            uv = uv / np.linalg.norm(uv)
            if np.arccos(np.dot(uv, centre)) * 180 / np.pi < radius:
                p.rho, p.rho_mag, _, p.r_ast, p.v_ast = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                p.rho_hat = p.rho / p.rho_mag
                if 180 / np.pi * np.arccos(np.dot(p.rho_hat, centre)) < radius:
                    table.writerow(calculate_rates_and_geometry(pointing, p))
    output.seek(0)
    df = pd.read_csv(output, dtype={"ObjID": str})
    if target:
        write_out_ephemeris_file(df, target, args, sconfigs)
    df["ObjID"] = df["ObjID"].astype("string")
    orbits_df["ObjID"] = orbits_df["ObjID"].astype("string")
    out = df.join(orbits_df.set_index("ObjID"), on="ObjID")
    spice.kclear()
    return out

def write_out(ephemeris_df, ephemeris_csv_filename, args, sconfigs):
    if sconfigs.input.eph_format == "csv":
        PPOutWriteCSV(ephemeris_df, ephemeris_csv_filename + ".csv")
    elif sconfigs.input.eph_format == "whitespace":
        PPOutWriteCSV(ephemeris_df, ephemeris_csv_filename + ".csv", separator=" ")
    elif sconfigs.input.eph_format == "hdf5":
        PPOutWriteHDF5(ephemeris_df, ephemeris_csv_filename + ".h5", "sorcha_ephemeris")

def rates(et, obsCode, observatories, Rearth=RADIUS_EARTH_KM, delta_et=10):
    pv, _ = spice.spkezr("EARTH", et, "J2000", "NONE", "SSB")
    body = "ITRF93" if et >= spice.str2et("1962-Jan-20") else "IAU_EARTH"
    m = spice.pxform(body, "J2000", et)
    mp = spice.pxform(body, "J2000", et + delta_et)
    mm = spice.pxform(body, "J2000", et - delta_et)
    place = np.array(observatories.ObservatoryXYZ[obsCode])
    return pv[0:3] + np.dot(m, place) * Rearth, pv[3:6] + (np.dot(mp, place) * Rearth - np.dot(mm, place) * Rearth) / (2 * delta_et)

def epoch(mjd_tai):
    jd = mjd_tai + 2400000.5 + 32.184 / (24 * 60 * 60)
    return spice.j2000() + spice.str2et("JD %lf TDT" % jd) / (24 * 60 * 60)

class Site:
    def geocentric(self, obs_location):
        if obs_location.get("Longitude") is None or obs_location.get("cos") is None or obs_location.get("sin") is None:
            return (None, None, None)
        lon = obs_location["Longitude"] * np.pi / 180.0
        return (obs_location["cos"] * np.cos(lon), obs_location["cos"] * np.sin(lon), obs_location["sin"])

    def barycentric(self, et, obsCode, Rearth=RADIUS_EARTH_KM):
        pos, _ = spice.spkpos("EARTH", et, "J2000", "NONE", "SSB")
        m = spice.pxform("ITRF93", "J2000", et)
        return pos + np.dot(m, np.array(self.ObservatoryXYZ[obsCode])) * Rearth
''')


OPQ = {SET + "create_assist_ephemeris", SET + "furnish_spiceypy", SET + "generate_simulations", DRV + "calculate_rates_and_geometry", DRV + "write_out_ephemeris_file",
       GEO + "integrate_light_time"}


@prop("P28")
def columns(ctx):
    """the named columns and the quantities written under them; the geometry they are made of"""
    same(ctx, "named quantities", DRV + "calculate_rates_and_geometry", "ephem:row")
    same(ctx, "geometry", GEO + "vec2ra_dec", "ephem:radec", args={"v": sym("v")})
    same(ctx, "geometry", GEO + "ra_dec2vec", "ephem:unit")
    g, w = same(ctx, "geometry", GEO + "integrate_light_time", "ephem:light_time")
    same_acts(ctx, "geometry", GEO + "integrate_light_time", g, w, names={"integrate_or_interpolate", "integrate"})
    same(ctx, "geometry", GEO + "barycentricObservatoryRates", "ephem:rates")
    same(ctx, "time scale", SP + "mjd_tai_to_epoch", "ephem:epoch")


@prop("P28", "P32", "P24")
def assembly(ctx):
    """rows are assembled under the header that names them, for the objects in the search circle"""
    g, w = same(ctx, "row assembly", DRV + "create_ephemeris", "ephem:create", frames=("orbits_df", "pointings_df"), opaque=tuple(OPQ))
    same_acts(ctx, "row assembly", DRV + "create_ephemeris", g, w, names={"writerow", "writerows", "seek", "truncate", DRV + "write_out_ephemeris_file", SET + "generate_simulations", GEO + "integrate_light_time"})


spec("pointing", '''
import numpy as np
import spiceypy as spice
from sorcha.ephemeris.simulation_constants import AU_KM
from sorcha.ephemeris.simulation_geometry import barycentricObservatoryRates
from sorcha.ephemeris.simulation_setup import create_assist_ephemeris, furnish_spiceypy
from sorcha.ephemeris.simulation_parsing import Observatory, mjd_tai_to_epoch
from vspec.ephem import unit

def precompute(pointings_df, args, sconfigs):
    ephem, _, _ = create_assist_ephemeris(args, sconfigs.auxiliary)
    furnish_spiceypy(args, sconfigs.auxiliary)
    observatories = Observatory(args, sconfigs.auxiliary)
    d = np.pi / 180.0
    ra, dec = pointings_df["fieldRA_deg"] * d, pointings_df["fieldDec_deg"] * d
    pointings_df["visit_vector_x"] = np.cos(ra) * np.cos(dec)
    pointings_df["visit_vector_y"] = np.sin(ra) * np.cos(dec)
    pointings_df["visit_vector_z"] = np.sin(dec)
    pointings_df["fieldJD_TDB"] = pointings_df.apply(lambda row: mjd_tai_to_epoch(row["observationMidpointMJD_TAI"]), axis=1)
    et = (pointings_df["fieldJD_TDB"] - spice.j2000()) * 24 * 60 * 60
    r_obs = np.empty((len(pointings_df), 3))
    v_obs = np.empty((len(pointings_df), 3))
    r_sun = np.empty((len(pointings_df), 3))
    v_sun = np.empty((len(pointings_df), 3))
    for i, t in enumerate(et):
        r_obs[i], v_obs[i] = barycentricObservatoryRates(t, sconfigs.simulation.ar_obs_code, observatories=observatories)
    for i, t in enumerate(pointings_df["fieldJD_TDB"] - ephem.jd_ref):
        sun = ephem.get_particle("Sun", t)
        r_sun[i] = np.array((sun.x, sun.y, sun.z))
        v_sun[i] = np.array((sun.vx, sun.vy, sun.vz))
    r_obs = r_obs / AU_KM
    v_obs = v_obs * 24 * 60 * 60 / AU_KM
    for n, m in (("r_obs", r_obs), ("v_obs", v_obs), ("r_sun", r_sun), ("v_sun", v_sun)):
        pointings_df[n + "_x"] = m[:, 0]
        pointings_df[n + "_y"] = m[:, 1]
        pointings_df[n + "_z"] = m[:, 2]
    spice.kclear()
    return pointings_df
''')

spec("pixels", '''
import numpy as np
import healpy as hp
import spiceypy as spice
from collections import defaultdict
from sorcha.ephemeris.simulation_constants import AU_KM
from sorcha.ephemeris.simulation_geometry import integrate_light_time
from sorcha.ephemeris.pixel_dict import PixelDict, lagrange3

class Pix(PixelDict):
    """the repository's class, its state taken from a free object"""
    def __init__(self, o):
        self.nside, self.picket_interval, self.n_sub_intervals = o.nside, o.picket_interval, o.n_sub_intervals
        self.obsCode, self.nested, self.sim_dict, self.ephem, self.observatory = o.obsCode, o.nested, o.sim_dict, o.ephem, o.observatory
        self.t0, self.tp, self.tm = o.t0, o.tp, o.tm
        self.r_obs_0, self.r_obs_p, self.r_obs_m = o.r_obs_0, o.r_obs_p, o.r_obs_m
        self.rho_hat_m_dict, self.rho_hat_0_dict, self.rho_hat_p_dict = o.rho_hat_m_dict, o.rho_hat_0_dict, o.rho_hat_p_dict
        self.pixel_dict = o.pixel_dict

def weights(t0, t1, t2, t):
    return ((t - t1) * (t - t2) / ((t0 - t1) * (t0 - t2)),
            (t - t0) * (t - t2) / ((t1 - t0) * (t1 - t2)),
            (t - t0) * (t - t1) / ((t2 - t0) * (t2 - t1)))

def real_site(o, t):
    return Pix(o).get_observatory_position(t)

def site(o, t):
    return o.observatory.barycentricObservatory((t - spice.j2000()) * 24 * 60 * 60, o.obsCode) / AU_KM

def real_vectors(o, desigs, r_obs, t, lt0=0.01):
    return Pix(o).get_object_unit_vectors(desigs, r_obs, t, lt0)

def vectors(o, desigs, r_obs, t, lt0=0.01):
    out = {}
    for k in desigs:
        rho, dist, lt, r, v = integrate_light_time(o.sim_dict[k]["sim"], o.sim_dict[k]["ex"], t - o.ephem.jd_ref, r_obs, lt0=lt0)
        out[k] = rho / dist
    return out

def real_all(o, r_obs, t):
    return Pix(o).get_all_object_unit_vectors(r_obs, t)

def all_vectors(o, r_obs, t):
    return Pix(o).get_object_unit_vectors(o.sim_dict.keys(), r_obs, t, lt0=0.01)

class Shift(Pix):
    def compute_pixel_traversed(self):
        self.pixel_dict = ("pixels of", self.tm, self.t0, self.tp, self.rho_hat_m_dict, self.rho_hat_0_dict, self.rho_hat_p_dict)
    def get_observatory_position(self, t):
        return ("site", t)
    def get_all_object_unit_vectors(self, r_obs, t, lt0=0.01):
        return ("vectors", r_obs, t, lt0)

def state(p):
    return (p.tm, p.t0, p.tp, p.r_obs_m, p.r_obs_0, p.r_obs_p, p.rho_hat_m_dict, p.rho_hat_0_dict, p.rho_hat_p_dict, p.pixel_dict)

def real_update(o, jd_tdb):
    p = Shift(o)
    p.update_pickets(jd_tdb)
    return state(p)

def at(t):
    return ("vectors", ("site", t), t, 0.01)

def update(o, jd_tdb):
    h = o.picket_interval
    d = abs(jd_tdb - o.t0)
    if d <= 0.5 * h:
        return (o.tm, o.t0, o.tp, o.r_obs_m, o.r_obs_0, o.r_obs_p, o.rho_hat_m_dict, o.rho_hat_0_dict, o.rho_hat_p_dict, o.pixel_dict)
    if d <= 1.5 * h and jd_tdb < o.t0:
        tm, t0, tp = o.tm - h, o.tm, o.t0
        rm, r0, rp = ("site", tm), o.r_obs_m, o.r_obs_0
        um, u0, up = at(tm), o.rho_hat_m_dict, o.rho_hat_0_dict
    elif d <= 1.5 * h:
        tm, t0, tp = o.t0, o.tp, o.tp + h
        rm, r0, rp = o.r_obs_0, o.r_obs_p, ("site", tp)
        um, u0, up = o.rho_hat_0_dict, o.rho_hat_p_dict, at(tp)
    else:
        t0 = o.t0 + round((jd_tdb - o.t0) / h) * h
        tm, tp = t0 - h, t0 + h
        rm, r0, rp = ("site", tm), ("site", t0), ("site", tp)
        um, u0, up = at(tm), at(t0), at(tp)
    return (tm, t0, tp, rm, r0, rp, um, u0, up, ("pixels of", tm, t0, tp, um, u0, up))

class Start(PixelDict):
    def compute_pixel_traversed(self):
        self.pixel_dict = ("pixels of", self.tm, self.t0, self.tp, self.rho_hat_m_dict, self.rho_hat_0_dict, self.rho_hat_p_dict)
    def get_observatory_position(self, t):
        return ("site", t)
    def get_all_object_unit_vectors(self, r_obs, t, lt0=0.01):
        return ("vectors", r_obs, t, lt0)

def real_start(jd_tdb, sim_dict, ephem, obsCode, observatory, picket_interval, nside, n_sub_intervals):
    p = Start(jd_tdb, sim_dict, ephem, obsCode, observatory, picket_interval, nside, n_sub_intervals=n_sub_intervals)
    return state(p) + (p.nside, p.picket_interval, p.n_sub_intervals, p.obsCode, p.nested, p.sim_dict, p.ephem, p.observatory)

def start(jd_tdb, sim_dict, ephem, obsCode, observatory, picket_interval, nside, n_sub_intervals):
    t0, tm, tp = jd_tdb, jd_tdb - picket_interval, jd_tdb + picket_interval
    um, u0, up = at(tm), at(t0), at(tp)
    return (tm, t0, tp, ("site", tm), ("site", t0), ("site", tp), um, u0, up, ("pixels of", tm, t0, tp, um, u0, up),
            nside, picket_interval, n_sub_intervals, obsCode, True, sim_dict, ephem, observatory)

class Still(Pix):
    def update_pickets(self, jd_tdb):
        if self.t0 is None:
            raise ValueError(jd_tdb)
        self.t0 = ("brought to", jd_tdb)

def real_interpolate(o, desigs, jd_tdb):
    return Pix(o).interpolate_unit_vectors(desigs, jd_tdb)

def interpolate(o, desigs, jd_tdb):
    p = Pix(o)
    p.update_pickets(jd_tdb)
    a, b, c = lagrange3(p.tm, p.t0, p.tp, jd_tdb)
    out = {}
    for k in desigs:
        out[k] = p.rho_hat_m_dict[k] * a + p.rho_hat_0_dict[k] * b + p.rho_hat_p_dict[k] * c
    return out

def real_traversed(o):
    p = Pix(o)
    p.compute_pixel_traversed()
    return p.pixel_dict

def traversed(o):
    times = np.linspace(o.tm, o.tp, o.n_sub_intervals)
    a, b, c = lagrange3(o.tm, o.t0, o.tp, times)
    a, b, c = a[:, np.newaxis], b[:, np.newaxis], c[:, np.newaxis]
    out = defaultdict(list)
    for k, v in o.sim_dict.items():
        vec = o.rho_hat_m_dict[k] * a + o.rho_hat_0_dict[k] * b + o.rho_hat_p_dict[k] * c
        pixels = list(set(hp.vec2pix(o.nside, vec[:, 0], vec[:, 1], vec[:, 2], nest=o.nested)))
        for pix in set(pixels).union(hp.get_all_neighbours(o.nside, pixels, nest=o.nested).flatten()):
            out[pix].append(k)
    return out

def real_candidates(o, jd_tdb, ra, dec, ang_fov):
    return Pix(o).get_designations(jd_tdb, ra, dec, ang_fov)

def candidates(o, jd_tdb, ra, dec, ang_fov):
    p = Pix(o)
    p.update_pickets(jd_tdb)
    d = np.pi / 180.0
    centre = hp.ang2vec(np.pi / 2.0 - dec * d, ra * d)
    out = {}
    for pix in hp.query_disc(p.nside, centre, ang_fov * d, nest=p.nested, inclusive=True):
        out.update(dict.fromkeys(p.pixel_dict[pix]))
    return list(out)

def neighbours(ra_c, dec_c, search_radius, nside=32, nested=True):
    d = np.pi / 180.0
    return hp.query_disc(nside, hp.ang2vec(np.pi / 2.0 - dec_c * d, ra_c * d), search_radius * d, nest=nested, inclusive=True)
''')


@prop("P28", "P32", "P24")
def pointing(ctx):
    """each visit's own time, centre, observer and Sun states"""
    same(ctx, "visit geometry", SET + "precompute_pointing_information", "pointing:precompute", frames=("pointings_df",),
         opaque=(SET + "create_assist_ephemeris", SET + "furnish_spiceypy", GEO + "barycentricObservatoryRates", SP + "mjd_tai_to_epoch"))
    same(ctx, "visit direction", GEO + "ra_dec2vec", "ephem:unit")


@prop("P28", "P24", "P34")
def written(ctx):
    """the ephemeris is written out under its configured format"""
    for f in ("csv", "whitespace", "hdf5"):
        same_effects(ctx, "written in the configured format", DRV + "write_out_ephemeris_file", "ephem:write_out", frames=("ephemeris_df",),
                     args=attrs(sconfigs__input__eph_format=f, sconfigs__output__output_format="csv"))


@prop("P32")
def candidates(ctx):
    """pickets surround the visit, tracks fill every pixel they cross and its neighbours, every pixel of the circle is asked"""
    same(ctx, "interpolation weights", PIX + "lagrange3", "pixels:weights")
    same(ctx, "pixels of the search circle", GEO + "get_hp_neighbors", "pixels:neighbours")
    for nm, con in (("site", "get_observatory_position"), ("vectors", "get_object_unit_vectors"), ("update", "update_pickets"), ("start", "__init__"),
                    ("interpolate", "interpolate_unit_vectors"), ("traversed", "compute_pixel_traversed"), ("candidates", "get_designations")):
        op = (PIX + "lagrange3", GEO + "integrate_light_time") + ((PIX + "PixelDict.compute_pixel_traversed", PIX + "PixelDict.get_all_object_unit_vectors", PIX + "PixelDict.get_observatory_position")
             if nm in ("interpolate", "candidates") else ())
        same(ctx, "candidate search", "vspec.pixels:real_" + nm, "pixels:" + nm, opaque=op, construct=PIX + "PixelDict." + con)
    same(ctx, "candidate search", "vspec.pixels:real_all", "pixels:all_vectors", opaque=(GEO + "integrate_light_time",), construct=PIX + "PixelDict.get_all_object_unit_vectors")
