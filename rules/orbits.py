"""P27: each orbit format is read as itself; the orbit arithmetic; the integrations are started from it."""
from .common import *

SP = "sorcha.ephemeris.simulation_parsing:"
OC = "sorcha.ephemeris.orbit_conversion_utilities:"
GEO = "sorcha.ephemeris.simulation_geometry:"
SET = "sorcha.ephemeris.simulation_setup:"
CON = "sorcha.ephemeris.simulation_constants:"

HELPERS = {OC + n for n in ("stumpff", "root_function", "halley_safe", "universal_cartesian", "universal_cometary", "principal_value")}

spec("orbits", '''
import sys
import numpy as np
import rebound
import assist
from collections import defaultdict
from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian, universal_cometary, stumpff, root_function, halley_safe, principal_value
from sorcha.ephemeris.simulation_geometry import ecliptic_to_equatorial, equatorial_to_ecliptic
from sorcha.ephemeris.simulation_parsing import parse_orbit_row as _parse
from sorcha.ephemeris.simulation_constants import ECL_TO_EQ_ROTATION_MATRIX, EQ_TO_ECL_ROTATION_MATRIX

def to_eq(v, rot_mat=ECL_TO_EQ_ROTATION_MATRIX):
    return np.dot(v, rot_mat)

def to_ecl(v, rot_mat=EQ_TO_ECL_ROTATION_MATRIX):
    return np.dot(v, rot_mat)

def rotation(ecl):
    c, s = np.cos(ecl), np.sin(ecl)
    return np.array([[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]])

def comet(row, gm, epoch):
    d = np.pi / 180.0
    return universal_cartesian(gm, row["q"], row["e"], row["inc"] * d, row["node"] * d, row["argPeri"] * d, row["t_p_MJD_TDB"] + 2400000.5, epoch)

def kepler(row, gm, epoch):
    d = np.pi / 180.0
    tp = epoch - row["ma"] * d * np.sqrt(row["a"] ** 3 / gm)
    return universal_cartesian(gm, row["a"] * (1 - row["e"]), row["e"], row["inc"] * d, row["node"] * d, row["argPeri"] * d, tp, epoch)

def parse_orbit_row(row, epochJD_TDB, ephem, sun_dict, gm_sun, gm_total):
    f = row["FORMAT"]
    if f == "COM":
        x, y, z, vx, vy, vz = comet(row, gm_sun, epochJD_TDB)
    elif f == "BCOM":
        x, y, z, vx, vy, vz = comet(row, gm_total, epochJD_TDB)
    elif f == "KEP":
        x, y, z, vx, vy, vz = kepler(row, gm_sun, epochJD_TDB)
    elif f == "BKEP":
        x, y, z, vx, vy, vz = kepler(row, gm_total, epochJD_TDB)
    elif f == "CART" or f == "BCART":
        x, y, z, vx, vy, vz = row["x"], row["y"], row["z"], row["xdot"], row["ydot"], row["zdot"]
    else:
        raise ValueError("unknown format")
    if epochJD_TDB not in sun_dict:
        sun_dict[epochJD_TDB] = ephem.get_particle("Sun", epochJD_TDB - ephem.jd_ref)
    sun = sun_dict[epochJD_TDB]
    pos = np.array(ecliptic_to_equatorial([x, y, z]))
    vel = np.array(ecliptic_to_equatorial([vx, vy, vz]))
    if f in ["KEP", "COM", "CART"]:
        pos = pos + np.array((sun.x, sun.y, sun.z))
        vel = vel + np.array((sun.vx, sun.vy, sun.vz))
    return tuple(np.concatenate([pos, vel]))

def get_perihelion_row(row, epochJD_TDB, ephem, ssb_dict, gm_sun, gm_total):
    f = row["FORMAT"]
    if epochJD_TDB not in ssb_dict:
        ssb_dict[epochJD_TDB] = ephem.get_particle("Sun", epochJD_TDB - ephem.jd_ref)
    sun = ssb_dict[epochJD_TDB]
    p = -equatorial_to_ecliptic([sun.x, sun.y, sun.z])
    v = -equatorial_to_ecliptic([sun.vx, sun.vy, sun.vz])
    if f == "COM":
        return tuple(np.array([row["q"], row["e"], row["inc"], row["node"], row["argPeri"], row["t_p_MJD_TDB"]]))
    if f == "KEP":
        M = row["ma"] * np.pi / 180
        if M > np.pi:
            M = M - 2 * np.pi
        tp = epochJD_TDB - M * np.sqrt(row["a"] ** 3 / gm_sun) - 2400000.5
        return tuple(np.array([row["a"] * (1 - row["e"]), row["e"], row["inc"], row["node"], row["argPeri"], tp]))
    if f == "CART":
        q, e, inc, node, arg, tp = universal_cometary(gm_sun, row["x"], row["y"], row["z"], row["xdot"], row["ydot"], row["zdot"], epochJD_TDB)
    elif f == "BCART":
        q, e, inc, node, arg, tp = universal_cometary(gm_sun, row["x"] + p[0], row["y"] + p[1], row["z"] + p[2], row["xdot"] + v[0], row["ydot"] + v[1], row["zdot"] + v[2], epochJD_TDB)
    elif f == "BKEP":
        x, y, z, vx, vy, vz = kepler(row, gm_total, epochJD_TDB)
        q, e, inc, node, arg, tp = universal_cometary(gm_sun, x + p[0], y + p[1], z + p[2], vx + v[0], vy + v[1], vz + v[2], epochJD_TDB)
    elif f == "BCOM":
        x, y, z, vx, vy, vz = comet(row, gm_total, epochJD_TDB)
        q, e, inc, node, arg, tp = universal_cometary(gm_sun, x + p[0], y + p[1], z + p[2], vx + v[0], vy + v[1], vz + v[2], epochJD_TDB)
    else:
        raise ValueError("unknown format")
    d = 180 / np.pi
    return tuple(np.array([q, e, inc * d, node * d, arg * d, tp - 2400000.5]))

def stumpff_(x):
    n = 0
    xm = 0.1
    while np.abs(x) > xm:
        n += 1
        x = x / 4
    d2 = (1 - x * (1 - x * (1 - x * (1 - x * (1 - x * (1 - x / 182.0) / 132.0) / 90.0) / 56.0) / 30.0) / 12.0) / 2.0
    d3 = (1 - x * (1 - x * (1 - x * (1 - x * (1 - x * (1 - x / 210.0) / 156.0) / 110.0) / 72.0) / 42.0) / 20.0) / 6.0
    d1 = 1.0 - x * d3
    d0 = 1.0 - x * d2
    while n > 0:
        n -= 1
        d3 = (d2 + d0 * d3) / 4.0
        d2 = d1 * d1 / 2.0
        d1 = d0 * d1
        d0 = 2.0 * d0 * d0 - 1.0
    return d0, d1, d2, d3

def root_function_(s, mu, alpha, r0, r0dot, t):
    c0, c1, c2, c3 = stumpff(alpha * s * s)
    f = r0 * s * c1 + r0 * r0dot * s ** 2 * c2 + mu * s ** 3 * c3 - t
    fp = r0 * c0 + r0 * r0dot * s * c1 + mu * s ** 2 * c2
    fpp = (mu - alpha * r0) * s * c1 + r0 * r0dot * c0
    fppp = (mu - alpha * r0) * c0 - r0 * r0dot * alpha * s * c1
    return f, fp, fpp, fppp

def halley_safe_(x1, x2, mu, alpha, r0, r0dot, t, xacc=1e-14, maxit=100):
    fl, fpl, fppl = root_function(x1, mu, alpha, r0, r0dot, t)[0:3]
    fh, fph, fpph = root_function(x2, mu, alpha, r0, r0dot, t)[0:3]
    if (fl > 0.0 and fh > 0.0) or (fl < 0.0 and fh < 0.0):
        return False, np.nan, fl
    if fl == 0:
        return True, x1, fpl
    if fh == 0:
        return True, x2, fph
    if fl < 0.0:
        xl, xh = x1, x2
    else:
        xh, xl = x1, x2
    rts = 0.5 * (x1 + x2)
    dxold = np.abs(x2 - x1)
    dx = dxold
    f, fp, fpp = root_function(rts, mu, alpha, r0, r0dot, t)[0:3]
    for j in range(maxit):
        if ((rts - xh) * fp - f) * ((rts - xl) * fp - f) > 0.0 or np.abs(2.0 * f) > np.abs(dxold * fp):
            dxold = dx
            dx = 0.5 * (xh - xl)
            rts = xl + dx
        else:
            dxold = dx
            dx = 2 * f * fp / (2 * fp * fp - f * fpp)
            rts = rts - dx
        if np.abs(dx / rts) < xacc:
            return True, rts, fp
        f, fp, fpp = root_function(rts, mu, alpha, r0, r0dot, t)[0:3]
        if f < 0.0:
            xl = rts
        else:
            xh = rts
    return False, np.nan, fp

def universal_cartesian_(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
    t = epochMJD_TDB - tp
    if e < 1:
        a = q / (1 - e)
        t = t % (2 * np.pi / np.sqrt(mu / a ** 3))
    v2 = mu * (1 + e) / q
    alpha = 2 * mu / q - v2
    ds = t / 4
    s_prev = 0
    f_prev = root_function(s_prev, mu, alpha, q, 0, t)[0]
    s = s_prev + ds
    f = root_function(s, mu, alpha, q, 0, t)[0]
    while f * f_prev > 0.0:
        s_prev = s
        f_prev = f
        s = s_prev + ds
        f = root_function(s, mu, alpha, q, 0, t)[0]
    converged, ss, fp = halley_safe(s_prev, s, mu, alpha, q, 0, t)
    count = 0
    while not converged:
        f, fp = root_function(s, mu, alpha, q, 0, t)[0:2]
        s_prev = s
        s = s - f / fp
        converged, ss, fp = halley_safe(s_prev, s, mu, alpha, q, 0, t)
        count += 1
        if count > 10:
            return np.nan, np.nan, np.nan, np.nan, np.nan, np.nan
    c0, c1, c2, c3 = stumpff(alpha * ss * ss)
    r = q * c0 + mu * ss * ss * c2
    g1, g2, g3 = c1 * ss, c2 * ss ** 2, c3 * ss ** 3
    f = 1.0 - (mu / q) * g2
    g = t - mu * g3
    fdot = -(mu / (r * q)) * g1
    gdot = 1.0 - (mu / r) * g2
    x0 = np.array((q, 0.0, 0.0))
    v0 = np.array((0.0, np.sqrt(v2), 0.0))
    xt = f * x0 + g * v0
    vt = fdot * x0 + gdot * v0
    cw, sw = np.cos(argperi), np.sin(argperi)
    ci, si = np.cos(incl), np.sin(incl)
    cn, sn = np.cos(longnode), np.sin(longnode)
    W = np.array(((cw, -sw, 0), (sw, cw, 0), (0, 0, 1)))
    J = np.array(((1, 0, 0), (0, ci, -si), (0, si, ci)))
    N = np.array(((cn, -sn, 0), (sn, cn, 0), (0, 0, 1)))
    x = N @ (J @ (W @ xt))
    v = N @ (J @ (W @ vt))
    return x[0], x[1], x[2], v[0], v[1], v[2]

def principal_value_(theta):
    if theta < 0:
        return theta - 2 * np.pi * np.ceil(theta / (2 * np.pi))
    return theta - 2 * np.pi * np.floor(theta / (2 * np.pi))

def universal_cometary_(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
    pos, vel = np.array([x, y, z]), np.array([vx, vy, vz])
    hv = np.cross(pos, vel)
    hs = np.dot(hv, hv)
    h = np.sqrt(hs)
    r = np.linalg.norm(pos)
    rdot = np.dot(pos, vel) / r
    p = hs / mu
    alpha = 2 * mu / r - np.dot(vel, vel)
    incl = np.arccos(hv[2] / h)
    node = np.arctan2(hv[0], -hv[1]) if (hv[0] != 0.0 or hv[1] != 0.0) else 0.0
    ec = p / r - 1.0
    es = rdot * h / mu
    e = np.sqrt(ec * ec + es * es)
    q = p / (1 + e)
    nu = np.arctan2(es, ec) if (es != 0.0 or ec != 0.0) else 0.0
    cn, sn = np.cos(node), np.sin(node)
    rc = pos[0] * cn + pos[1] * sn
    rs = (pos[1] * cn - pos[0] * sn) / np.cos(incl)
    u = np.arctan2(rs, rc) if (rs != 0.0 or rc != 0.0) else 0.0
    if np.abs(e - 1) < 1e-15:
        e = 1
    if e < 1:
        E = 2.0 * np.arctan(np.sqrt((1.0 - e) / (1.0 + e)) * np.tan(nu / 2.0))
        M = principal_value(E - e * np.sin(E))
        tp = epochMJD_TDB - M / np.sqrt(mu / (mu / alpha) ** 3)
    elif e == 1:
        D = np.tan(0.5 * nu)
        tp = epochMJD_TDB - 0.5 * (D ** 3 + 3 * D) / (3 * np.sqrt(mu / p ** 3))
    else:
        H = 2.0 * np.arctanh(np.sqrt((e - 1.0) / (e + 1.0)) * np.tan(nu / 2.0))
        tp = epochMJD_TDB - (e * np.sinh(H) - H) / np.sqrt(-mu / (mu / alpha) ** 3)
    return q, e, incl, node, u - nu, tp

def universal_keplerian_(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
    q, e, incl, node, arg, tp = universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB)
    a = q / (1 - e)
    return a, e, incl, node, arg, (epochMJD_TDB - tp) * np.sqrt(mu / a ** 3)

def generate_simulations(ephem, gm_sun, gm_total, orbits_df, args):
    out = defaultdict(dict)
    suns = dict()
    for i, row in orbits_df.iterrows():
        epoch = row["epochMJD_TDB"]
        if epoch < 2400000.5:
            epoch = epoch + 2400000.5
        try:
            x, y, z, vx, vy, vz = _parse(row, epoch, ephem, suns, gm_sun, gm_total)
            if np.isnan(x):
                args.pplogger.error("bad orbit")
                sys.exit("bad orbit")
        except ValueError as err:
            args.pplogger.error(err)
            sys.exit(err)
        particle = rebound.Particle(x=x, y=y, z=z, vx=vx, vy=vy, vz=vz)
        sim = rebound.Simulation()
        sim.t = epoch - ephem.jd_ref
        sim.dt = 10
        sim.ri_ias15.adaptive_mode = 1
        sim.add(particle)
        ex = assist.Extras(sim, ephem)
        forces = ex.forces
        forces.remove("GR_EIH")
        forces.append("GR_SIMPLE")
        ex.forces = forces
        out[row["ObjID"]]["sim"] = sim
        out[row["ObjID"]]["ex"] = ex
    return out
''')


def only(*names):
    keep = {OC + n for n in names}
    return tuple(keep)


@prop("P27")
def rows(ctx):
    """each format's elements, units, gravity and origin"""
    same(ctx, "format conversion", SP + "parse_orbit_row", "orbits:parse_orbit_row", opaque=only("universal_cartesian"))
    same(ctx, "perihelion conversion", SP + "get_perihelion_row", "orbits:get_perihelion_row", opaque=only("universal_cartesian", "universal_cometary"))
    same(ctx, "frame rotation", GEO + "ecliptic_to_equatorial", "orbits:to_eq")
    same(ctx, "frame rotation", GEO + "equatorial_to_ecliptic", "orbits:to_ecl")
    same(ctx, "frame rotation", CON + "create_ecl_to_eq_rotation_matrix", "orbits:rotation")


@prop("P27")
def arithmetic(ctx):
    """the two-body arithmetic behind the conversions"""
    same(ctx, "two-body arithmetic", OC + "stumpff", "orbits:stumpff_")
    same(ctx, "two-body arithmetic", OC + "root_function", "orbits:root_function_", opaque=only("stumpff"))
    same(ctx, "two-body arithmetic", OC + "halley_safe", "orbits:halley_safe_", opaque=only("root_function"))
    same(ctx, "two-body arithmetic", OC + "universal_cartesian", "orbits:universal_cartesian_", opaque=only("stumpff", "root_function", "halley_safe"))
    same(ctx, "two-body arithmetic", OC + "principal_value", "orbits:principal_value_")
    same(ctx, "two-body arithmetic", OC + "universal_cometary", "orbits:universal_cometary_", opaque=only("principal_value"))
    same(ctx, "two-body arithmetic", OC + "universal_keplerian", "orbits:universal_keplerian_", opaque=only("universal_cometary"))


@prop("P27", "P28")
def simulations(ctx):
    """every object is integrated from its own state at its own epoch; failures end the run"""
    same(ctx, "integration start", SET + "generate_simulations", "orbits:generate_simulations", frames=("orbits_df",), opaque=(SP + "parse_orbit_row",))
