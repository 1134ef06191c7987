"""P06 circular field of view, P07 detector footprint."""
from .common import *
from .drivers import stage_slice

FOV = "sorcha.modules.PPApplyFOVFilter:"
FP = "sorcha.modules.PPFootprintFilter:"

spec("fov", '''
import numpy as np
from astropy.coordinates import SkyCoord
from sorcha.modules.PPVisitsFootprintFilter import PPVisitsFootprint

def separation(ra, dec, ra0, dec0):
    return SkyCoord(ra=ra, dec=dec, unit="deg").separation(SkyCoord(ra=ra0, dec=dec0, unit="deg")).degree

def circle(observations, circle_radius):
    d = separation(observations["RA_deg"], observations["Dec_deg"], observations["fieldRA_deg"], observations["fieldDec_deg"])
    return observations[d < circle_radius].reset_index(drop=True)

def area(ephemsdf, module_rngs, fillfactor=0.9):
    rng = module_rngs.getModuleRNG("sorcha.modules.PPApplyFOVFilter")
    return ephemsdf[rng.random(len(ephemsdf)) <= fillfactor].reset_index(drop=True)

def fov_circle(observations, sconfigs, module_rngs, visits=None, footprint=None, verbose=False):
    if sconfigs.fov.circle_radius is not None:
        observations = circle(observations, sconfigs.fov.circle_radius)
    if sconfigs.fov.fill_factor is not None:
        observations = area(observations, module_rngs, sconfigs.fov.fill_factor)
    return observations

def fov_footprint(observations, sconfigs, module_rngs, visits=None, footprint=None, verbose=False):
    on, det = footprint.applyFootprint(observations, edge_thresh=sconfigs.fov.footprint_edge_threshold)
    observations = observations.iloc[on].copy()
    observations["detectorID"] = det
    return observations.sort_index()

def fov_visits(observations, sconfigs, module_rngs, visits=None, footprint=None, verbose=False):
    if sconfigs.simulation.ar_ang_fov is not None:
        on, det, lim = PPVisitsFootprint(observations, sconfigs.fov.visits_query, visits, ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer)
    else:
        on, det, lim = PPVisitsFootprint(observations, sconfigs.fov.visits_query, visits)
    observations = observations.iloc[on].copy()
    observations["detectorID"] = det
    observations["limMag_perChip"] = lim
    return observations.sort_index()

def fov_none(observations, sconfigs, module_rngs, visits=None, footprint=None, verbose=False):
    return observations
''')


@prop("P06", "P04", "P33")
def circle(ctx):
    """the circle filter keeps separation < radius; the fill factor keeps draw <= factor"""
    same(ctx, "inside the circle", FOV + "PPCircleFootprint", "fov:circle", frames=("observations",))
    same(ctx, "fill factor", FOV + "PPSimpleSensorArea", "fov:area", frames=("ephemsdf",))
    same(ctx, "separation", FOV + "PPGetSeparation", "fov:separation", args={})


def camera(ctx, rule, model, ref):
    def a(I, st):
        attrs(sconfigs__fov__camera_model=const(model))(I, st)
        return {"visits": sym("visits"), "footprint": sym("footprint"), "verbose": sym("verbose")}
    return same(ctx, rule, FOV + "PPApplyFOVFilter", "fov:" + ref, frames=("observations",), args=a,
                opaque=("sorcha.modules.PPVisitsFootprintFilter:PPVisitsFootprint",), construct=FOV + "PPApplyFOVFilter")


@prop("P06", "P03", "P24", "P33")
def circle_applied(ctx):
    """radius and fill factor act whenever they are set"""
    camera(ctx, "circular camera", "circle", "fov_circle")


@prop("P07", "P03", "P24", "P33")
def footprint_applied(ctx):
    """detector footprints: rows on a detector, each with its own detector"""
    camera(ctx, "footprint camera", "footprint", "fov_footprint")
    camera(ctx, "per-visit camera", "visits_footprint", "fov_visits")
    camera(ctx, "no camera", "none", "fov_none")


spec("footprint", '''
import logging, sys
import numpy as np
import pandas as pd
import importlib_resources
from sorcha.modules.PPFootprintFilter import Detector, Footprint, distToSegment, radec_to_focal_plane

# ---- position on the focal plane
def tangent(ra, dec, ra0, dec0):
    """gnomonic projection: the observation's direction over its component along the field's direction, minus the field's direction"""
    v = np.array([np.cos(ra) * np.cos(dec), np.sin(ra) * np.cos(dec), np.sin(dec)])
    f = np.array([np.cos(ra0) * np.cos(dec0), np.sin(ra0) * np.cos(dec0), np.sin(dec0)])
    ex = np.zeros(f.shape)
    ex[0] = -f[1]
    ex[1] = f[0]
    ey = np.cross(f, ex, axis=0)
    ex /= np.linalg.norm(ex, axis=0)
    ey /= np.linalg.norm(ey, axis=0)
    k = 1.0 / np.sum(f * v, axis=0)
    v *= k
    v -= f
    return np.sum(v * ex, axis=0), np.sum(v * ey, axis=0)

def focal(ra, dec, ra0, dec0, rot):
    x, y = tangent(ra, dec, ra0, dec0)
    z = (x + 1.0j * y) * np.exp(1.0j * rot)
    return np.real(z), np.imag(z)

def real_focal(ra, dec, ra0, dec0, rot):
    return radec_to_focal_plane(ra, dec, ra0, dec0, rot)

# ---- distance to an edge
def segment(points, x0, y0, x1, y1):
    len_sq = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0)
    if len_sq == 0.0:
        return np.sqrt((points[0] - x0) ** 2 + (points[1] - y0) ** 2)
    t = ((points[0] - x0) * (x1 - x0) + (points[1] - y0) * (y1 - y0)) / len_sq
    t[t < 0.0] = 0.0
    t[t > 1.0] = 1.0
    return np.sqrt((points[0] - (x0 + (x1 - x0) * t)) ** 2 + (points[1] - (y0 + (y1 - y0) * t)) ** 2)

def real_segment(points, x0, y0, x1, y1):
    return distToSegment(points, x0, y0, x1, y1)

# ---- one detector
class Det:
    def __init__(self, ra, dec):
        z = np.cos(ra) * np.cos(dec)
        self.x = np.sin(ra) * np.cos(dec) / z
        self.y = np.sin(dec) / z
        self.cx = np.sum(self.x) / len(self.x)
        self.cy = np.sum(self.y) / len(self.y)

    def sort(self):
        order = np.argsort(np.arctan2(self.y - self.cy, self.x - self.cx))
        self.x = self.x[order]
        self.y = self.y[order]

def area(det):
    x, y = det.x - det.cx, det.y - det.cy
    return 0.5 * np.sum(np.abs(x * np.roll(y, 1) - y * np.roll(x, 1)))

def spec_corners(ra, dec):
    d = Det(ra, dec)
    d.sort()
    return d.x, d.y, d.cx, d.cy, area(d)

def real_corners(ra, dec):
    d = Detector(np.array((ra, dec)), 5)
    d.sortCorners()
    return d.x, d.y, d.centerx, d.centery, d.trueArea()

def spec_segmented(ra, dec, point):
    d = Det(ra, dec)
    n = d.x.shape[0]
    if len(point.shape) == 1:
        x = d.x - point[0]
        y = d.y - point[1]
    else:
        x = (np.zeros((n, point.shape[1])).T + d.x).T - point[0]
        y = (np.zeros((n, point.shape[1])).T + d.y).T - point[1]
    xr, yr = np.roll(x, 1, axis=0), np.roll(y, 1, axis=0)
    parts = [np.abs(x[i] * yr[i] - y[i] * xr[i]) for i in range(len(d.x))]
    return 0.5 * np.sum(parts, axis=0)

def real_segmented(ra, dec, point):
    return Detector(np.array((ra, dec)), 5).segmentedArea(point)

def spec_ison(ra, dec, point, edge):
    d = Detector(np.array((ra, dec)), 5)
    if len(point.shape) != 2 or point.shape[0] != 2:
        sys.exit("shape")
    r2 = np.max((d.x - d.centerx) ** 2 + (d.y - d.centery) ** 2)
    on = np.where((point[0] - d.centerx) ** 2 + (point[1] - d.centery) ** 2 <= r2)[0]
    on = on[np.abs(d.segmentedArea(point[:, on]) - d.trueArea()) <= 10.0 ** (-11)]
    if edge is not None and len(on) > 0:
        edge = np.radians(edge / 3600.0)
        n = len(d.x)
        for i in range(n):
            dist = distToSegment(point[:, on], d.x[i], d.y[i], d.x[(i + 1) % n], d.y[(i + 1) % n])
            on = on[dist > edge]
    return on

def real_ison(ra, dec, point, edge):
    return Detector(np.array((ra, dec)), 5).ison(point, edge_thresh=edge)

# ---- the camera
class Camera(Footprint):
    def __init__(self, detectors):
        self.detectors, self.N = detectors, len(detectors)

def spec_apply(detectors, observations, edge):
    ra, dec = np.radians(observations["RA_deg"]), np.radians(observations["Dec_deg"])
    ra0, dec0 = np.radians(observations["fieldRA_deg"]), np.radians(observations["fieldDec_deg"])
    if "fieldRotSkyPos_deg" in observations:
        rot = np.radians(observations["fieldRotSkyPos_deg"])
    else:
        rot = np.zeros(len(observations))
    points = np.array((radec_to_focal_plane(ra, dec, ra0, dec0, rot)))
    rows, det = [], []
    for i, d in enumerate(detectors):
        on = d.ison(points, edge_thresh=edge)
        rows.append(on)
        det.append([i] * len(on))
    rows, det = np.concatenate(rows), np.concatenate(det)
    _, first = np.unique(rows, return_index=True)
    first.sort()
    return rows[first], det[first]

def real_apply(detectors, observations, edge):
    return Camera(detectors).applyFootprint(observations, edge_thresh=edge)

def spec_build(path, survey):
    if path:
        try:
            t = pd.read_csv(path)
        except IOError:
            sys.exit(1)
    else:
        try:
            if survey.lower() in ["rubin_sim", "lsst"]:
                name = "data/LSST_detector_corners_100123.csv"
            if survey.lower() == "des":
                name = "data/DES_ccd_corners.csv"
            t = pd.read_csv(importlib_resources.files("sorcha.modules.PPFootprintFilter").joinpath(name))
        except IOError:
            sys.exit(1)
    rows = {det: t.index[t.detector == det].tolist() for det in t.detector.unique()}
    ds = [Detector(np.array((t.iloc[inds].x, t.iloc[inds].y)), det) for det, inds in rows.items()]
    for d in ds:
        d.sortCorners()
    return ds

def real_build(path, survey):
    return Footprint(path, survey).detectors
''')


def twin(ctx, rule, name, con, **kw):
    return same(ctx, rule, "vspec.footprint:real_" + name, "footprint:spec_" + name, construct=FP + con, **kw)


@prop("P07")
def geometry(ctx):
    """projection, corners, area test, edge distance"""
    same(ctx, "focal plane", "vspec.footprint:real_focal", "footprint:focal", construct=FP + "radec_to_focal_plane")
    same(ctx, "distance to edge", "vspec.footprint:real_segment", "footprint:segment", construct=FP + "distToSegment")
    twin(ctx, "corners", "corners", "Detector.sortCorners")
    twin(ctx, "area test", "segmented", "Detector.segmentedArea")


@prop("P07")
def on_detector(ctx):
    """a position is on the detector if the triangles to its corners cover its area and no edge is nearer than the threshold"""
    twin(ctx, "on the detector", "ison", "Detector.ison", opaque=(FP + "Detector.segmentedArea", FP + "distToSegment"))


@prop("P07", "P04", "P33", "P34")
def camera_rows(ctx):
    """every observation tested on every detector, kept once, with that detector's number"""
    twin(ctx, "rows on the camera", "apply", "Footprint.applyFootprint", frames=("observations",), opaque=(FP + "radec_to_focal_plane",))
    for survey in ("rubin_sim", "RUBIN_SIM", "lsst", "LSST", "des", "DES"):
        twin(ctx, "detectors of the camera", "build", "Footprint.__init__", args={"survey": const(survey)})


spec("visitsfp", '''
import sqlite3
import numpy as np
from shapely.geometry import Point, Polygon
from scipy.spatial import cKDTree

def corners(r):
    return [(r["llcra"], r["llcdec"]), (r["lrcra"], r["lrcdec"]), (r["urcra"], r["urcdec"]), (r["ulcra"], r["ulcdec"])]

def visits(field_df, query, visits_filename, ephermers_buffer):
    found, chip, depth = set(), {}, {}
    with sqlite3.connect(visits_filename) as conn:
        conn.row_factory = sqlite3.Row
        cursor = conn.cursor()
        for visit, group in field_df.groupby("FieldID"):
            rows = cursor.execute(query, (visit,)).fetchall()
            if rows:
                at = np.array(list(zip(group["RA_deg"], group["Dec_deg"])))
                if ephermers_buffer < 180:
                    if any(group["fieldRA_deg"] + ephermers_buffer > 360):
                        at[at[:, 0] < 180, 0] += 360
                    if any(group["fieldRA_deg"] - ephermers_buffer < 0):
                        at[at[:, 0] > 180, 0] -= 360
                near = np.empty((len(rows) * 5, 2), dtype=float)
                for i, r in enumerate(rows):
                    near[i * 5 : (i + 1) * 5] = [(r["ra_centre"], r["dec_centre"])] + corners(r)
                tree = cKDTree(near)
                if len(rows) > 1:
                    _, hits = tree.query(at, k=min(3, len(near)))
                    owner = np.repeat(np.arange(len(rows)), 5)
                    use = set(owner[j] for j in hits.flatten())
                else:
                    use = {0}
                shapes = [Polygon(np.array(corners(rows[i]) + [(rows[i]["llcra"], rows[i]["llcdec"])])) for i in use]
                names = [rows[i]["detectorID"] for i in use]
                limits = [rows[i]["limMag_perChip"] for i in use]
                for p, point in enumerate([Point(x) for x in at]):
                    for s, shape in enumerate(shapes):
                        if shape.contains(point):
                            label = group.index[p]
                            found.add(label)
                            chip[label] = names[s]
                            depth[label] = limits[s]
                            break
    found = list(found)
    return found, [chip[i] for i in found], [depth[i] for i in found]
''')


@prop("P07", "P04", "P33")
def visit_footprint(ctx):
    """per-visit corners: an observation is kept with the detector (and depth) of its own visit whose outline contains it"""
    same(ctx, "detectors of the visit", "sorcha.modules.PPVisitsFootprintFilter:PPVisitsFootprint", "visitsfp:visits", frames=("field_df",),
         args={"query": sym("query"), "visits_filename": sym("visits_filename"), "ephermers_buffer": sym("ephermers_buffer")})
