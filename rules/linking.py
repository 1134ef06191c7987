"""P09: the linking search itself, function by function."""
from .common import *

DIFI = "sorcha.modules.PPMiniDifi:"

spec("difi", '''
import hashlib
import numpy as np
from sorcha.modules.PPMiniDifi import haversine_np, hasTracklet, trackletsInNights, discoveryOpportunities, linkObject, linkObservations

def separation(lon1, lat1, lon2, lat2):
    lon1, lat1, lon2, lat2 = np.radians(lon1), np.radians(lat1), np.radians(lon2), np.radians(lat2)
    h = np.sin((lat2 - lat1) / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin((lon2 - lon1) / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(h)))

def tracklet(mjd, ra, dec, maxdt_minutes, minlen_arcsec, min_observations):
    n = len(ra)
    if n < min_observations:
        return False
    if not np.all(mjd[:-1] <= mjd[1:]):
        raise ValueError("order")
    if min_observations == 1:
        return True
    for i in range(n):
        for j in range(n):
            dt = mjd[i] - mjd[j]
            if 0 < dt and dt < maxdt_minutes / (60 * 24) and haversine_np(ra[i], dec[i], ra[j], dec[j]) > minlen_arcsec / 3600 and i + 1 - j >= min_observations:
                return True
    return False

def nightly(night, mjd, ra, dec, maxdt_minutes, minlen_arcsec, min_observations):
    nights = np.unique(night)
    has = np.zeros(len(nights), dtype="bool")
    ends = np.searchsorted(night, nights, side="right")
    b = 0
    for k, e in enumerate(ends):
        has[k] = hasTracklet(mjd[b:e], ra[b:e], dec[b:e], maxdt_minutes, minlen_arcsec, min_observations)
        b = e
    return nights, has

def chances(nights, nightHasTracklets, window, nlink, p, rng):
    if nlink > 1:
        n0, n1 = nights.min(), nights.max() + window
        n = n1 - n0 + 1
        c = np.zeros(n, dtype="i8")
        c[nights - n0] = nightHasTracklets
        c = c.cumsum()
        c[window:] -= c[:-window].copy()
        disc = (c >= nlink).nonzero()[0] + n0
        w = np.zeros(n)
        w[nights - n0] = nightHasTracklets
        w[w != 0] = np.random.rand(np.count_nonzero(nightHasTracklets))
        w = w.cumsum()
        w[window:] -= w[:-window].copy()
        w = w[disc - n0]
        w[1:] -= w[:-1].copy()
        disc = disc[w.nonzero()]
    else:
        disc = nights[nightHasTracklets]
    found = (rng.uniform(size=len(disc)) < p).nonzero()[0]
    return (found[0] if len(found) else -1), disc

def one(obsv, seed, maxdt_minutes, minlen_arcsec, min_observations, window, nlink, p, night_start_utc_days):
    which, when, count = 18446744073709551615, np.nan, 0
    if len(obsv):
        obsv = obsv[np.argsort(obsv["midPointTai"])]
        t = obsv["midPointTai"] - night_start_utc_days
        night = t.astype(int)
        ph = t - night
        assert np.all((0.1 < ph) & (ph < 0.9))
        seed += int.from_bytes(hashlib.sha256(obsv["ra"].tobytes()).digest()[-4:], "little", signed=False)
        seed %= 4294967295
        rng = np.random.default_rng(seed)
        nights, has = trackletsInNights(night, obsv["midPointTai"], obsv["ra"], obsv["decl"], maxdt_minutes, minlen_arcsec, min_observations)
        idx, disc = discoveryOpportunities(nights, has, window, nlink, p, rng)
        if idx != -1:
            count = len(disc)
            when = disc[idx]
            i, j = np.searchsorted(night, [when - window + 1, when + 1])
            k = i + np.argmin(obsv["midPointTai"][i:j])
            which = obsv["diaSourceId"][k]
            assert night[k] + window > when
    return which, when, count

def every(obsv, seed, objectId="ssObjectId", sourceId="diaSourceId", mjdTime="midPointTai", ra="ra", dec="decl", **config):
    i = np.argsort(obsv[objectId], kind="stable")
    objs, idx = np.unique(obsv[objectId][i], return_index=True)
    splits = np.split(i, idx[1:])
    obj = np.zeros(len(splits), dtype=np.dtype([("ssObjectId", obsv[objectId].dtype), ("discoveryObservationId", "u8"), ("discoverySubmissionDate", "f8"), ("discoveryChances", "i4")]))
    for k, rows in enumerate(splits):
        mine = obsv[[sourceId, mjdTime, ra, dec]][rows]
        mine.dtype.names = ["diaSourceId", "midPointTai", "ra", "decl"]
        obj[k] = (objs[k], *linkObject(mine, seed, **config))
    return obj

def real_linked(obsv, seed, objectId, sourceId, mjdTime, ra, dec, maxdt_minutes, minlen_arcsec, min_observations, window, nlink, p, night_start_utc_days):
    return linkObservations(obsv, seed, objectId=objectId, sourceId=sourceId, mjdTime=mjdTime, ra=ra, dec=dec, maxdt_minutes=maxdt_minutes, minlen_arcsec=minlen_arcsec, min_observations=min_observations, window=window, nlink=nlink, p=p, night_start_utc_days=night_start_utc_days)

def linked(obsv, seed, objectId, sourceId, mjdTime, ra, dec, maxdt_minutes, minlen_arcsec, min_observations, window, nlink, p, night_start_utc_days):
    return every(obsv, seed, objectId, sourceId, mjdTime, ra, dec, maxdt_minutes=maxdt_minutes, minlen_arcsec=minlen_arcsec, min_observations=min_observations, window=window, nlink=nlink, p=p, night_start_utc_days=night_start_utc_days)

def real_named(obsv, seed, maxdt_minutes, minlen_arcsec, min_observations, window, nlink, p, night_start_utc_days):
    return linkObservations(obsv, seed, maxdt_minutes=maxdt_minutes, minlen_arcsec=minlen_arcsec, min_observations=min_observations, window=window, nlink=nlink, p=p, night_start_utc_days=night_start_utc_days)

def named(obsv, seed, maxdt_minutes, minlen_arcsec, min_observations, window, nlink, p, night_start_utc_days):
    return every(obsv, seed, maxdt_minutes=maxdt_minutes, minlen_arcsec=minlen_arcsec, min_observations=min_observations, window=window, nlink=nlink, p=p, night_start_utc_days=night_start_utc_days)
''')

OP = tuple(DIFI + x for x in ("haversine_np", "hasTracklet", "trackletsInNights", "discoveryOpportunities", "linkObject"))
PAIRS = (("haversine_np", "separation"), ("hasTracklet", "tracklet"), ("trackletsInNights", "nightly"), ("discoveryOpportunities", "chances"), ("linkObject", "one"))


def sizes(ctx, con, g, w):
    """the arrays filled item by item have the extent and the element types of the reference's"""
    got, want = ({mk("array", e.name, clean(e.args[0])): e for e in x.I.effects if e.kind == "alloc"} for x in (g, w))
    for t in got:
        ctx.ob("linking search/arrays", t in want, con, "creates %s at %s, the search needs %s" % (show(t, 9)[:300], got[t].where.split(" ")[0], [show(x, 9)[:300] for x in want if x not in got]))


@prop("P09", "P01")
def search(ctx):
    """tracklets, nights, linking windows and draws of the linking search, from each object's own observations"""
    for fn, ref in PAIRS:
        g, w = same(ctx, "linking search", DIFI + fn, "difi:" + ref, opaque=tuple(x for x in OP if x != DIFI + fn))
        sizes(ctx, DIFI + fn, g, w)
    for ref in ("linked", "named"):
        g, w = same(ctx, "linking search", "vspec.difi:real_" + ref, "difi:" + ref, opaque=OP, construct=DIFI + "linkObservations")
        sizes(ctx, DIFI + "linkObservations", g, w)
