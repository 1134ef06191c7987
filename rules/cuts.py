"""P05 threshold cuts, P08 detection efficiency, P10 DES cuts."""
from .common import *
from .drivers import stage_slice

M = "sorcha.modules."

spec("cuts", '''
import logging, sys
import numpy as np

def snr(observations, sigma_limit=2.0, snr_name="SNRPSFMag"):
    return observations[observations[snr_name] > sigma_limit].reset_index(drop=True)

def snr_v(observations, sigma_limit, snr_name):
    return observations[observations[snr_name] > sigma_limit].reset_index(drop=True)

def mag(observations, mag_limit, colname="trailedSourceMag"):
    return observations[observations[colname] < mag_limit].reset_index(drop=True)

def mag_v(observations, mag_limit, colname):
    return observations[observations[colname] < mag_limit].reset_index(drop=True)

def bright(observations, observing_filters, bright_limit):
    if type(bright_limit) is float:
        return observations[observations["PSFMag"] >= bright_limit]
    elif type(bright_limit) is list:
        drop = []
        for i, f in enumerate(observing_filters):
            drop.append(observations[(observations["optFilter"] == f) & (observations["PSFMag"] < bright_limit[i])].index.values.tolist())
        return observations.drop([x for xs in drop for x in xs]).reset_index(drop=True)
    else:
        sys.exit("expected a float or list of floats")

def fading(observations, fillfactor, width, module_rngs):
    rng = module_rngs.getModuleRNG("sorcha.modules.PPDropObservations")
    if "limMag_perChip" in observations.columns:
        m5 = observations["limMag_perChip"]
    else:
        m5 = observations["fiveSigmaDepth_mag"]
    p = fillfactor / (1.0 + np.exp((observations["PSFMag"] - m5) / width))
    return observations[p >= rng.random(len(observations))]

def desfading(observations, transient_efficiency, module_rngs):
    rng = module_rngs.getModuleRNG("sorcha.modules.PPDropObservations")
    p = transient_efficiency * observations["c"] / (1.0 + np.exp(observations["k"] * (observations["PSFMag"] - observations["fiveSigmaDepth_mag"])))
    return observations[p >= rng.random(len(observations))]

def prob(mag, limmag, fillFactor, w):
    return fillFactor / (1.0 + np.exp((mag - limmag) / w))

def prob_default(mag, limmag):
    return 1.0 / (1.0 + np.exp((mag - limmag) / 0.1))

def probs(eph_df, trailing_losses, trailing_loss_name, magnitude_name, limiting_magnitude_name, field_id_name, fillFactor, w):
    m5 = eph_df["limMag_perChip"] if "limMag_perChip" in eph_df.columns else eph_df[limiting_magnitude_name]
    mag = eph_df[magnitude_name] + eph_df[trailing_loss_name] if trailing_losses else eph_df[magnitude_name]
    return fillFactor / (1.0 + np.exp((mag - m5) / w))

def probs_default(eph_df):
    m5 = eph_df["limMag_perChip"] if "limMag_perChip" in eph_df.columns else eph_df["fiveSigmaDepth_mag"]
    return 1.0 / (1.0 + np.exp((eph_df["PSFMag"] - m5) / 0.1))

def desprob(mag, limmag, c, k, c_sharp):
    return c_sharp * c / (1 + np.exp(k * (mag - limmag)))

def motion(observations, motion_upper, motion_lower):
    m = np.sqrt(observations["RARateCosDec_deg_day"] ** 2 + observations["DecRate_deg_day"] ** 2)
    sq = observations["RARateCosDec_deg_day"] ** 2 + observations["DecRate_deg_day"] ** 2
    return observations[(sq < motion_upper**2) & (sq > motion_lower**2)]

def distance(observations, distance_upper, distance_lower):
    sq = (observations["Obj_Sun_x_LTC_km"] ** 2 + observations["Obj_Sun_y_LTC_km"] ** 2 + observations["Obj_Sun_z_LTC_km"] ** 2)
    upper = (distance_upper * 149597870.7) ** 2
    lower = (distance_lower * 149597870.7) ** 2
    near = observations[(sq < upper) & (sq > lower)]["ObjID"].unique()
    return observations[observations["ObjID"].isin(near)]

def nights(times):
    n = 0
    for i in range(len(times)):
        if not any(abs(times[j] - times[i]) < 0.4 for j in range(i)):
            n += 1
    return n

def arccut(times):
    t1 = np.min(times)
    t2 = np.max(times)
    t1a, t2a = t2, t1
    for i in range(len(times)):
        if times[i] - t1 > 0.7 and times[i] < t1a:
            t1a = times[i]
        if t2 - times[i] > 0.7 and times[i] > t2a:
            t2a = times[i]
    return min(t2 - t1a, t2a - t1) > 0.5 * 365.25

def triplet(times, thresh):
    first, second = 999.0, 999.0
    det = [times[0]]
    for i in range(len(times) - 1):
        if times[i + 1] - times[i] > 0.4:
            det.append(times[i + 1])
    for i in range(1, len(det) - 1):
        if det[i + 1] - det[i] < first and det[i] - det[i - 1] < second:
            first = det[i + 1] - det[i]
            second = det[i] - det[i - 1]
    return first < thresh and second < thresh

def discovery(observations):
    from sorcha.modules.DESDiscoveryFilter import compute_nunique, compute_arccut, compute_triplet
    obsv = observations[["ObjID", "fieldMJD_TAI", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km"]].to_records(index=False)
    i = np.argsort(obsv["ObjID"])
    _, idx = np.unique(obsv["ObjID"][i], return_index=True)
    mask = np.zeros(len(obsv), dtype=bool)
    for own in np.split(i, idx[1:]):
        o = obsv[own]
        far = np.min(o["Obj_Sun_x_LTC_km"] ** 2 + o["Obj_Sun_y_LTC_km"] ** 2 + o["Obj_Sun_z_LTC_km"] ** 2) >= (50 * 149597870.7) ** 2
        o = o[np.argsort(o["fieldMJD_TAI"])]
        n = compute_nunique(o["fieldMJD_TAI"])
        if n >= 9 or (n >= 7 and compute_arccut(o["fieldMJD_TAI"]) and compute_triplet(o["fieldMJD_TAI"], 90 if far else 60)):
            mask[own] = True
    return observations[mask].sort_values("fieldMJD_TAI").reset_index(drop=True)

def linking(observations, detection_efficiency, min_observations, min_tracklets, tracklet_interval, minimum_separation,
            maximum_time, night_start_utc, drop_unlinked):
    import pandas as pd
    from sorcha.modules.PPMiniDifi import linkObservations
    obsv = pd.DataFrame({"ssObjectId": observations["ObjID"], "diaSourceId": observations["FieldID"],
        "midPointTai": observations["fieldMJD_TAI"], "ra": observations["RA_deg"], "decl": observations["Dec_deg"]})
    n = obsv["ssObjectId"].str.len().max()
    obsv = obsv.to_records(index=False, column_dtypes=dict(ssObjectId=f"S{n}", diaSourceId="u8", midPointTai="f8", ra="f8", decl="f8"))
    obj = linkObservations(obsv, seed=0, objectId="ssObjectId", maxdt_minutes=maximum_time * 1440,
        minlen_arcsec=minimum_separation, min_observations=min_observations, window=tracklet_interval, nlink=min_tracklets,
        p=detection_efficiency, night_start_utc_days=night_start_utc / 24.0)
    found = obj["ssObjectId"][~np.isnan(obj["discoverySubmissionDate"])]
    linked = np.isin(obsv["ssObjectId"], found)
    observations["object_linked"] = linked
    out = observations[linked] if drop_unlinked else observations
    disc = pd.DataFrame({"ObjID": obj["ssObjectId"], "date_linked_MJD": obj["discoverySubmissionDate"]})
    disc["ObjID"] = disc["ObjID"].str.decode("utf-8")
    return pd.merge(out, disc, on="ObjID").sort_values("fieldMJD_TAI").reset_index(drop=True)
''')


@prop("P05", "P04")
def threshold_cuts(ctx):
    """SNR, magnitude and saturation limits keep exactly the rows on the right side of the limit, unchanged, in order"""
    for q, refs in ((M + "PPSNRLimit:PPSNRLimit", ("cuts:snr", "cuts:snr_v")),
                    (M + "PPMagnitudeLimit:PPMagnitudeLimit", ("cuts:mag", "cuts:mag_v")),
                    (M + "PPBrightLimit:PPBrightLimit", ("cuts:bright",))):
        for ref in refs:
            same(ctx, "kept rows", q, ref, ("observations",))


@prop("P05")
def threshold_cuts_in_pipeline(ctx):
    """each limit step gets the configured limit and runs when configured, in both surveys"""
    for s in ("PPSNRLimit", "PPMagnitudeLimit", "PPBrightLimit"):
        stage_slice(ctx, s)


@prop("P08", "P04", "P33")
def detection_efficiency(ctx):
    """rows kept by the two detection-efficiency filters, and the probability functions themselves"""
    same(ctx, "kept rows", M + "PPFadingFunctionFilter:PPFadingFunctionFilter", "cuts:fading", ("observations",))
    same(ctx, "kept rows", M + "DESFadingFunctionFilter:DESFadingFunctionFilter", "cuts:desfading", ("observations",))
    same(ctx, "probability", M + "PPDetectionProbability:calcDetectionProbability", "cuts:prob",
         args={"fillFactor": sym("fillFactor"), "w": sym("w")})
    same(ctx, "probability", M + "PPDetectionProbability:calcDetectionProbability", "cuts:prob_default")
    names = ("trailing_losses", "trailing_loss_name", "magnitude_name", "limiting_magnitude_name", "field_id_name", "fillFactor", "w")
    same(ctx, "probability", M + "PPDetectionProbability:PPDetectionProbability", "cuts:probs", ("eph_df",), args={k: sym(k) for k in names})
    same(ctx, "probability", M + "PPDetectionProbability:PPDetectionProbability", "cuts:probs_default", ("eph_df",))
    same(ctx, "probability", M + "DESDetectionProbability:DEScalcDetectionProbability", "cuts:desprob")


@prop("P08")
def detection_efficiency_in_pipeline(ctx):
    """the filters get the configured peak efficiency and width, when configured"""
    stage_slice(ctx, "PPFadingFunctionFilter", ("lsst",))
    stage_slice(ctx, "DESFadingFunctionFilter", ("des",))


@prop("P10")
def des_cuts(ctx):
    """distance cut keeps whole objects by heliocentric distance in au, motion cut single rows by total rate"""
    same(ctx, "kept rows", M + "PPDistanceandMotionCuts:distance_cut", "cuts:distance", ("observations",))
    same(ctx, "kept rows", M + "PPDistanceandMotionCuts:motion_cut", "cuts:motion", ("observations",))


@prop("P10")
def des_discovery(ctx):
    """discovery criteria: distinct nights, arc, triplet; applied to each object's own observations"""
    m = M + "DESDiscoveryFilter:"
    same(ctx, "criterion", m + "compute_nunique", "cuts:nights")
    same(ctx, "criterion", m + "compute_arccut", "cuts:arccut")
    same(ctx, "criterion", m + "compute_triplet", "cuts:triplet")
    same(ctx, "kept objects", m + "DESDiscoveryFilter", "cuts:discovery", ("observations",), opaque_fn=lambda q: ":compute_" in q)


@prop("P09", "P04")
def linking_step(ctx):
    """units and routing of the limits into the search, verdict per object, rows kept, verdict and date columns"""
    same(ctx, "kept objects", M + "PPLinkingFilter:PPLinkingFilter", "cuts:linking", ("observations",),
         args={"drop_unlinked": sym("drop_unlinked")}, opaque=(M + "PPMiniDifi:linkObservations",))


@prop("P09")
def linking_in_pipeline(ctx):
    """the linking step gets the configured limits in the right places, when configured"""
    stage_slice(ctx, "PPLinkingFilter", ("lsst",))


@prop("P10")
def des_cuts_in_pipeline(ctx):
    """the DES cuts get the configured limits in the right places, when configured"""
    for s in ("distance_cut", "motion_cut", "DESDiscoveryFilter"):
        stage_slice(ctx, s, ("des",))
