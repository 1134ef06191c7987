"""P35 auxiliary data files (names, sources, cache, kernel list); the observatory table (P28)."""
from .common import *
from .config import CFG

RET = "sorcha.utilities.retrieve_ephemeris_data_files:"
KER = "sorcha.utilities.generate_meta_kernel:"
SET = "sorcha.ephemeris.simulation_setup:"
SP = "sorcha.ephemeris.simulation_parsing:"
DAT = "sorcha.ephemeris.simulation_data_files:"

spec("auxf", '''
import json, os
import pooch
import numpy as np
import spiceypy as spice
import concurrent.futures
from functools import partial
from assist import Ephem
from pooch import Decompress
from sorcha.utilities import sorchaConfigs as C
from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
from sorcha.utilities.generate_meta_kernel import build_meta_kernel_file, _split_kernel_path_str
from sorcha.utilities.retrieve_ephemeris_data_files import _decompress, _remove_files, _check_for_existing_files
from sorcha.ephemeris.simulation_data_files import make_retriever
from sorcha.ephemeris.simulation_parsing import Observatory
from sorcha.ephemeris.simulation_constants import RADIUS_EARTH_KM

class Lists(C.auxiliaryConfigs):
    """the repository's class with free names and sources"""
    def __init__(self, o):
        self.planet_ephemeris, self.planet_ephemeris_url = o.planet_ephemeris, o.planet_ephemeris_url
        self.earth_predict, self.earth_predict_url = o.earth_predict, o.earth_predict_url
        self.earth_historical, self.earth_historical_url = o.earth_historical, o.earth_historical_url
        self.earth_high_precision, self.earth_high_precision_url = o.earth_high_precision, o.earth_high_precision_url
        self.jpl_planets, self.jpl_planets_url = o.jpl_planets, o.jpl_planets_url
        self.jpl_small_bodies, self.jpl_small_bodies_url = o.jpl_small_bodies, o.jpl_small_bodies_url
        self.leap_seconds, self.leap_seconds_url = o.leap_seconds, o.leap_seconds_url
        self.orientation_constants, self.orientation_constants_url = o.orientation_constants, o.orientation_constants_url
        self.observatory_codes_compressed, self.observatory_codes_compressed_url = o.observatory_codes_compressed, o.observatory_codes_compressed_url
        self.meta_kernel, self.observatory_codes = o.meta_kernel, o.observatory_codes

def names(o):
    return [o.planet_ephemeris, o.earth_predict, o.earth_historical, o.earth_high_precision, o.jpl_planets, o.jpl_small_bodies, o.leap_seconds,
            o.orientation_constants, o.observatory_codes_compressed]

def sources(x, o):
    return tuple(x[n] for n in names(o))

def real_sources(o):
    x = Lists(o)
    x._create_lists_auxiliary_configs()
    return sources(x.urls, o) + (len(x.urls),)

def sources_(o):
    return (o.planet_ephemeris_url, o.earth_predict_url, o.earth_historical_url, o.earth_high_precision_url, o.jpl_planets_url, o.jpl_small_bodies_url,
            o.leap_seconds_url, o.orientation_constants_url, o.observatory_codes_compressed_url, 9)

def real_lists(o):
    x = Lists(o)
    x._create_lists_auxiliary_configs()
    return x.ordered_kernel_files, x.registry

def lists(o):
    kernels = [o.leap_seconds, o.earth_historical, o.earth_predict, o.orientation_constants, o.planet_ephemeris, o.earth_high_precision]
    x = Lists(o)
    x._create_lists_auxiliary_configs()
    return kernels, {n: None for n in x.data_file_list}

def real_listed(o):
    x = Lists(o)
    x._create_lists_auxiliary_configs()
    return tuple(n in x.data_file_list for n in names(o) + [o.meta_kernel, o.observatory_codes]) + tuple(n in x.data_files_to_download for n in names(o)) + (len(x.data_file_list), len(x.data_files_to_download))

def listed(o):
    return tuple(True for n in names(o) + [o.meta_kernel, o.observatory_codes]) + tuple(True for n in names(o)) + (11, 9)

def retriever(auxconfigs, directory_path=None):
    return pooch.create(path=directory_path if directory_path else pooch.os_cache("sorcha"), base_url="", urls=auxconfigs.urls, registry=auxconfigs.registry)

def remove(auxconfigs, retriever):
    for n in auxconfigs.data_file_list:
        if os.path.exists(os.path.join(retriever.abspath, n)):
            os.remove(os.path.join(retriever.abspath, n))

def existing(retriever, file_list):
    return all(os.path.exists(os.path.join(retriever.abspath, n)) for n in file_list)

def unpack(fname, action, pup):
    if os.path.splitext(fname)[-1] in [".gz", ".bz2", ".xz"]:
        pooch.Decompress(method="auto", name=os.path.splitext(fname)[0]).__call__(fname, action, pup)

def kernel_file(auxconfigs, retriever):
    place = _split_kernel_path_str(str(retriever.abspath))
    with open(os.path.join(retriever.abspath, auxconfigs.meta_kernel), "w") as f:
        f.write("\\\\begindata\\n\\n")
        f.write(f"PATH_VALUES = ('{place}')\\n\\n")
        f.write("PATH_SYMBOLS = ('A')\\n\\n")
        f.write("KERNELS_TO_LOAD=(\\n")
        for n in auxconfigs.ordered_kernel_files:
            short = retriever.fetch(n).replace(str(retriever.abspath), "$A")
            f.write(f"    '{short}',\\n")
        f.write(")\\n\\n")
        f.write("\\\\begintext\\n")

def ephem(args, auxconfigs):
    r = make_retriever(auxconfigs, args.ar_data_file_path)
    e = Ephem(planets_path=r.fetch(auxconfigs.jpl_planets), asteroids_path=r.fetch(auxconfigs.jpl_small_bodies))
    return e, e.get_particle("Sun", 0).m, sum(sorted([e.get_particle(i, 0).m for i in range(27)]))

def furnish(args, auxconfigs):
    r = make_retriever(auxconfigs, args.ar_data_file_path)
    for n in auxconfigs.ordered_kernel_files:
        r.fetch(n)
    if not os.path.exists(os.path.join(r.abspath, auxconfigs.meta_kernel)):
        build_meta_kernel_file(auxconfigs, r)
    spice.furnsh(r.fetch(auxconfigs.meta_kernel))

def bootstrap(args):
    c = auxiliaryConfigs()
    r = make_retriever(c, args.cache)
    if args.force:
        _remove_files(c, r)
        found = False
    else:
        found = _check_for_existing_files(r, c.data_file_list)
    if not found:
        with concurrent.futures.ThreadPoolExecutor() as executor:
            for _ in executor.map(partial(r.fetch, processor=_decompress, progressbar=True), c.data_files_to_download):
                pass
        build_meta_kernel_file(c, r)

class Site(Observatory):
    """the repository's class, its table taken from a free object"""
    def __init__(self, o):
        self.ObservatoryXYZ = o.ObservatoryXYZ
        self.observatoryPositionCache = {}

def real_geocentric(o, obs_location):
    return Site(o).convert_to_geocentric(obs_location)

def geocentric(o, obs_location):
    if obs_location.get("Longitude") is None or obs_location.get("cos") is None or obs_location.get("sin") is None:
        return (None, None, None)
    lon = obs_location["Longitude"] * np.pi / 180.0
    return (obs_location["cos"] * np.cos(lon), obs_location["cos"] * np.sin(lon), obs_location["sin"])

def real_barycentric(o, et, obsCode):
    return Site(o).barycentricObservatory(et, obsCode)

def barycentric(o, et, obsCode):
    pos, _ = spice.spkpos("EARTH", et, "J2000", "NONE", "SSB")
    m = spice.pxform("ITRF93", "J2000", et)
    return pos + np.dot(m, np.array(o.ObservatoryXYZ[obsCode])) * RADIUS_EARTH_KM

class Table(Observatory):
    def convert_to_geocentric(self, obs_location):
        return ("place", obs_location)

def real_table(args, auxconfigs):
    return Table(args, auxconfigs).ObservatoryXYZ

def table(args, auxconfigs):
    r = make_retriever(auxconfigs, args.ar_data_file_path)
    if os.path.isfile(os.path.join(r.abspath, auxconfigs.observatory_codes)):
        path = r.fetch(auxconfigs.observatory_codes)
    else:
        path = r.fetch(auxconfigs.observatory_codes_compressed, processor=Decompress(name=auxconfigs.observatory_codes))
    with open(path) as f:
        obs = json.load(f)
    out = {}
    for n, v in obs.items():
        out[n] = ("place", v)
    return out
''')


FETCH = {"fetch", "spiceypy.furnsh", "pooch.create", "map", "pooch.Decompress", "__call__", KER + "build_meta_kernel_file", RET + "_remove_files"} | WRITERS


def no_retry(I, f, args, kws, st, n):
    kws.pop("retry_if_failed", None)
    return None


@prop("P35", "P24")
def names(ctx):
    """each file's configured source is filed under that file's configured name; every kernel is on the list"""
    for nm in ("sources", "lists", "listed"):
        same(ctx, "names and sources", "vspec.auxf:real_" + nm, "auxf:" + (nm if nm != "sources" else "sources_"), construct=CFG + "auxiliaryConfigs._create_lists_auxiliary_configs")
    same(ctx, "retriever", DAT + "make_retriever", "auxf:retriever", hooks={"pooch.create": no_retry})


@prop("P35")
def fetching(ctx):
    """what is fetched, looked for, unpacked, written and removed, where"""
    R = (DAT + "make_retriever",)
    for q, ref, op in ((RET + "_remove_files", "remove", ()), (RET + "_decompress", "unpack", ()), (KER + "build_meta_kernel_file", "kernel_file", (KER + "_split_kernel_path_str",)),
                       (SET + "furnish_spiceypy", "furnish", R + (KER + "build_meta_kernel_file",)),
                       ("sorcha_cmdline.bootstrap:execute", "bootstrap", R + (KER + "build_meta_kernel_file", RET + "_remove_files", RET + "_check_for_existing_files", RET + "_decompress"))):
        same_effects(ctx, "fetched and written", q, "auxf:" + ref, names=FETCH, opaque=op)
    same(ctx, "looked for", RET + "_check_for_existing_files", "auxf:existing")
    same(ctx, "ephemeris engine", SET + "create_assist_ephemeris", "auxf:ephem", opaque=R)
    g, w = same(ctx, "observatory table", "vspec.auxf:real_table", "auxf:table", opaque=R, construct=SP + "Observatory.__init__")
    same_acts(ctx, "observatory table", SP + "Observatory.__init__", g, w, names=FETCH)


@prop("P28", "P35")
def sites(ctx):
    """the observer's place, from the observatory table"""
    same(ctx, "observer", "vspec.auxf:real_geocentric", "auxf:geocentric", construct=SP + "Observatory.convert_to_geocentric")
    same(ctx, "observer", "vspec.auxf:real_barycentric", "auxf:barycentric", construct=SP + "Observatory.barycentricObservatory")
