"""P02 (blocks), P25 joins by identifier, P26 readers, P27 orbit validation."""
from .common import *
from sa.values import *

RD = "sorcha.readers."
CDR = RD + "CombinedDataReader:CombinedDataReader."

spec("readers", '''
import collections, logging, sys, sqlite3
import numpy as np
import pandas as pd
from sorcha.readers.CombinedDataReader import CombinedDataReader
from sorcha.readers.CSVReader import CSVDataReader
from sorcha.readers.HDF5Reader import HDF5DataReader
from sorcha.readers.DatabaseReader import DatabaseReader
from sorcha.readers.EphemerisReader import EphemerisDataReader
from sorcha.readers.OrbitAuxReader import OrbitAuxReader
from sorcha.readers.ObjectDataReader import ObjectDataReader


def fail(msg):
    logging.getLogger(__name__).error(msg)
    sys.exit(msg)


# ---- several readers combined
class Combined:
    def __init__(self, ephem_primary=False):
        self.eph, self.aux, self.start, self.prim = None, [], 0, ephem_primary

    def add_ephem_reader(self, r):
        if self.eph is not None:
            fail("twice")
        self.eph = r

    def add_aux_data_reader(self, r):
        self.aux.append(r)

    def read_block(self, block_size=None):
        if self.eph is None:
            fail("no ephemeris reader")
        if len(self.aux) == 0:
            fail("no readers")
        if self.prim:
            eph = self.eph.read_rows(self.start, block_size)
            self.start += len(eph)
            ids = eph["ObjID"].unique().tolist()
            if len(ids) == 0:
                return None
            first = self.aux[0].read_objects(ids)
        else:
            first = self.aux[0].read_rows(self.start, block_size)
            self.start += len(first)
            ids = first["ObjID"].unique().tolist()
            if len(ids) == 0:
                return None
            eph = self.eph.read_objects(ids)
        have = set(eph["ObjID"].unique().tolist())
        for i, reader in enumerate(self.aux):
            df = first if i == 0 else reader.read_objects(ids)
            if not have.issubset(set(pd.unique(df["ObjID"]).astype(str))):
                fail("missing")
            eph = eph.join(df.set_index("ObjID"), on="ObjID")
        return eph

    def read_aux_block(self, block_size=None):
        if len(self.aux) == 0:
            fail("no readers")
        out = self.aux[0].read_rows(self.start, block_size)
        self.start += len(out)
        ids = out["ObjID"].unique().tolist()
        if len(ids) == 0:
            return None
        for i, reader in enumerate(self.aux):
            df = out if i == 0 else reader.read_objects(ids)
            if not set(pd.unique(df["ObjID"]).astype(str)).issubset(ids):
                fail("missing")
            if i > 0:
                out = out.join(df.set_index("ObjID"), on="ObjID")
        return out

    def check_aux_object_ids(self):
        rs = self.aux
        if len(rs) <= 1:
            fail("too few")
        rs[0]._build_id_map()
        for r in rs[1:]:
            r._build_id_map()
            if len(rs[0].obj_id_table) != len(r.obj_id_table) or collections.Counter(rs[0].obj_id_table["ObjID"].values) != collections.Counter(r.obj_id_table["ObjID"].values):
                fail("mismatch")

def make(cls, readers, ephem, primary, have=True):
    r = cls(ephem_primary=primary)
    if have:
        r.add_ephem_reader(ephem)
    for a in readers:
        r.add_aux_data_reader(a)
    return r

def real_block(readers, ephem, primary, size, have):
    r = make(CombinedDataReader, readers, ephem, primary, have)
    return r.read_block(block_size=size), r.read_block(block_size=size)

def spec_block(readers, ephem, primary, size, have):
    r = make(Combined, readers, ephem, primary, have)
    return r.read_block(block_size=size), r.read_block(block_size=size)

def real_aux(readers, size):
    r = make(CombinedDataReader, readers, None, False, False)
    return r.read_aux_block(block_size=size), r.read_aux_block(block_size=size)

def spec_aux(readers, size):
    r = make(Combined, readers, None, False, False)
    return r.read_aux_block(block_size=size), r.read_aux_block(block_size=size)

def real_check(readers):
    make(CombinedDataReader, readers, None, False, False).check_aux_object_ids()

def spec_check(readers):
    make(Combined, readers, None, False, False).check_aux_object_ids()

def real_twice(a, b):
    r = CombinedDataReader()
    r.add_ephem_reader(a)
    r.add_ephem_reader(b)

def spec_twice(a, b):
    r = Combined()
    r.add_ephem_reader(a)
    r.add_ephem_reader(b)


# ---- the common part
def text_id(df):
    df["ObjID"] = df["ObjID"].astype(str)
    return df

def common(df):
    if len(df.columns) <= 1:
        fail("one column")
    return text_id(df)

# ---- CSV and whitespace
def header_row(filename, sep, header):
    with open(filename) as fh:
        for i, line in enumerate(fh):
            if (header >= 0 and header == i) or (header < 0 and line.startswith("ObjID")):
                names = line.split() if sep == "whitespace" else line.split(",")
                if len(names) < 2:
                    fail("one column")
                if "ObjID" not in names:
                    fail("no ObjID")
                return i
            if i > 100:
                break
    fail("no header")

def csv(filename, sep, skip, nrows=None):
    if sep == "whitespace":
        df = pd.read_csv(filename, sep="\\\\s+", dtype={"ObjID": str}, skiprows=skip, nrows=nrows)
    else:
        df = pd.read_csv(filename, sep=",", dtype={"ObjID": str}, skiprows=skip, nrows=nrows)
    return common(df).rename(columns=lambda x: x.strip())

def spec_csv_rows(filename, sep, header, start, size):
    if sep not in ["whitespace", "csv", "comma"]:
        fail("delimiter")
    h = header_row(filename, sep, header)
    skip = list(range(0, h)) + list(range(h + 1, h + 1 + start))
    return csv(filename, sep, skip, size)

def real_csv_rows(filename, sep, header, start, size):
    return CSVDataReader(filename, sep, header).read_rows(start, size)

def ids(filename, sep, h):
    if sep == "whitespace":
        t = pd.read_csv(filename, sep="\\\\s+", dtype={"ObjID": str}, usecols=["ObjID"], header=h)
    else:
        t = pd.read_csv(filename, sep=",", dtype={"ObjID": str}, usecols=["ObjID"], header=h)
    return text_id(t)

def spec_csv_objects(filename, sep, header, wanted):
    if sep not in ["whitespace", "csv", "comma"]:
        fail("delimiter")
    h = header_row(filename, sep, header)
    t = ids(filename, sep, h)
    skip = [True for _ in range(h)]
    skip.append(False)
    skip.extend(~t["ObjID"].isin(wanted).values)
    return csv(filename, sep, lambda i: skip[i])

def real_csv_objects(filename, sep, header, wanted):
    return CSVDataReader(filename, sep, header).read_objects(wanted)

def spec_csv_ids(filename, sep, header):
    if sep not in ["whitespace", "csv", "comma"]:
        fail("delimiter")
    return ids(filename, sep, header_row(filename, sep, header))

def real_csv_ids(filename, sep, header):
    r = CSVDataReader(filename, sep, header)
    r._build_id_map()
    r._build_id_map()
    return r.obj_id_table

# ---- HDF5
def spec_hdf_rows(filename, start, size):
    if size is None:
        return common(pd.read_hdf(filename, start=start))
    return common(pd.read_hdf(filename, start=start, stop=start + size))

def real_hdf_rows(filename, start, size):
    return HDF5DataReader(filename).read_rows(start, size)

def spec_hdf_objects(filename, wanted):
    t = text_id(pd.read_hdf(filename, columns=["ObjID"]))
    rows = np.flatnonzero(t["ObjID"].isin(wanted))
    if len(rows) == 0:
        return common(pd.read_hdf(filename, stop=0))
    return common(pd.read_hdf(filename, where=rows))

def real_hdf_objects(filename, wanted):
    return HDF5DataReader(filename).read_objects(wanted)

# ---- database
def spec_db_rows(filename, start, size):
    if start > 0 and size is None:
        fail("size needed")
    con = sqlite3.connect(filename)
    if size is not None:
        return common(pd.read_sql(f"SELECT * FROM interm ORDER BY ObjID LIMIT {start}, {size}", con=con))
    return common(pd.read_sql("SELECT * FROM interm ORDER BY ObjID", con=con))

def real_db_rows(filename, start, size):
    return DatabaseReader(filename).read_rows(start, size)

def spec_db_objects(filename, wanted):
    con = sqlite3.connect(filename)
    q = ", ".join("?" for _ in wanted)
    return common(pd.read_sql("SELECT * FROM interm WHERE ObjID IN ({})".format(q), con=con, params=wanted))

def real_db_objects(filename, wanted):
    return DatabaseReader(filename).read_objects(wanted)

# ---- cached tables
def spec_cached(filename, start, size, wanted):
    t = common(pd.read_hdf(filename, start=0))
    end = len(t) if size is None else start + size
    return t.iloc[start:end], t[t["ObjID"].isin(wanted)]

def real_cached(filename, start, size, wanted):
    r = HDF5DataReader(filename, cache_table=True)
    a = r.read_rows(start, size)
    return a, r.read_objects(wanted)

def real_cached2(filename, start, size, wanted):
    r = HDF5DataReader(filename, cache_table=True)
    b = r.read_objects(wanted)
    return r.read_rows(start, size), b
# ---- ephemerides
EPHEM = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day",
         "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s",
         "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s",
         "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]

def ephem_reader(filename, form):
    if form in ("whitespace", "comma", "csv"):
        return CSVDataReader(filename, sep=form)
    elif form in ("h5", "hdf5", "HDF5"):
        return HDF5DataReader(filename)
    fail("format")

def ephem_clean(df):
    df = df.rename(columns=lambda x: x.strip())
    df = df.drop(["V", "V(H=0)"], axis=1, errors="ignore")
    if not set(df.columns.values) == set(EPHEM):
        for c in df.columns.values:
            if c not in EPHEM and c not in ["fieldJD_TDB"]:
                fail("column")
    return df[EPHEM]

def spec_eph_rows(filename, form, start, size):
    return ephem_clean(ephem_reader(filename, form).read_rows(start, size))

def real_eph_rows(filename, form, start, size):
    return EphemerisDataReader(filename, form).read_rows(start, size)

def spec_eph_objects(filename, form, wanted):
    return ephem_clean(ephem_reader(filename, form).read_objects(wanted))

def real_eph_objects(filename, form, wanted):
    return EphemerisDataReader(filename, form).read_objects(wanted)

# ---- orbits
def need(df, cols):
    for c in cols:
        if c not in df.columns:
            fail("element")

def orbit_check(df):
    if len(df) == 0:
        return df
    if "FORMAT" not in df.columns:
        fail("FORMAT")
    if len(df.columns) != 9:
        fail("columns")
    f = df["FORMAT"].iloc[0]
    if len(df["FORMAT"].unique()) != 1:
        fail("mixed")
    if f in ["KEP", "BKEP"]:
        need(df, ["ObjID", "a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"])
        if ((df["e"] >= 1) | (df["e"] < 0) | ((df["e"] < 1) & (df["a"] < 0))).any():
            fail("impossible")
    elif f in ["COM", "BCOM"]:
        need(df, ["ObjID", "q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"])
        if ((df["q"] < 0) | (df["e"] < 0)).any():
            fail("impossible")
    elif f in ["CART", "BCART"]:
        need(df, ["ObjID", "x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"])
    else:
        fail("unknown")
    return df

def spec_orbit_rows(filename, sep, start, size):
    return orbit_check(CSVDataReader(filename, sep).read_rows(start, size))

def real_orbit_rows(filename, sep, start, size):
    return OrbitAuxReader(filename, sep).read_rows(start, size)

def spec_orbit_objects(filename, sep, wanted):
    return orbit_check(CSVDataReader(filename, sep).read_objects(wanted))

def real_orbit_objects(filename, sep, wanted):
    return OrbitAuxReader(filename, sep).read_objects(wanted)
''')


def reader_list(n):
    def f(I, st):
        I.frame_methods = {"read_rows", "read_objects"}
        return {"readers": I.new(st, ListC([sym("reader%d" % i) for i in range(n)]))}
    return f


def blocks(ctx, rule):
    for n in (0, 1, 2, 3):
        for prim in (FALSE, TRUE):
            for eph in (TRUE, FALSE):
                def a(I, st, n=n, prim=prim, eph=eph):
                    d = reader_list(n)(I, st)
                    d.update(primary=prim, ephem=sym("ephem"), have=eph, size=sym("size"))
                    return d
                with masked(ctx, present("ObjID")):
                    same(ctx, rule, "vspec.readers:real_block", "readers:spec_block", args=a, construct=CDR + "read_block")
        with masked(ctx, present("ObjID")):
            same(ctx, rule, "vspec.readers:real_aux", "readers:spec_aux", args=reader_list(n), construct=CDR + "read_aux_block")


def block_advance(ctx):
    blocks(ctx, "each block starts where the previous one ended")


@prop("P25")
def joins(ctx):
    """ephemerides and auxiliary rows are joined on the identifier, whatever the order of the files; two successive blocks, 0 to 3 files"""
    blocks(ctx, "rows joined by identifier")
    same(ctx, "one ephemeris reader", "vspec.readers:real_twice", "readers:spec_twice", construct=CDR + "add_ephem_reader")


@prop("P25", "P02")
def same_identifiers(ctx):
    """the auxiliary files must list the same objects, as often"""
    for n in (0, 1, 2, 3):
        same(ctx, "identifiers agree", "vspec.readers:real_check", "readers:spec_check", args=reader_list(n), construct=CDR + "check_aux_object_ids")


def pair(ctx, rule, name, con, args=None):
    return same(ctx, rule, "vspec.readers:real_" + name, "readers:spec_" + name, args=args, construct=RD + con)


@prop("P26", "P02", "P25")
def csv_reader(ctx):
    """CSV and whitespace files: rows from a position, rows of identifiers, the table of identifiers, the header search"""
    for sep in ("csv", "whitespace", "comma", None):
        a = {"sep": const(sep)} if sep else {}
        for h in (const(-1), sym("header")):
            a["header"] = h
            pair(ctx, "rows from a position", "csv_rows", "CSVReader:CSVDataReader.read_rows", a)
            pair(ctx, "rows of identifiers", "csv_objects", "CSVReader:CSVDataReader.read_objects", a)
            pair(ctx, "identifiers", "csv_ids", "CSVReader:CSVDataReader._build_id_map", a)


@prop("P26", "P02", "P25")
def hdf_reader(ctx):
    """HDF5 files"""
    pair(ctx, "rows from a position", "hdf_rows", "HDF5Reader:HDF5DataReader.read_rows")
    pair(ctx, "rows of identifiers", "hdf_objects", "HDF5Reader:HDF5DataReader.read_objects")


@prop("P26")
def db_reader(ctx):
    """databases"""
    pair(ctx, "rows from a position", "db_rows", "DatabaseReader:DatabaseReader.read_rows")
    pair(ctx, "rows of identifiers", "db_objects", "DatabaseReader:DatabaseReader.read_objects")


@prop("P26", "P25")
def cached(ctx):
    """tables kept in memory"""
    same(ctx, "cached table", "vspec.readers:real_cached", "readers:spec_cached", construct=RD + "ObjectDataReader:ObjectDataReader")
    same(ctx, "cached table", "vspec.readers:real_cached2", "readers:spec_cached", construct=RD + "ObjectDataReader:ObjectDataReader")


@prop("P26", "P28", "P34", "P24")
def ephem_reader(ctx):
    """external ephemerides: format dispatch, expected columns"""
    for f in ("whitespace", "comma", "csv", "h5", "hdf5", "HDF5", "sqlite3", None):
        a = {"form": const(f)} if f else {}
        pair(ctx, "ephemeris rows", "eph_rows", "EphemerisReader:EphemerisDataReader.read_rows", a)
        pair(ctx, "ephemeris of objects", "eph_objects", "EphemerisReader:EphemerisDataReader.read_objects", a)


@prop("P27", "P26")
def orbit_reader(ctx):
    """orbit files: one known format, that format's columns, possible elements"""
    for sep in ("csv", "whitespace"):
        a = {"sep": const(sep)}
        pair(ctx, "orbit rows", "orbit_rows", "OrbitAuxReader:OrbitAuxReader.read_rows", a)
        pair(ctx, "orbits of objects", "orbit_objects", "OrbitAuxReader:OrbitAuxReader.read_objects", a)
