"""P36: the configurations and the demo which ship with the program are accepted by it."""
import ast, configparser, os, shlex
from .common import *
from .cli import OPTIONS, declared, command, kind_of
from .config import CFG, keep_float

CLASS = {"INPUT": "inputConfigs", "SIMULATION": "simulationConfigs", "FILTERS": "filtersConfigs", "SATURATION": "saturationConfigs", "PHASECURVES": "phasecurvesConfigs",
         "FOV": "fovConfigs", "FADINGFUNCTION": "fadingfunctionConfigs", "LINKINGFILTER": "linkingfilterConfigs", "OUTPUT": "outputConfigs", "LIGHTCURVE": "lightcurveConfigs",
         "ACTIVITY": "activityConfigs", "EXPERT": "expertConfigs", "AUXILIARY": "auxiliaryConfigs"}

BASE = '''
from sorcha.utilities import sorchaConfigs as C

class Ini:
    def __init__(self, parts):
        self.parts = parts
    def has_section(self, name):
        return name in self.parts
    def __getitem__(self, name):
        return self.parts[name]
    def has_option(self, s, k):
        return s in self.parts and k in self.parts[s]
    def sections(self):
        return list(self.parts)
    def items(self, s):
        return self.parts[s].items()
    def options(self, s):
        return list(self.parts[s])
    def get(self, s, k):
        return self.parts[s][k]
    def __contains__(self, s):
        return s in self.parts

class Read(C.sorchaConfigs):
    def __init__(self, survey):
        self.survey_name = survey

def accept(parts, survey):
    x = Read(survey)
    x._read_configs_from_object(Ini(parts))
    return (x.input.ephemerides_type, x.fov.camera_model, x.fov.visits_query, x.lightcurve.lc_model, x.activity.comet_activity, x.filters.observing_filters,
            x.phasecurves.phase_function, x.input.aux_format)
'''


def inis(ctx):
    root = os.path.join(ctx.prog.root, "sorcha", "data")
    out = []
    for d in ("survey_setups", "demo"):
        for f in sorted(os.listdir(os.path.join(root, d))):
            if f.endswith(".ini"):
                out.append((d + "/" + f, os.path.join(root, d, f), "des" if f.startswith("DES") else "rubin_sim"))
    return out


def fields(ctx, cls):
    m, c = ctx.prog.modules["sorcha.utilities.sorchaConfigs"], None
    for n in m.tree.body:
        if isinstance(n, ast.ClassDef) and n.name == cls:
            return {x.target.id for x in n.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
    raise AnalysisError("no class %s" % cls)


def load(path):
    c = configparser.ConfigParser()
    try:
        c.read(path)
    except configparser.Error as e:
        return str(e)
    return {s: dict(c[s]) for s in c.sections()}


def number(kind, wrong):
    def hook(I, f, args, kws, st, n):
        t = I.term(args[0], st) if args else NONE
        if is_const(t) and isinstance(t.args[0], str):
            try:
                return TT.mknum(kind(t.args[0])) if hasattr(TT, "mknum") else const(kind(t.args[0]))
            except ValueError:
                wrong.append(t.args[0])
                return None
        return keep_float(I, f, args, kws, st, n) if kind is float else None
    return hook


NEEDS = {   # what the pipelines read from the pointing database, under the names the query must give
    "rubin_sim": {"observationId", "observationStartMJD_TAI", "visitTime", "visitExposureTime", "filter", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec",
                  "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg"},
    "des": {"observationId", "observationMidpointMJD_TAI", "visitExposureTime", "filter", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "c", "k"}}
VISITS = {"llcra", "llcdec", "lrcra", "lrcdec", "urcra", "urcdec", "ulcra", "ulcdec", "ra_centre", "dec_centre", "detectorID", "limMag_perChip"}


def selected(sql):
    """names of the columns a query yields"""
    low = sql.lower()
    a, b = low.find("select "), low.find(" from ")
    if a != 0 or b < 0:
        return None
    return {x.split()[-1] for x in sql[7:b].split(",") if x.split()}


@prop("P36", "P23")
def configurations(ctx):
    """every shipped configuration has only known sections and keys, and passes the validation of its survey"""
    for nm, path, survey in inis(ctx):
        con = "src/sorcha/data/" + nm
        parts = load(path)
        if not ctx.ob("readable", isinstance(parts, dict), con, parts):
            continue
        known = True
        for s, kv in parts.items():
            if not ctx.ob("sections", s in CLASS, con, "section %s is not read" % s):
                continue
            fs = fields(ctx, CLASS[s])
            for k in kv:
                known &= ctx.ob("keys", k in fs, con, "[%s] %s is not a key of that section" % (s, k))
        if not known:
            continue
        wrong = []
        src = BASE + "\ndef shipped():\n    return accept(%r, %r)\n" % (parts, survey)
        cx = Ctx(ctx.prop, ctx.tier, {"vspec.shipped": src})
        r = cx.run("vspec.shipped:shipped", hooks={"builtins.int": number(int, wrong), "builtins.float": number(float, wrong)})
        for k, v in cx.analysed.items():
            ctx.analysed[k] = ctx.analysed.get(k, 0) + v
        check_notes(ctx, r, con)
        ctx.ob("numbers", not wrong, con, "%s is not the number its key needs" % wrong)
        if not wrong:
            ctx.eq("accepted", con, clean(r.st.pc), TRUE, "the condition under which it is accepted")
        q = selected(parts.get("INPUT", {}).get("pointing_sql_query", ""))
        ctx.ob("pointing query", q is not None and NEEDS[survey] <= q, con, "its pointing query does not give %s" % sorted(NEEDS[survey] - (q or set())))
        v = parts.get("FOV", {}).get("visits_query")
        if v is not None:
            q = selected(v)
            ctx.ob("visits query", q is not None and VISITS <= q and v.rstrip().endswith("?"), con, "its visits query does not give %s for one visit" % sorted(VISITS - (q or set())))
        ctx.facts.append("%s: %d sections, %d keys" % (nm, len(parts), sum(map(len, parts.values()))))


def demo_command(ctx):
    r = ctx.run("sorcha.utilities.sorcha_demo_command:get_demo_command")
    t = r.term()
    if not (is_const(t) and isinstance(t.args[0], str)):
        raise AnalysisError("the demo command is not a literal text")
    return t.args[0]


@prop("P36", "P34")
def demo_runs(ctx):
    """the advertised demo command gives known options, every required one, and the demo's own files, which fit its configuration"""
    con = "sorcha.utilities.sorcha_demo_command:get_demo_command"
    words = shlex.split(demo_command(ctx))
    ctx.ob("demo command", words[:2] == ["sorcha", "run"], con, "starts with %s" % words[:2])
    q, r = command(ctx, "run")
    have = declared(r)[0].get("", {})
    flags = {f: (d, kind_of(kw)) for d, (fs, kw, e) in have.items() for f in fs}
    given, i = {}, 2
    while i < len(words):
        w, val = words[i], None
        if "=" in w:
            w, val = w.split("=", 1)
        m = [w] if w in flags else [f for f in flags if w.startswith("--") and f.startswith(w)]
        if not ctx.ob("demo command", len(m) == 1, con, "%s is %s" % (w, "not an option of sorcha run" if not m else "short for several options: %s" % m)):
            return
        d, kind = flags[m[0]]
        if kind == "value":
            if val is None:
                i += 1
                val = words[i] if i < len(words) else None
            ctx.ob("demo command", val is not None and not val.startswith("-"), con, "%s has no value" % w)
        given[d] = val
        i += 1
    for d, (fs, kw, e) in have.items():
        ctx.ob("demo command", kw.get("required", FALSE) is not TRUE or d in given, con, "does not give %s, which is required" % sorted(fs))
    folder = os.path.join(ctx.prog.root, "sorcha", "data", "demo")
    copied = copied_files(ctx)
    for d in ("c", "ob", "p", "pd"):
        f = given.get(d)
        ctx.ob("demo files", f in copied, con, "%s is not among the demo's files: %s" % (f, sorted(copied)))
        if f and not f.endswith(".db"):
            ctx.ob("demo files", os.path.isfile(os.path.join(folder, f)), con, "%s does not ship" % f)
    # the demo's data fits its configuration
    conf = load(os.path.join(folder, given.get("c") or ""))
    if not isinstance(conf, dict) or not conf:
        return
    sep = None if conf["INPUT"]["aux_format"] == "whitespace" else ","
    with open(os.path.join(folder, given["p"])) as f:
        head, first = f.readline().split(sep), f.readline().split(sep)
    hs = [x for x in head if x.startswith("H_")]
    if ctx.ob("demo data", "ObjID" in head and len(hs) == 1 and len(head) == len(first), given["p"], "its columns are %s" % head):
        filts = [x.strip() for x in conf["FILTERS"]["observing_filters"].split(",")]
        main = hs[0][2:]
        for x in filts:
            ctx.ob("demo data", x == main or "%s-%s" % (x, main) in head, given["p"], "has no colour %s-%s" % (x, main))
        need = {"HG": ["G"], "HG12": ["G12"], "HG1G2": ["G1", "G2"], "linear": ["S"], "none": []}[conf["PHASECURVES"]["phase_function"]]
        for n in need:
            ctx.ob("demo data", n + "S" in head or n in head or all(n + x in head for x in filts), given["p"], "has no phase parameter %s" % n)
    with open(os.path.join(folder, given["ob"])) as f:
        head, first = f.readline().split(sep), f.readline().split(sep)
    row = dict(zip(head, first))
    need = {"KEP": ["a", "e", "inc", "node", "argPeri", "ma"], "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"], "CART": ["x", "y", "z", "xdot", "ydot", "zdot"]}
    need.update({"B" + k: v for k, v in need.items()})
    for n in ["ObjID", "FORMAT", "epochMJD_TDB"] + need.get(row.get("FORMAT"), ["?"]):
        ctx.ob("demo data", n in head, given["ob"], "has no column %s" % n)


def copied_files(ctx):
    r = ctx.run("sorcha.utilities.sorcha_copy_demo_files:copy_demo_files")
    out = set()

    def f(x):
        if is_const(x) and isinstance(x.args[0], str):
            out.add(x.args[0])
    for a in acts(r, {"shutil.copy", "shutil.copyfile"}):
        from .cli import walk
        for t in a.args.values():
            walk(t, f)
    return out
