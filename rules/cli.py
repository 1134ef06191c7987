"""P34, P24, P19, P31, P01: the commands, what they forward, the files they replace."""
import os
import tomllib
from .common import *

RUN = "sorcha_cmdline.run:"
U = "sorcha.utilities."

spec("cli", '''
import sys, os, glob, shutil, subprocess, argparse
from sorcha_cmdline.main import find_sorcha_verbs
from sorcha.sorcha import runLSSTSimulation
from sorcha.des import runDESSimulation
from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
from sorcha.utilities.sorchaGetLogger import sorchaGetLogger
from sorcha.utilities.sorchaCommandLineParser import sorchaCommandLineParser
from sorcha.utilities.sorchaArguments import sorchaArguments
from sorcha.utilities.sorchaConfigs import sorchaConfigs
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
from importlib.resources import files
from sorcha.utilities.check_output_logs import check_output_logs
from sorcha.utilities.createResultsSQLDatabase import create_results_database
from sorcha.utilities.sorcha_copy_configs import copy_demo_configs
from sorcha.utilities.sorcha_copy_demo_files import copy_demo_files
from sorcha.utilities.citation_text import cite_sorcha
from sorcha.activity.activity_registration import update_activity_subclasses
from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses

def run(args):
    out = FindFileOrExit(args.o, "-o, --outfile")
    sorchaGetLogger(out, args.t)
    update_lc_subclasses()
    update_activity_subclasses()
    cmd = sorchaCommandLineParser(args)
    conf = sorchaConfigs(cmd["configfile"], cmd["surveyname"])
    if conf.input.ephemerides_type == "external" and cmd["input_ephemeris_file"] is None:
        sys.exit("no ephemerides")
    if (conf.lightcurve.lc_model or conf.activity.comet_activity) and cmd.get("complex_physical_parameters") is None:
        sys.exit("no complex parameters")
    if "SORCHA_SEED" in os.environ:
        cmd["seed"] = int(os.environ["SORCHA_SEED"])
    if cmd["visits_database"] is not None and conf.fov.camera_model != "visits_footprint":
        sys.exit("visits database without its camera model")
    if (cmd["visits_database"] is None) != (conf.fov.visits_query is None):
        sys.exit("visits database and query go together")
    survey = cmd["surveyname"]
    if survey in ("rubin_sim", "RUBIN_SIM"):
        a = sorchaArguments(cmd)
        a.validate_arguments()
        runLSSTSimulation(a, conf)
    elif survey in ("DES", "des"):
        a = sorchaArguments(cmd)
        a.validate_arguments()
        runDESSimulation(a, conf)
    else:
        sys.exit("unknown survey")

def parsed(args):
    d = {"paramsinput": FindFileOrExit(args.p, ""), "orbinfile": FindFileOrExit(args.ob, ""), "configfile": FindFileOrExit(args.c, ""),
         "outpath": FindFileOrExit(args.o, ""), "pointing_database": FindFileOrExit(args.pd, "")}
    if args.cp:
        d["complex_physical_parameters"] = FindFileOrExit(args.cp, "")
    d["input_ephemeris_file"] = args.er
    d["output_ephemeris_file"] = args.ew
    d["visits_database"] = FindFileOrExit(args.vd, "") if args.vd is not None else None
    inputs = [args.p, args.ob, args.c, args.pd, args.cp, args.er, args.vd]
    if args.ew:
        stale(os.path.join(glob.escape(d["outpath"]), glob.escape(args.ew) + ".*"), args.f, None, inputs)
    d["surveyname"] = args.s
    d["outfilestem"] = args.t
    d["loglevel"] = args.l
    d["stats"] = args.st
    if args.st is not None:
        stale(glob.escape(os.path.join(d["outpath"], args.st + ".csv")), args.f, None, inputs)
    d["ar_data_path"] = args.ar
    if args.ar:
        FindDirectoryOrExit(args.ar, "")
    stale(os.path.join(glob.escape(d["outpath"]), glob.escape(args.t) + ".*"), args.f, None, inputs)
    return d

def verbs():
    if not find_sorcha_verbs():
        sys.exit(1)
    args = argparse.ArgumentParser().parse_args()
    if args.version:
        return
    if not args.verb:
        sys.exit(1)
    if not shutil.which("sorcha-" + args.verb):
        sys.exit(1)
    sys.exit(subprocess.run(["sorcha-" + args.verb] + args.args, check=True).returncode)

def stale(filepath, force_remove, pplogger, inputs=()):
    found = glob.glob(filepath)
    if found:
        if not force_remove:
            sys.exit("exists")
        for x in found:
            if any(i and os.path.realpath(i) == os.path.realpath(x) for i in inputs):
                sys.exit("an input")
        for x in found:
            os.remove(x)

def need_file(arg_fn, argname):
    if not os.path.exists(arg_fn):
        sys.exit("missing")
    return arg_fn

def need_folder(arg_fn, argname):
    if not os.path.isdir(arg_fn):
        sys.exit("missing")
    return arg_fn

def check_logs(args):
    args.filepath = os.path.abspath(args.filepath)
    if not os.path.isdir(args.filepath):
        sys.exit("no folder")
    if args.outpath:
        args.outpath = os.path.abspath(args.outpath)
        if not os.path.isdir(os.path.dirname(args.outpath)):
            sys.exit("no folder")
        if args.outpath[-4:] != ".csv":
            args.outpath = args.outpath + ".csv"
        if os.path.exists(args.outpath):
            if not args.force:
                sys.exit("exists")
            os.remove(args.outpath)
    check_output_logs(args.filepath, args.outpath)

def create_sqlite(args):
    args.output, args.inputs, args.results = os.path.abspath(args.output), os.path.abspath(args.inputs), os.path.abspath(args.results)
    if not os.path.isdir(args.inputs) or not os.path.isdir(args.results):
        sys.exit("no folder")
    if os.path.exists(args.output):
        if not args.force:
            sys.exit("exists")
        os.remove(args.output)
    create_results_database(args)

def init(args):
    which = input("")
    try:
        n = int(which)
    except ValueError:
        sys.exit("no number")
    if n not in [1, 2, 3, 4, 5]:
        sys.exit("no number")
    copy_demo_configs(os.path.abspath(args.path), {1: "rubin_circle", 2: "rubin_footprint", 3: "rubin_known", 4: "des_configs", 5: "all"}[n], args.force)

def demo(args):
    copy_demo_files(os.path.abspath(args.path), args.force)

def cite(args):
    if args.p:
        cite_sorcha()
    else:
        if not os.path.isdir(args.o):
            sys.exit("no folder")
        with open(os.path.join(args.o, "sorcha_citation.txt"), "w") as f:
            cite_sorcha(f=f)

def copy_configs(copy_location, which_configs, force_overwrite):
    if not os.path.isdir(copy_location):
        sys.exit("no folder")
    if which_configs == "rubin_circle":
        fs = ["Rubin_circular_approximation.ini"]
    elif which_configs == "rubin_footprint":
        fs = ["Rubin_full_footprint.ini"]
    elif which_configs == "rubin_known":
        fs = ["Rubin_known_object_prediction.ini"]
    elif which_configs == "des_configs":
        fs = ["DES_config_file.ini"]
    elif which_configs == "all":
        fs = ["Rubin_circular_approximation.ini", "Rubin_full_footprint.ini", "Rubin_known_object_prediction.ini", "DES_config_file.ini"]
    else:
        sys.exit("unknown")
    for n in fs:
        if os.path.isfile(os.path.join(copy_location, n)) and not force_overwrite:
            sys.exit("exists")
    for n in fs:
        shutil.copy(files("sorcha.data.survey_setups").joinpath(n), copy_location)

def copy_demo(copy_location, force_overwrite):
    if not os.path.isdir(copy_location):
        sys.exit("no folder")
    fs = ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"]
    for n in fs:
        if os.path.isfile(os.path.join(copy_location, n)) and not force_overwrite:
            sys.exit("exists")
    for n in fs:
        shutil.copy(files("sorcha.data.demo").joinpath(n), copy_location)

def real_stored(d):
    if d is None:
        return None
    a = sorchaArguments(d)
    return (a.paramsinput, a.orbinfile, a.input_ephemeris_file, a.configfile, a.outpath, a.outfilestem, a.pointing_database, a.output_ephemeris_file,
            a.ar_data_file_path, a.loglevel, a.stats, a.visits, a.surveyname, a.complex_parameters)

def stored(d):
    if d is None:
        return None
    return (d["paramsinput"], d["orbinfile"], d.get("input_ephemeris_file"), d["configfile"], d["outpath"], d["outfilestem"], d["pointing_database"],
            d.get("output_ephemeris_file"), d.get("ar_data_path"), d["loglevel"], d["stats"], d["visits_database"], d["surveyname"],
            d["complex_physical_parameters"] if "complex_physical_parameters" in d else "")

def real_seeded(d):
    if d is None:
        return None
    return sorchaArguments(d)._rngs._base_seed

def seeded(d):
    if d is None:
        return None
    return d.get("seed", int.from_bytes(os.urandom(4), "big"))

def real_valid(d):
    a = sorchaArguments()
    a.paramsinput, a.orbinfile, a.input_ephemeris_file, a.configfile, a.pointing_database, a.ar_data_file_path = d.p, d.ob, d.er, d.c, d.pd, d.ar
    a.validate_arguments()

def valid(d):
    ok = os.path.isfile(d.p) and os.path.isfile(d.ob) and os.path.isfile(d.pd)
    ok = ok and (not d.er or os.path.isfile(d.er)) and (d.c is None or os.path.isfile(d.c)) and (not d.ar or os.path.isdir(d.ar))
    if not ok:
        raise ValueError("missing")
''')

@prop("P34", "P30", "P01", "P06", "P23", "P22")
def dispatch(ctx):
    """each accepted survey name runs its own simulation, with its own rules; anything else ends the run"""
    op = tuple("sorcha.utilities." + x for x in ("sorchaGetLogger:sorchaGetLogger", "sorchaCommandLineParser:sorchaCommandLineParser",
                                                "sorchaArguments:sorchaArguments", "sorchaConfigs:sorchaConfigs")) + (
        "sorcha.sorcha:runLSSTSimulation", "sorcha.des:runDESSimulation", "sorcha.activity.activity_registration:update_activity_subclasses", "sorcha.lightcurves.lightcurve_registration:update_lc_subclasses")
    groups = [{op[4], op[5], "validate_arguments", op[2]}, {op[6], op[3]}, {op[7], op[3]}, {op[0], op[1]}]
    con = RUN + "execute"
    g, w = same(ctx, "dispatch", con, "cli:run", opaque=op, value=False)
    for ns in groups:
        same_acts(ctx, "dispatch", con, g, w, names=ns)


@prop("P34", "P24", "P19", "P20", "P22")
def command_line(ctx):
    """what is given on the command line reaches the place that uses it; stale outputs are looked for"""
    con = U + "sorchaCommandLineParser:sorchaCommandLineParser"
    g, w = same(ctx, "command line", con, "cli:parsed")
    same_acts(ctx, "command line", con, g, w, names={"os.remove"})
    for nm in ("stored", "seeded", "valid"):
        same(ctx, "arguments", "vspec.cli:real_" + nm, "cli:" + nm, construct=U + "sorchaArguments:sorchaArguments")


@prop("P01")
def seed(ctx):
    """the seed given is the seed used, zero included; only without one it is taken from the system"""
    same(ctx, "arguments", "vspec.cli:real_seeded", "cli:seeded", construct=U + "sorchaArguments:sorchaArguments")


@prop("P19", "P20")
def stale(ctx):
    """stale outputs end the run unless forced; forced, exactly those are removed and never an input"""
    same_effects(ctx, "stale outputs", U + "sorchaCommandLineParser:warn_or_remove_file", "cli:stale")


@prop("P34", "P22")
def files(ctx):
    """a missing input ends the command"""
    same(ctx, "missing files", U + "fileAccessUtils:FindFileOrExit", "cli:need_file")
    same(ctx, "missing files", U + "fileAccessUtils:FindDirectoryOrExit", "cli:need_folder")


# ---------------------------------------------------------------- options and sub-commands
S, T_, F_ = "str", True, False
OPTIONS = {   # command -> {destination: (flags, default, required, kind)}; kinds: value, flag (off unless given), unflag (on unless given)
    "run": {"": {
        "c": ({"-c", "--config"}, None, True, "value"), "o": ({"-o", "--outfile"}, None, True, "value"), "ob": ({"--ob", "--orbits"}, None, True, "value"),
        "p": ({"-p", "--physical-parameters"}, None, True, "value"), "pd": ({"--pd", "--pointing-db"}, None, True, "value"),
        "er": ({"--er", "--ephem-read"}, None, False, "value"), "ew": ({"--ew", "--ephem-write"}, None, False, "value"),
        "ar": ({"--ar", "--ar-data-path"}, None, False, "value"), "cp": ({"--cp", "--complex-physical-parameters"}, None, False, "value"),
        "f": ({"-f", "--force"}, False, False, "flag"), "s": ({"-s", "--survey"}, "rubin_sim", False, "value"), "t": ({"-t", "--stem"}, "SSPPOutput", False, "value"),
        "l": ({"-l", "--log-level"}, True, False, "unflag"), "st": ({"--st", "--stats"}, None, False, "value"), "vd": ({"--vd", "--visits-db"}, None, False, "value")}},
    "outputs": {
        "create-sqlite": {"output": ({"-o", "--output"}, None, True, "value"), "inputs": ({"-i", "--inputs"}, None, True, "value"), "results": ({"-r", "--results"}, None, True, "value"),
                          "stem": ({"-s", "--stem"}, None, False, "value"), "complex": ({"-c", "--complex"}, False, False, "flag"), "force": ({"--force"}, False, False, "flag")},
        "check-logs": {"filepath": ({"-f", "--filepath"}, None, True, "value"), "outpath": ({"-o", "--outpath"}, (None, False), False, "value"), "force": ({"--force"}, False, False, "flag")}},
    "init": {"": {"path": ({"-p", "--path"}, "./", False, "value"), "force": ({"-f", "--force"}, False, False, "flag")}},
    "demo": {"prepare": {"path": ({"-p", "--path"}, "./", False, "value"), "force": ({"-f", "--force"}, False, False, "flag")}, "howto": {}},
    "cite": {"": {"o": ({"-o", "--outfile"}, mk("call", "os.getcwd"), False, "value"), "p": ({"-p", "--print"}, False, False, "flag")}},
    "bootstrap": {"": {"cache": ({"--cache"}, mk("call", "pooch.os_cache", const("sorcha")), False, "value"), "force": ({"-f", "--force"}, False, False, "flag")}},
}
FUNCS = {"outputs": {"create-sqlite": "cmd_outputs_create_sqlite", "check-logs": "cmd_outputs_check_logs"}, "demo": {"prepare": "cmd_demo_prepare", "howto": "cmd_demo_howto"}}


def declared(r):
    """the options a command declares: sub-command -> destination -> option"""
    out, funcs = {}, {}
    for e in r.I.effects:
        if e.kind != "mcall" or e.name not in ("add_argument", "set_defaults", "add_parser"):
            continue
        st = St({}, e.heap, TRUE)
        t = [clean(r.I.term(a, st)) for a in e.args]
        kw = {k: clean(r.I.term(v, st)) for k, v in (e.kws or {}).items()}
        sub = [""]

        def f(x):
            if x.op == "call" and x.args[0] == ".add_parser":
                sub[0] = x.args[2].args[0] if is_const(x.args[2]) else "?"
        walk(t[0], f)
        if e.name == "add_parser":
            out.setdefault(t[1].args[0], {})
            continue
        if e.name == "set_defaults":
            if "func" in kw:
                funcs[sub[0]] = kw["func"]
            continue
        flags = [x.args[0] for x in t[1:] if is_const(x)]
        dest = kw["dest"].args[0] if "dest" in kw and is_const(kw["dest"]) else None
        if dest is None:
            long = [x for x in flags if x.startswith("--")]
            dest = (long[0] if long else flags[0]).lstrip("-").replace("-", "_") if flags else "?"
        out.setdefault(sub[0], {})[dest] = (set(flags), kw, e)
    return out, funcs


def walk(t, f, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t.dig in seen:
        return
    seen.add(t.dig)
    f(t)
    for a in t.args:
        walk(a, f, seen)


def kind_of(kw):
    a = kw.get("action", const("store"))
    return {"store": "value", "store_true": "flag", "store_false": "unflag"}.get(a.args[0] if is_const(a) else None, show(a))


def command(ctx, name):
    q = "sorcha_cmdline.%s:" % name
    op = () if name in FUNCS else (q + "execute",)
    return q, ctx.run(q + "main", (), None, opaque=op)


@prop("P34", "P24")
def options(ctx):
    """every documented option exists, with its meaning and default; what is read was declared; sub-commands go to their own implementation"""
    for name, subs in OPTIONS.items():
        q, r = command(ctx, name)
        con = q + "main"
        got, funcs = declared(r)
        for sub, opts in subs.items():
            ctx.ob("options", sub in got or not sub, con, "sub-command %s is not offered" % sub)
            have = got.get(sub, {})
            for dest, (flags, dflt, req, kind) in opts.items():
                o = have.get(dest)
                if not ctx.ob("options", o is not None, con, "no option is stored as %s%s" % (sub + " " if sub else "", dest)):
                    continue
                at = " (%s)" % o[2].where.split(" ")[0]
                ctx.ob("options", flags <= o[0], con, "%s is given by %s, must be %s%s" % (dest, sorted(o[0]), sorted(flags), at))
                ctx.ob("options", kind_of(o[1]) == kind, con, "%s is a %s, must be a %s%s" % (dest, kind_of(o[1]), kind, at))
                ctx.ob("options", (o[1].get("required", FALSE) is TRUE) == req, con, "%s is %srequired%s" % (dest, "not " if req else "", at))
                auto = {"flag": FALSE, "unflag": TRUE}.get(kind, NONE)
                d = o[1].get("default", auto)
                ok = any(d is (x if isinstance(x, T) else const(x)) for x in (dflt if isinstance(dflt, tuple) else (dflt,)))
                ctx.ob("options", ok, con, "%s defaults to %s, must be %s%s" % (dest, show(d, 4), dflt, at))
                ty = o[1].get("type")
                ctx.ob("options", kind != "value" or ty is None or show(ty) == "ext('builtins.str')", con, "%s is converted by %s%s" % (dest, show(ty, 3) if ty is not None else "", at))
            for fl in {x for o in have.values() for x in o[0]}:
                n = [d for d, o in have.items() if fl in o[0]]
                ctx.ob("options", len(n) == 1, con, "%s is declared for %s" % (fl, n))
        for sub, fn in FUNCS.get(name, {}).items():
            f = funcs.get(sub)
            ctx.ob("sub-commands", f is not None and f is mk("func", q + fn), con, "%s goes to %s, must go to %s" % (sub, show(f, 4) if f is not None else None, fn))
        if name in FUNCS:
            calls = [e for e in r.I.effects if e.kind == "mcall" and e.name == "func"]
            ctx.ob("sub-commands", len(calls) == 1, con, "calls the sub-command's implementation %d times" % len(calls))
        else:
            calls = [e for e in r.I.effects if e.kind == "opaque" and e.name == q + "execute"]
            if ctx.ob("sub-commands", len(calls) == 1, con, "calls its implementation %d times" % len(calls)):
                ctx.eq("sub-commands", con, clean(calls[0].pc), TRUE, "the condition under which it runs")


@prop("P34", "P22")
def dispatcher(ctx):
    """`sorcha VERB ARGS` runs sorcha-VERB with exactly ARGS and ends with its exit code; the installed commands are these modules"""
    con = "sorcha_cmdline.main:main"
    P = sym("parsed")

    def f(x):
        return P if x.op == "call" and x.args[0] in (".parse_args", "argparse.ArgumentParser.parse_args") else None
    with masked(ctx, lambda t: subst(t, f)):
        g, w = same_effects(ctx, "dispatcher", con, "cli:verbs", names={"subprocess.run"}, ignore=("check",), opaque=("sorcha_cmdline.main:find_sorcha_verbs",))
        runs = [e for e in g.I.effects if e.kind == "ext" and e.name == "subprocess.run"]
        ends = False
        for x in g.I.effects:
            if x.kind != "exit" or not runs:
                continue
            code = g.I.term(x.args[0], St({}, x.heap, TRUE)) if x.args else NONE
            at = x.where.split(" ")[0]
            if x.seq > runs[0].seq:
                ok = code.op == "attr" and code.args[1] == "returncode"
                ctx.ob("dispatcher", ok, con, "ends with %s after running the command, must end with its exit code (%s)" % (show(code, 5)[:200], at))
                ends = ends or ok and clean(x.pc) is clean(runs[0].pc)
            else:
                ctx.ob("dispatcher", is_const(code) and code.args[0] not in (0, None, False) or code.op == "num" and code.args[0] != 0, con,
                       "ends with %s although nothing was run (%s)" % (show(code, 3), at))
        ctx.ob("dispatcher", ends, con, "does not end with the exit code of the command it ran")
        failed = [subst(t, lambda x: TRUE if x.op == "exc" else None) for t in (g.st.pc, w.st.pc)]
        ctx.eq("dispatcher", con, failed[0], failed[1], "the condition under which it ends without an error when the command fails")
    with open(os.path.join(os.path.dirname(ctx.prog.root), "pyproject.toml"), "rb") as fh:
        scripts = tomllib.load(fh).get("project", {}).get("scripts", {})
    for n in ("", "run", "init", "demo", "outputs", "bootstrap", "cite"):
        name = "sorcha-" + n if n else "sorcha"
        want = "sorcha_cmdline.%s:main" % (n or "main")
        ctx.ob("installed commands", scripts.get(name) == want, "pyproject.toml", "%s starts %s, must start %s" % (name, scripts.get(name), want))


spec("logger", '''
import logging, os
from datetime import datetime

def logger(log_location, log_stem, log_format="%(asctime)s %(name)-12s %(levelname)-8s %(message)s ", log_name="", log_file_info="sorcha.log", log_file_error="sorcha.err"):
    log = logging.getLogger(log_name)
    fmt = logging.Formatter(log_format)
    now = datetime.now().strftime("%Y-%m-%d-%H-%M-%S")
    pid = os.getpid()
    info = logging.FileHandler(os.path.join(log_location, "-".join([log_stem, now, "p" + str(pid), log_file_info])), mode="w")
    info.setFormatter(fmt)
    info.setLevel(logging.INFO)
    log.addHandler(info)
    err = logging.FileHandler(os.path.join(log_location, "-".join([log_stem, now, "p" + str(pid), log_file_error])), mode="w")
    err.setFormatter(fmt)
    err.setLevel(logging.ERROR)
    log.addHandler(err)
    log.setLevel(logging.INFO)
    return log
''')


@prop("P22", "P31", "P19")
def log_files(ctx):
    """every run opens its own pair of logs in the output folder: all messages in one, the errors in the other"""
    con = U + "sorchaGetLogger:sorchaGetLogger"
    g, w = same(ctx, "log files", con, "logger:logger")
    for n in ("logging.FileHandler", "setFormatter", "setLevel", "addHandler"):
        got, want = ({show(clean(mk("act", a.pc, *[mk("kw", k, v) for k, v in sorted(a.args.items())])), 40): a for a in acts(x, {n})} for x in (g, w))
        for t in sorted(set(got) ^ set(want)):
            ctx.bad("log files", con, "%s %s" % ("does not" if t in want else "must not", t[:300]))
        ctx.ob("log files", True, con)


def removed(ctx, rule, con, ref, names, opaque=(), **kw):
    g, w = same(ctx, rule, con, ref, opaque=opaque, value=False, **kw)
    for ns in names:
        same_acts(ctx, rule, con, g, w, names=ns)
    return g, w


OUT = {"os.remove", "builtins.open", "shutil.copy", "os.unlink", "shutil.copyfile"} | WRITERS


@prop("P34", "P19", "P31")
def outputs(ctx):
    """the outputs commands: folders, existing outputs, what is handed on"""
    q = "sorcha_cmdline.outputs:"
    op = (U + "check_output_logs:check_output_logs", U + "createResultsSQLDatabase:create_results_database")
    removed(ctx, "outputs", q + "cmd_outputs_check_logs", "cli:check_logs", [OUT | set(op)], op)
    removed(ctx, "outputs", q + "cmd_outputs_create_sqlite", "cli:create_sqlite", [OUT | set(op)], op)


@prop("P34", "P19")
def copies(ctx):
    """init, demo and cite: what is copied or written where, and when an existing file stops it"""
    op = (U + "sorcha_copy_configs:copy_demo_configs", U + "sorcha_copy_demo_files:copy_demo_files", U + "citation_text:cite_sorcha")
    removed(ctx, "init", "sorcha_cmdline.init:execute", "cli:init", [OUT | set(op)], op, hooks={"builtins.input": lambda *a: sym("typed")})
    removed(ctx, "demo", "sorcha_cmdline.demo:cmd_demo_prepare", "cli:demo", [OUT | set(op)], op)
    removed(ctx, "cite", "sorcha_cmdline.cite:execute", "cli:cite", [OUT | set(op)], op)
    removed(ctx, "init", op[0], "cli:copy_configs", [OUT])
    removed(ctx, "demo", op[1], "cli:copy_demo", [OUT])


@prop("P19")
def opened(ctx):
    """no command opens an existing file for writing unguarded"""
    g = ctx.run("sorcha_cmdline.cite:execute", (), None, opaque=(U + "citation_text:cite_sorcha",))
    for a in acts(g, {"builtins.open"}):
        free = and_(a.pc, mk("call", "os.path.exists", a.args["file"]))
        ctx.ob("existing file", free is FALSE, "sorcha_cmdline.cite:execute",
               "%s is opened for writing whether it exists or not" % show(a.args["file"], 5))
