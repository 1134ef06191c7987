"""The survey pipelines as a whole: P02 chunk loop, P03 stages, P04 quantities and order, P24 routing, P16 output, P21 completion."""
from .common import *
from . import drivers as D
from .drivers import driver, stage_slice, drop_loop, merge_events, LSST, DES

OPTIONAL = {
    "lsst": ["PPFaintObjectCullingFilter", "PPTrailingLoss", "vignettingEffects", "randomizeAstrometryAndPhotometry",
             "PPApplyFOVFilter", "PPSNRLimit", "PPMagnitudeLimit", "PPFadingFunctionFilter", "PPBrightLimit", "PPLinkingFilter"],
    "des": ["PPFaintObjectCullingFilter", "PPTrailingLoss", "vignettingEffects", "randomizeAstrometryAndPhotometry",
            "PPApplyFOVFilter", "PPSNRLimit", "PPMagnitudeLimit", "DESFadingFunctionFilter", "PPBrightLimit", "distance_cut",
            "motion_cut", "DESDiscoveryFilter"],
}
ALWAYS = {
    "lsst": ["create_ephemeris", "read_block", "read_aux_block", "PPMatchPointingToObservations", "PPCalculateApparentMagnitude", "addUncertainties"],
    "des": ["create_ephemeris", "read_block", "read_aux_block", "PPMatchPointingToObservations", "PPCalculateApparentMagnitude"],
}
SETUP = ["PPGetMainFilterAndColourOffsets", "PrintConfigsToLog", "PPReadPointingDatabase", "precompute_pointing_information",
         "EphemerisDataReader", "OrbitAuxReader", "CSVDataReader", "check_aux_object_ids", "Footprint"]
OUT = ["PPWriteOutput", "stats"]
QUAL = {"lsst": LSST, "des": DES}


def lits(pc):
    return pc.args if pc.op == "and" else (pc,)


def in_loop(e):
    return [x.args[0] for x in lits(e.fullpc) if x.op == "inloop"]


# ------------------------------------------------------------------------------------------------ P02
def chunk_loop(ctx, which):
    d = driver(ctx, which)
    con = QUAL[which]
    reads = d.of("read_block") + d.of("read_aux_block")
    if not reads:
        raise AnalysisError("%s no longer reads blocks" % con)
    loops = {tuple(x.dig for x in in_loop(e)) for e in reads}
    if len(loops) != 1 or len(next(iter(loops))) != 1:
        ctx.bad("chunk loop", con, "blocks are read in %s nested loops, must be in exactly one loop over the objects" % sorted(len(l) for l in loops))
        return None
    dig = next(iter(loops))[0]
    rec = next((r for r in d.I.loops if r.L.dig == dig), None)
    if rec is None:
        raise AnalysisError("%s: loop of the block reads not found" % con)
    return d, con, reads, rec


SIZE = mk("attr", mk("attr", sym("sconfigs"), "input"), "size_serial_chunk")


def is_total(t):
    """number of objects: the length of an auxiliary reader's table of identifiers"""
    if t.op == "len" and t.args[0].op == "attr" and t.args[0].args[1] == "obj_id_table":
        r = t.args[0].args[0]
        return r.op == "call" and r.args[0] in (D.STAGES["OrbitAuxReader"], D.STAGES["CSVDataReader"])
    return False


def find_total(t):
    out = []
    def f(x):
        if is_total(x):
            out.append(x)
        return None
    subst(t, f)
    return out[0] if out else None


@prop("P02")
def chunk_completeness(ctx):
    """the loop reads block k for k = 0, 1, ... as long as k*size < number of objects, every block exactly once"""
    for which in ("lsst", "des"):
        r = chunk_loop(ctx, which)
        if r is None:
            continue
        d, con, reads, rec = r
        L = rec.L
        ctx.ob("no early way out of the loop", not rec.breaks, con, "the loop over blocks at %s has a break%s" % (
            rec.where, ", taken when " + show(drop_loop(rec.breaks[0].pc), 6)[:300] if rec.breaks else ""))
        K = mk("idx", L)
        if rec.kind == "while":
            hyp, v1 = {}, {}
            names = {}
            muv = {}
            def mus(t):
                s = set()
                subst(t, lambda x: s.add(x) if x.op == "mu" and x.args[0] is L else None)
                return s
            need = mus(rec.cond)
            for _ in range(6):
                more = set(need)
                for m in need:
                    e = rec.end.env.get(m.args[1])
                    if isinstance(e, T):
                        more |= mus(e)
                if more == need:
                    break
                need = more
            sub0 = {}
            for m in need:
                v = rec.entry.env.get(m.args[1])
                if not isinstance(v, T):
                    raise AnalysisError("%s: loop variable %s has no initial value" % (con, m.args[1]))
                sub0[m] = v
            ok = True
            for m in need:
                tr = rec.end.env.get(m.args[1])
                if not isinstance(tr, T):
                    raise AnalysisError("%s: loop variable %s is not a number" % (con, m.args[1]))
                v1[m] = subst(tr, lambda x: sub0.get(x))
                hyp[m] = add(sub0[m], mul(sub(v1[m], sub0[m]), K))
            for m in need:
                tr = subst(rec.end.env[m.args[1]], lambda x: hyp.get(x))
                want = subst(hyp[m], lambda x: add(K, ONE) if x is K else None)
                ok &= ctx.eq("loop variables advance by one block on every way round", con, tr, want, "loop variable %s after block k" % m.args[1])
            if not ok:
                continue
            cond = subst(rec.cond, lambda x: hyp.get(x))
            N = find_total(cond)
            if N is None:
                ctx.bad("loop condition", con, "the loop at %s runs while %s, which does not involve the number of objects" % (rec.where, show(cond, 8)[:300]))
                continue
            ctx.eq("loop condition", con, cond, lt(mul(SIZE, K), N), "the condition for reading block number idx")
        else:
            base = L.args[0]
            N = find_total(base)
            good = False
            if N is not None:
                good = base in range_forms(N)
            ctx.ob("loop condition", good, con, "the loop at %s runs over %s, must be one block of the configured size until all objects are read" % (rec.where, show(base, 8)[:300]))
        # every iteration reads exactly one block
        for e in reads:
            extra = [x for x in lits(e.fullpc) if x.op != "inloop" and x is not rec.cond and contains(x, lambda y: y.op in ("mu", "idx") and y.args[0] is L)]
            ctx.ob("one read per block", not extra, con, "%s at %s happens only when %s" % (e.stage, e.where, " and ".join(show(x, 6)[:200] for x in extra)))
            ctx.eq("block size", con, e.args.get("block_size", NONE), SIZE, "the number of objects asked for by %s" % e.stage)
        for st in ("read_block", "read_aux_block"):
            stage_slice(ctx, st, (which,), "one read per block", frames=False)
        ctx.facts.append("%s: loop at %s, condition %s" % (con, rec.where, show(rec.cond, 6)[:200]))


def range_forms(N):
    out = set()
    s = SIZE
    for lo in ((ZERO, N, s), ):
        out.add(mk("call", "range", *lo))
    for f in ("ceil", "numpy.ceil", "math.ceil"):
        q = mk("call", f, div(N, s))
        for g in (q, mk("call", "int", q)):
            out.add(mk("call", "range", g))
            out.add(mk("call", "range", ZERO, g))
    return out


@prop("P02")
def reader_advances(ctx):
    """reading a block starts where the previous one ended and moves the start by what was read"""
    from . import readers
    readers.block_advance(ctx)


# ------------------------------------------------------------------------------------------------ P03
@prop("P03")
def stage_conditions(ctx):
    """every optional step runs if and only if its own switch is on; every unconditional one always; results are chained"""
    for which in ("lsst", "des"):
        for s in OPTIONAL[which]:
            stage_slice(ctx, s, (which,), "step runs when configured", args=False)
        for s in ALWAYS[which]:
            stage_slice(ctx, s, (which,), "step always runs", args=False)
        for s in OUT:
            stage_slice(ctx, s, (which,), "result is used", args=False)
        no_other_survey(ctx, which)


def no_other_survey(ctx, which):
    """no step of the other survey"""
    d = driver(ctx, which)
    w = driver(ctx, "spec_" + which)
    have = {e.stage for e in w.events} | {"PPIndexSQLDatabase"}
    for e in d.events:
        ctx.ob("no other step", e.stage in have, QUAL[which], "%s at %s is not a step of this survey" % (e.stage, e.where))


# ------------------------------------------------------------------------------------------------ P04
@prop("P04")
def quantities(ctx):
    """the table each step gets holds the documented quantities: true before uncertainties, measured afterwards, depth, order of steps"""
    for which in ("lsst", "des"):
        for s in OPTIONAL[which] + ALWAYS[which] + OUT:
            if s in ("read_block", "read_aux_block", "PPFaintObjectCullingFilter"):
                continue
            stage_slice(ctx, s, (which,), "order and columns", pcs=False, args=False)


# ------------------------------------------------------------------------------------------------ P24
@prop("P24")
def routing(ctx):
    """every step gets the configuration values documented for it, in the right place"""
    for which in ("lsst", "des"):
        for s in SETUP + OPTIONAL[which] + ALWAYS[which] + OUT:
            if s in ("PPFaintObjectCullingFilter",) and which == "x":
                continue
            stage_slice(ctx, s, (which,), "routing", frames=False, pcs=s in SETUP)


# ------------------------------------------------------------------------------------------------ P16 (pipeline part)
@prop("P16", "P21")
def output_in_pipeline(ctx):
    """every non-empty chunk is handed to the writer (or collected) once, nothing is written when results are returned, the index is built after the loop"""
    for which in ("lsst", "des"):
        con = QUAL[which]
        for s in OUT:
            stage_slice(ctx, s, (which,), "hand-over")
        d, w = driver(ctx, which), None
        idx = d.of("PPIndexSQLDatabase")
        ctx.ob("index after the last chunk", len(idx) == 1, con, "PPIndexSQLDatabase is called at %d places, must be 1" % len(idx))
        cfg = mk("attr", mk("attr", sym("sconfigs"), "output"), "output_format")
        want = mk("call", "os.path.join", mk("attr", sym("args"), "outpath"), concat(mk("attr", sym("args"), "outfilestem"), const(".db")))
        for e in idx:
            ctx.ob("index after the last chunk", not in_loop(e), con, "the index is built inside the loop over chunks (%s)" % e.where)
            ctx.eq("index after the last chunk", con, e.args.get("outf", NONE), want, "the database that is indexed")
            base = alive_at_end(d)
            c = without(drop_loop(e.pc), base)
            ctx.eq("index after the last chunk", con, c, and_(eq(cfg, const("sqlite3")), truth(mk("call", "os.path.isfile", want))), "the condition for building the index")
        returned(ctx, which, d)


def alive_at_end(d):
    return drop_loop(d.st.pc)


def without(pc, base):
    bs = set(x.dig for x in lits(base))
    return and_(*[x for x in lits(pc) if x.dig not in bs])


def returned(ctx, which, d):
    """with return_only the function returns the concatenation of every chunk's rows, and of the tallies when asked for"""
    con = QUAL[which]
    t = d.I.term(d.v, d.st)
    w = driver(ctx, "spec_" + which)
    wev = w.of("PPWriteOutput")[0]
    k = next(iter(wev.frames))
    etype = mk("call", ".lower", mk("attr", mk("attr", sym("sconfigs"), "input"), "ephemerides_type"))

    def val(x, r=None, s=None, ext=True):
        def f(y):
            if y is sym("return_only") and r is not None:
                return r
            if y.op == "eq" and etype in y.args:
                o = y.args[0] if y.args[1] is etype else y.args[1]
                return TRUE if o is const("external" if ext else "ar") else FALSE
            if s is not None and y.op == "eq" and mk("attr", sym("args"), "stats") in y.args and NONE in y.args:
                return not_(s)
            return None
        return subst(strip_exc(D.nonempty_true(x)), f)
    for ext in (True, False):
        frame = val(w.I.frame_term(wev.frames[k]), FALSE, None, ext)
        both, one, none = val(t, TRUE, TRUE, ext), val(t, TRUE, FALSE, ext), val(t, FALSE, TRUE, ext)
        ok = both.op == "tuple" and len(both.args) == 2
        ctx.ob("returned results", ok, con, "with statistics asked for the result is %s, must be the observations and the statistics" % show(both, 6)[:300])
        if ok:
            check_collected(ctx, con, both.args[0], frame, "returned observations (with statistics)")
            check_collected(ctx, con, both.args[1], None, "returned statistics")
        check_collected(ctx, con, one, frame, "returned observations")
        ctx.ob("returned results", none is NONE, con, "without return_only the result is %s" % show(none, 4)[:200])


def check_collected(ctx, con, t, want, what):
    """t concatenates, over the chunk loop, exactly one table per chunk"""
    while t.op == "ite":
        c, a, b = t.args
        t = a if contains(a, lambda x: x.op in ("flatmap", "map")) else b
    seg = None
    if t.op == "call" and t.args[0] in ("concat", "pandas.concat") and not [a for a in t.args if isinstance(a, T) and a.op == "kw" and a.args[0] not in ("ignore_index", "sort", "copy")]:
        x = [a for a in t.args if isinstance(a, T) and a.op in ("flatmap", "map")]
        if x:
            x = x[0]
            if len(x.args) > 2 and x.args[2] is TRUE and (len(x.args) < 4 or x.args[3] is FALSE):
                seg = x.args[1]
                if x.op == "flatmap":
                    seg = seg.args[0] if seg.op == "list" and len(seg.args) == 1 else None
    if seg is None:
        return ctx.bad("returned results", con, "the %s are %s, must be every chunk's table, once" % (what, show(t, 7)[:400]))
    if want is None:
        ctx.ob("returned results", seg is mk("stage", "stats"), con, "the %s are collected from %s" % (what, show(seg, 5)[:300]))
    else:
        ctx.eq("returned results", con, seg, want, what)


# ------------------------------------------------------------------------------------------------ P21
DONE = "Sorcha process is completed."


@prop("P21")
def completion_message(ctx):
    """the message is the last thing a run that finished does, and appears on no other path"""
    for which in ("lsst", "des"):
        d = driver(ctx, which)
        con = QUAL[which]
        I = d.I
        msgs = [e for e in I.effects if e.kind == "log" and e.args and recognised(I.term(e.args[0], St({}, e.heap, TRUE)))]
        ctx.ob("one completion message", len(msgs) == 1, con, "the completion message is written at %d places (%s), must be 1" % (len(msgs), ", ".join(m.where for m in msgs)))
        for m in msgs:
            ctx.ob("not inside the loop", not any(x.op == "inloop" for x in lits(m.pc)), con, "the completion message at %s is inside the loop over chunks" % m.where)
            ctx.ob("written to the log", m.name in ("info", "warning"), con, "the completion message is logged as %s" % m.name)
            for e in I.effects:
                if e.seq > m.seq and e.kind in ("stage", "exit", "raise", "opaque") :
                    ctx.bad("nothing that can fail follows", con, "%s at %s comes after the completion message" % (e.name, e.where))
                if e.seq > m.seq and e.kind in ("ext", "mcall") and e.name not in ("pandas.concat",):
                    ctx.bad("nothing that can fail follows", con, "%s at %s comes after the completion message" % (e.name, e.where))
                if e.seq > m.seq and e.kind == "log":
                    ctx.bad("nothing follows in the log", con, "a log line at %s comes after the completion message" % e.where)
            ctx.eq("written whenever the run ends normally", con, drop_loop(m.pc), drop_loop(d.st.pc), "the condition under which the completion message is written")
    log_format(ctx)
    other_messages(ctx)


def recognised(t):
    """could a log message end in the completion text?"""
    if t.op == "const":
        return str(t.args[0]).rstrip().endswith(DONE)
    if t.op == "concat":
        x = t.args[-1]
        return x.op == "const" and str(x.args[0]).rstrip().endswith(DONE)
    return False


def log_format(ctx):
    """the line the logger writes for the message is the line the checker accepts"""
    r = ctx.run("sorcha.utilities.sorchaGetLogger:sorchaGetLogger")
    con = "sorcha.utilities.sorchaGetLogger:sorchaGetLogger"
    fm = [e for e in r.I.effects if e.kind in ("ext",) and e.name == "logging.Formatter"]
    ctx.ob("log format", len(fm) == 1, con, "creates %d formatters, must be 1" % len(fm))
    suffix = None
    for e in fm:
        t = r.I.term(e.args[0], St({}, e.heap, TRUE)) if e.args else NONE
        ok = t.op == "const" and "%(message)s" in str(t.args[0])
        ctx.ob("log format", ok, con, "the log line format is %s" % show(t, 4))
        if ok:
            suffix = t.args[0].split("%(message)s")[-1]
    q = "sorcha.utilities.check_output_logs:check_all_logs"
    r2 = ctx.run(q)
    if suffix is not None:
        line = DONE + suffix
        accepts(ctx, r2, q, line)


def accepts(ctx, r, q, line):
    """decide the checker's predicate for a line ending in `line`"""
    conds = set()
    def f(x):
        if x.op == "eq" and any(is_const(a) and isinstance(a.args[0], str) and DONE[:6] in a.args[0] for a in x.args):
            conds.add(x)
        if x.op in ("call", "truthy") and contains(x, lambda y: y.op == "call" and y.args[0] in (".endswith", "in")) and x.op == "truthy":
            conds.add(x)
        if x.op == "in" and is_const(x.args[0]):
            conds.add(x)
        return None
    subst(r.term(), f)
    for rec in r.I.loops:
        for e in list(rec.continues or []) + [rec.end]:
            if e is not None and not e.dead:
                subst(e.pc, f)
    got = [c for c in conds if DONE[:12] in show(c, 12)]
    ctx.ob("checker recognises the message", bool(got), q, "no test for the completion message found")
    for c in got:
        ok = pred_accepts(c, line)
        if ok is None:
            raise AnalysisError("%s: cannot decide the recognition test %s" % (q, show(c, 8)))
        ctx.ob("checker recognises the message", ok, q, "the test %s does not recognise the line the logger writes, which ends in %r" % (show(c, 8), line))


def pred_accepts(c, line):
    if c.op == "truthy":
        c = c.args[0]
    if c.op == "eq":
        k, o = (c.args[0], c.args[1]) if is_const(c.args[0]) else (c.args[1], c.args[0])
        s = k.args[0]
        # suffix slices and strips of the line
        full = "2024-01-01 00:00:00,000 sorcha.sorcha INFO     " + line
        v = eval_str(o, full)
        return None if v is None else v == s
    if c.op == "call" and c.args[0] == ".endswith":
        v = eval_str(c.args[1], "2024-01-01 00:00:00,000 sorcha.sorcha INFO     " + line)
        return None if v is None or not is_const(c.args[2]) else v.endswith(c.args[2].args[0])
    if c.op == "in":
        return c.args[0].args[0] in line
    return None


def eval_str(t, line):
    """value of a slice/strip expression of the last line"""
    if t.op == "item" and t.args[1].op == "slice":
        b = eval_str(t.args[0], line)
        if b is None:
            return None
        xs = []
        for a in t.args[1].args:
            if a is NONE:
                xs.append(None)
            elif num(a) is not None:
                xs.append(int(num(a)))
            else:
                return None
        return b[slice(*xs)]
    if t.op == "call" and t.args[0] in (".strip", ".rstrip", ".lstrip") and len(t.args) == 2:
        b = eval_str(t.args[1], line)
        return None if b is None else getattr(b, t.args[0][1:])()
    if t.op == "ite":
        return eval_str(t.args[1], line) if not (is_const(t.args[1]) and t.args[1].args[0] == "") else eval_str(t.args[2], line)
    if t.op in ("item", "call", "mu", "bind", "last", "first"):
        return line
    return None


def other_messages(ctx):
    """no other log line of the program looks like the completion message"""
    import ast
    n = 0
    for m, c, f in ctx.prog.functions():
        if m.name.startswith("vspec"):
            continue
        for x in ast.walk(f):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and DONE in x.value and m.name not in ("sorcha.utilities.check_output_logs",):
                n += 1
                q = "%s:%s" % (m.name, f.name)
                ctx.ob("no other message is mistaken for it", q in (LSST, DES) or called_from_driver(ctx, q), q, "the completion text also appears in %s (line %s)" % (m.rel, x.lineno))
    ctx.ob("no other message is mistaken for it", n > 0, LSST, "the completion text is not found")


def called_from_driver(ctx, q):
    return any(q in driver(ctx, w).I.analysed for w in ("lsst", "des"))
