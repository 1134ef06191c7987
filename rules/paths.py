"""P20: where the paths that are written, renamed or removed come from.

Every expression is given its origins: an input the user named, something else (UNK), a parameter of the function, or
nothing but text of the program itself (no origin).  A place that changes the file system is followed through the callers
until its target has no parameter in it; an input there is a finding, and so is a target that is only program text."""
import ast
from .common import *
from .errors import flow, mark
from .determinism import parents
from sa.flow import dotted

INPUT_KEYS = {"paramsinput", "orbinfile", "input_ephemeris_file", "configfile", "pointing_database", "visits_database", "complex_physical_parameters", "complex_parameters",
              "footprint_path", "config_file_location", "visits_filename", "bsdbname", "path_to_visits"}
ARG_INPUTS = {"p", "ob", "c", "pd", "cp", "er", "vd"}
ARG_MODULES = {"sorcha_cmdline.run", "sorcha.utilities.sorchaCommandLineParser", "sorcha_cmdline.sorchaargumentparser"}
SKIP = {"sorcha.utilities.generateGoldens", "sorcha.utilities.diffTestUtils", "sorcha.utilities.citation_text", "sorcha.utilities.test_data_utils", "sorcha.utilities.dataUtilitiesForTests"}
UNK = "?"
FIRST = {"os.remove": "removes", "os.unlink": "removes", "os.rmdir": "removes", "os.removedirs": "removes", "os.truncate": "truncates", "os.chmod": "changes", "os.utime": "changes",
         "os.mkdir": "makes", "os.makedirs": "makes", "shutil.rmtree": "removes", "logging.FileHandler": "writes", "numpy.save": "writes", "numpy.savez": "writes", "numpy.savetxt": "writes",
         "numpy.savez_compressed": "writes", "os.chown": "changes", "logging.handlers.RotatingFileHandler": "writes"}
BOTH = {"os.rename", "os.replace", "os.renames", "shutil.move"}
SECOND = {"shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copytree", "os.link", "os.symlink", "shutil.copymode", "shutil.copystat"}
TABLE = {"to_csv": "path_or_buf", "to_hdf": "path_or_buf", "to_pickle": "path", "to_parquet": "path", "to_json": "path_or_buf", "to_feather": "path", "to_excel": "excel_writer", "to_string": "buf",
         "to_html": "buf", "to_latex": "buf", "to_stata": "path", "to_xml": "path_or_buffer", "to_orc": "path", "tofile": "fid", "savefig": "fname", "to_markdown": "buf"}
PATHMETHODS = {"unlink": "removes", "write_text": "writes", "write_bytes": "writes", "touch": "makes", "rmdir": "removes", "symlink_to": "makes", "hardlink_to": "makes", "chmod": "changes"}
OPENERS = {"open", "builtins.open", "io.open", "gzip.open", "bz2.open", "lzma.open", "codecs.open"}
HDF = {"pandas.HDFStore": "a", "h5py.File": "r", "tables.open_file": "r", "pandas.ExcelWriter": "w", "zipfile.ZipFile": "r", "tarfile.open": "r", "numpy.memmap": "r+", "shelve.open": "c", "sqlite3.connect": None}
STRIP = {"basename", "getmtime", "getsize", "stat"}
QUIET = ("select", "with", "explain", "pragma table_info", "pragma query_only")


class Paths:
    def __init__(self, fl):
        self.fl = fl
        self.funcs = {q: v for q, v in fl.funcs.items() if v[0].name not in SKIP}
        for m in fl.prog.modules.values():
            if m.name in SKIP or m.name.startswith("vspec"):
                continue
            top = ast.Module(body=[x for x in m.tree.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])
            self.funcs[m.name] = (m, None, top)
        self.classes = {}
        for m in fl.prog.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[(m.name, n.name)] = n
        self.defs_, self.rets, self.stack = {}, {}, set()
        self.fields = {}
        self.own = {}
        self.parent = {}
        self.readers()

    # ---- objects made by calling a class: constructor parameters to fields
    def klass(self, m, call):
        d = dotted(call.func)
        if d is None:
            return None
        p = d.split(".")
        if len(p) == 1 and (m.name, p[0]) in self.classes:
            return m.name, p[0]
        base = self.fl.imports[m.name].get(p[0])
        if base:
            full = ".".join([base] + p[1:])
            for _ in range(5):
                k = full.rpartition(".")
                if (k[0], k[2]) in self.classes:
                    return k[0], k[2]
                full = self.fl.imports.get(k[0], {}).get(k[2])
                if full is None:
                    break
        return None

    def target(self, m, c, call):
        q = self.fl.resolve(m, c, call)
        if q in self.funcs and q != m.name:
            return q
        k = self.klass(m, call)
        if k:
            return self.fl.method(k[0], k[1], "__init__")
        return None

    def readers(self):
        """origins kept in fields of objects (self.filename and so on), all objects of a class together"""
        for _ in range(6):
            new = {}
            self.rets, self.defs_ = {}, {}
            for q, (m, c, f) in self.funcs.items():
                for n in ast.walk(f):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else ()
                    for t in ts:
                        if isinstance(t, ast.Attribute):
                            new.setdefault(t.attr, set()).update(self.grounded(self.ev(n.value, q), q))
            if new == self.fields:
                return
            self.fields = new

    def grounded(self, labels, q, seen=()):
        """parameters replaced by what any caller passes"""
        out = set()
        for l in labels:
            if not isinstance(l, tuple) or l[0] != "P":
                out.add(l)
                continue
            if (q, l[1]) in seen:
                continue
            cs = self.callers().get(q, ())
            got = False
            for cq, call in cs:
                e = self.argument(q, call, l[1])
                if e is not None:
                    got = True
                    out |= self.grounded(self.ev(e, cq), cq, seen + ((q, l[1]),))
            if not got:
                out.add(UNK)
        return out

    def callers(self):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for q, (m, c, f) in self.funcs.items():
                for n in ast.walk(f):
                    if isinstance(n, ast.Call):
                        t = self.target(m, c, n)
                        if t:
                            self._callers.setdefault(t, []).append((q, n))
        return self._callers

    def params(self, q):
        m, c, f = self.funcs[q]
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return []
        a = f.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if c is not None and ps and ps[0] in ("self", "cls"):
            ps = ps[1:]
        return ps

    def allparams(self, q):
        m, c, f = self.funcs[q]
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return set()
        a = f.args
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())

    def argument(self, q, call, name):
        """the expression this call passes for the parameter, its default, or None when that cannot be said"""
        for k in call.keywords:
            if k.arg == name:
                return k.value
        ps = self.params(q)
        if any(isinstance(a, ast.Starred) for a in call.args):
            return None
        if name in ps:
            i = ps.index(name)
            if i < len(call.args):
                return call.args[i]
        if any(k.arg is None for k in call.keywords):
            return None
        a = self.funcs[q][2].args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if name in pos:
            i = pos.index(name) - (len(pos) - len(a.defaults))
            return a.defaults[i] if i >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    # ---- definitions that reach a use
    def defs(self, q):
        d = self.defs_.get(q)
        if d is not None:
            return d
        m, c, f = self.funcs[q]
        d = {}
        if q not in self.parent:
            self.parent[q] = parents(f)

        def add(t, v, n):
            if isinstance(t, ast.Name):
                d.setdefault(t.id, []).append((n, v))
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    for a, b in zip(t.elts, v.elts):
                        add(a, b, n)
                else:
                    for a in t.elts:
                        add(a, v, n)
            elif isinstance(t, ast.Starred):
                add(t.value, v, n)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not (isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str)):
                d.setdefault(t.value.id + "[]", []).append((n, v))
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    add(t, n.value, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                add(n.target, n.value, n)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    d.setdefault(n.target.id + "+", []).append((n, n.value))
            elif isinstance(n, ast.NamedExpr):
                add(n.target, n.value, n)
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(n.target, ast.Tuple) and len(it.args) == len(n.target.elts):
                    for a, b in zip(n.target.elts, it.args):
                        add(a, b, n)
                elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and it.args:
                    add(n.target.elts[0], ast.Constant(0), n)
                    add(n.target.elts[1], it.args[0], n)
                else:
                    add(n.target, it, n)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                add(n.optional_vars, n.context_expr, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "extend", "insert", "update") and isinstance(n.func.value, ast.Name):
                for a in n.args:
                    d.setdefault(n.func.value.id + "[]", []).append((n, a))
        self.defs_[q] = d
        return d

    def blocks(self, q, n):
        """(statement list identity, index) of the statement and of those around it"""
        up = self.parent[q]
        out = []
        while n in up:
            p = up[n]
            for fld in ("body", "orelse", "finalbody", "handlers"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and any(n is x for x in b):
                    out.append((id(b), [i for i, x in enumerate(b) if x is n][0], p))
            n = p
        return out

    def reaching(self, q, name, use):
        ds = self.defs(q).get(name, [])
        if not ds or use is None:
            return ds, False
        if not hasattr(use, "lineno"):
            return ds, False
        ub = self.blocks(q, use)
        loops = [p for _, _, p in ub if isinstance(p, (ast.For, ast.While))]
        dom = None
        for n, v in ds:
            if isinstance(n, ast.comprehension):
                continue
            nb = self.blocks(q, n)
            if not nb:
                continue
            for bid, i, _ in ub:
                if bid == nb[0][0] and nb[0][1] < i and isinstance(n, (ast.Assign, ast.AnnAssign)) and (dom is None or n.lineno > dom.lineno):
                    dom = n
        if dom is None:
            return ds, False
        dl = [p for _, _, p in self.blocks(q, dom) if isinstance(p, (ast.For, ast.While))]
        inner = [l for l in loops if l not in dl]      # a later definition in a loop around the use, but not around the dominating one, can come round
        keep = []
        for n, v in ds:
            ln = getattr(n, "lineno", None) or getattr(v, "lineno", 0)
            if n is dom or dom.lineno < ln <= use.lineno or any(l.lineno <= ln <= l.end_lineno for l in inner):
                keep.append((n, v))
        return keep, True

    # ---- origins of an expression
    def ev(self, e, q, seen=frozenset()):
        m, c, f = self.funcs[q]
        key = (id(e), q)
        if key in seen or len(seen) > 60:
            return set()
        seen = seen | {key}
        go = lambda x: self.ev(x, q, seen)
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            ds, strong = self.reaching(q, e.id, e)
            out = set()
            for n, v in ds:
                out |= self.ev(v, q, seen)
            for s in ("+", "[]"):
                for n, v in self.defs(q).get(e.id + s, ()):
                    out |= self.ev(v, q, seen)
            if not strong and e.id in self.allparams(q):
                out.add(("P", e.id))
            if not ds and e.id not in self.allparams(q):
                top = self.defs(m.name).get(e.id) if q != m.name and m.name in self.funcs else None
                if top:
                    for n, v in top:
                        out |= self.ev(v, m.name, seen)
                elif not self.defs(q).get(e.id + "[]"):
                    out.add(UNK)
            return out
        if isinstance(e, ast.Attribute):
            if e.attr in INPUT_KEYS:
                return {("IN", e.attr)}
            if e.attr in ARG_INPUTS and m.name in ARG_MODULES and isinstance(e.value, ast.Name) and e.value.id in self.allparams(q) | set(self.defs(q)):
                return {("IN", "-" + e.attr)}
            if e.attr in ("parent", "name", "stem", "suffix") or e.attr not in self.fields:
                inner = {x for x in go(e.value) if isinstance(x, tuple) and x[0] == "IN"} if e.attr == "parent" else set()
                return inner | {UNK}
            return set(self.fields[e.attr]) | {UNK}
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                if e.slice.value in INPUT_KEYS:
                    return {("IN", e.slice.value)}
                return {UNK}
            return go(e.value)
        if isinstance(e, ast.BinOp):
            return go(e.left) | go(e.right)
        if isinstance(e, ast.JoinedStr):
            return set().union(*[go(x.value) for x in e.values if isinstance(x, ast.FormattedValue)] or [set()])
        if isinstance(e, ast.IfExp):
            return go(e.body) | go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[go(x) for x in e.values])
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(*[go(x) for x in e.elts] or [set()])
        if isinstance(e, ast.Starred) or isinstance(e, ast.NamedExpr):
            return go(e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return go(e.elt)
        if isinstance(e, ast.Call):
            t = self.target(m, c, e)
            name = self.fl.resolve(m, c, e)
            l = (dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else "")).split(".")[-1]
            if t and self.klass(m, e) is None:
                out = set()
                for r in self.returns(t):
                    if isinstance(r, tuple) and r[0] == "P":
                        a = self.argument(t, e, r[1])
                        out |= go(a) if a is not None else {UNK}
                    else:
                        out.add(r)
                return out
            if l == "get" and isinstance(e.func, ast.Attribute) and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                return {("IN", e.args[0].value)} if e.args[0].value in INPUT_KEYS else {UNK}
            if l == "getattr" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and e.args[1].value in INPUT_KEYS:
                return {("IN", e.args[1].value)}
            if l in STRIP:
                return {UNK}
            out = set()
            for a in list(e.args) + [k.value for k in e.keywords]:
                out |= go(a)
            if isinstance(e.func, ast.Attribute) and (name is None or not isinstance(e.func.value, ast.Name) or e.func.value.id not in self.fl.imports[m.name]):
                out |= go(e.func.value)
            text = l in ("join", "format", "str", "replace", "escape", "Path", "PurePath", "strip", "rstrip", "lower", "fspath", "encode") or name in ("str", "os.path.join")
            return out if text and out - {UNK} or text and not e.args else out | {UNK} if not text else out
        return {UNK}

    def returns(self, q):
        if q in self.rets:
            return self.rets[q]
        if q in self.stack:
            return set()
        self.stack.add(q)
        m, c, f = self.funcs[q]
        out = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= self.ev(n.value, q)
        self.stack.discard(q)
        self.rets[q] = out
        return out

    # ---- places that change the file system
    def mode(self, e, q, default):
        """the possible mode texts: constants, or ('P', name), or None when it cannot be said"""
        if e is None:
            return {default}
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.IfExp):
            return self.mode(e.body, q, default) | self.mode(e.orelse, q, default)
        if isinstance(e, ast.Name):
            ds, strong = self.reaching(q, e.id, e)
            out = set()
            for n, v in ds:
                out |= self.mode(v, q, default)
            if not strong and e.id in self.allparams(q):
                out.add(("P", e.id))
            return out or {None}
        if isinstance(e, ast.JoinedStr):
            return {"".join(x.value for x in e.values if isinstance(x, ast.Constant))}
        if isinstance(e, ast.BinOp):
            return self.mode(e.left, q, default) | self.mode(e.right, q, default)
        return {None}

    def sinks(self, q):
        """(what it does, target expression, line, modes or None) of the function itself"""
        m, c, f = self.funcs[q]
        for n in ast.walk(f):
            if not isinstance(n, ast.Call):
                continue
            name = self.fl.resolve(m, c, n)
            fn = n.func
            l = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
            kw = {k.arg: k.value for k in n.keywords}
            arg = lambda i, *names: n.args[i] if len(n.args) > i else next((kw[x] for x in names if x in kw), None)
            if name in FIRST:
                yield FIRST[name], arg(0, "path", "name", "file", "filename", "fname", "src"), n, None
            elif name in BOTH:
                yield "renames", arg(0, "src"), n, None
                yield "overwrites", arg(1, "dst"), n, None
            elif name in SECOND:
                yield "writes", arg(1, "dst"), n, None
            elif name in OPENERS:
                yield "opens for writing", arg(0, "file", "filename"), n, self.mode(arg(1, "mode"), q, "r")
            elif name in HDF and name != "sqlite3.connect":
                yield "opens for writing", arg(0, "path", "name", "filename", "file"), n, self.mode(arg(1, "mode"), q, HDF[name])
            elif name == "numpy.load" and "mmap_mode" in kw:
                yield "opens for writing", arg(0, "file"), n, self.mode(kw["mmap_mode"], q, "r")
            elif l in TABLE and isinstance(fn, ast.Attribute):
                t = arg(0, TABLE[l], "path_or_buf")
                if t is not None:
                    yield "writes", t, n, None
            elif l == "to_sql" and isinstance(fn, ast.Attribute):
                t = arg(1, "con")
                if t is not None:
                    yield "writes into", t, n, None
            elif l in ("execute", "executemany", "executescript") and isinstance(fn, ast.Attribute) and self.database(fn.value, q):
                yield "changes", fn.value, n, {"w" if self.changes(x) and not self.readonly(fn.value, q) else "r" for x in self.texts(arg(0, "sql"), q)}
            elif l in ("read_sql_query", "read_sql") and name and name.startswith("pandas."):
                t, sql = arg(1, "con"), arg(0, "sql")
                if t is not None:
                    yield "lets a query change", t, n, {"w"} if any(self.changes(x) for x in self.texts(sql, q)) and not self.readonly(t, q) else {"r"}
            elif l in PATHMETHODS and isinstance(fn, ast.Attribute) and name not in FIRST and not (name or "").startswith(("numpy.", "pandas.", "os.")):
                yield PATHMETHODS[l], fn.value, n, None
            elif l == "open" and isinstance(fn, ast.Attribute) and name not in OPENERS and not (name or "").startswith(("os.", "webbrowser")):
                yield "opens for writing", fn.value, n, self.mode(arg(0, "mode"), q, "r")
            elif name in ("os.system", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.Popen", "subprocess.check_output"):
                yield "gives to another program", arg(0, "args", "cmd", "command"), n, {"w?"}

    def texts(self, e, q, depth=0):
        """leading text of the possible values of a statement given to a database"""
        if isinstance(e, ast.Constant):
            return {str(e.value)}
        if isinstance(e, ast.JoinedStr):
            return {e.values[0].value if e.values and isinstance(e.values[0], ast.Constant) else None}
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            return self.texts(e.left, q, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "strip", "join"):
            return self.texts(e.func.value, q, depth)
        if isinstance(e, ast.IfExp):
            return self.texts(e.body, q, depth) | self.texts(e.orelse, q, depth)
        if isinstance(e, ast.Name) and depth < 5:
            ds, _ = self.reaching(q, e.id, e)
            out = set()
            for n, v in ds:
                out |= self.texts(v, q, depth + 1)
            return out or {None}
        return {None}

    @staticmethod
    def changes(text):
        return text is None or not " ".join(text.split()).lower().startswith(QUIET)

    def chain(self, e, q, depth=0):
        """the calls a value went through, names followed: the connection a cursor came from"""
        if depth > 6:
            return
        yield e, q
        if isinstance(e, ast.Call):
            m, c, f = self.funcs[q]
            t = self.target(m, c, e)
            if t and self.klass(m, e) is None:
                for n in ast.walk(self.funcs[t][2]):
                    if isinstance(n, ast.Return) and n.value is not None:
                        yield from self.chain(n.value, t, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            yield from self.chain(e.func.value, q, depth + 1)
        elif isinstance(e, ast.Name):
            for n, v in self.reaching(q, e.id, e)[0]:
                yield from self.chain(v, q, depth + 1)
            if e.id in self.allparams(q):
                for cq, call in self.callers().get(q, ()):
                    a = self.argument(q, call, e.id)
                    if a is not None:
                        yield from self.chain(a, cq, depth + 1)

    def mentions(self, e, q, text, depth=0):
        """every value the expression may have holds the text"""
        if isinstance(e, ast.Constant):
            return text in str(e.value)
        if isinstance(e, ast.JoinedStr):
            return any(text in str(x.value) for x in e.values if isinstance(x, ast.Constant))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            return self.mentions(e.left, q, text, depth) or self.mentions(e.right, q, text, depth)
        if isinstance(e, ast.IfExp):
            return self.mentions(e.body, q, text, depth) and self.mentions(e.orelse, q, text, depth)
        if isinstance(e, ast.Call):
            return any(self.mentions(x, q, text, depth) for x in ([e.func.value] if isinstance(e.func, ast.Attribute) else []) + list(e.args))
        if isinstance(e, ast.Name) and depth < 5:
            ds, strong = self.reaching(q, e.id, e)
            if ds:
                return strong and all(self.mentions(v, q, text, depth + 1) for _, v in ds)
            if e.id in self.allparams(q):
                got = [(cq, self.argument(q, call, e.id)) for cq, call in self.callers().get(q, ())]
                return bool(got) and all(a is not None and self.mentions(a, cq, text, depth + 1) for cq, a in got)
        return False

    def database(self, e, q):
        return any(isinstance(x, ast.Call) and ((dotted(x.func) or "").split(".")[-1] in ("connect", "cursor")) for x, _ in self.chain(e, q)) or isinstance(e, ast.Name) and e.id in self.allparams(q)

    def readonly(self, e, q):
        cs = [(x, p) for x, p in self.chain(e, q) if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "connect" and self.target(*self.funcs[p][:2], x) is None]

        def ro(x, p):
            uri = any(k.arg == "uri" and isinstance(k.value, ast.Constant) and k.value.value is True for k in x.keywords)
            path = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "database"), None)
            return uri and path is not None and self.mentions(path, p, "mode=ro")
        return bool(cs) and all(ro(x, p) for x, p in cs)

    def effects(self, q, stack=()):
        """(verb, origins, modes, function, line) of everything this function does, its callees included"""
        if q in self.own:
            return self.own[q]
        if q in stack:
            return []
        out = []
        m, c, f = self.funcs[q]
        for verb, t, n, modes in self.sinks(q):
            if t is None:
                continue
            out.append((verb, frozenset(self.ev(t, q)), None if modes is None else frozenset(modes), q, n.lineno))
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                t = self.target(m, c, n)
                if t is None:
                    continue
                for verb, lab, modes, where, line in self.effects(t, stack + (q,)):
                    if not any(isinstance(x, tuple) and x[0] == "P" for x in set(lab) | set(modes or ())):
                        continue         # said at the callee already
                    new, nm = set(), None if modes is None else set()
                    for x in lab:
                        if isinstance(x, tuple) and x[0] == "P":
                            a = self.argument(t, n, x[1])
                            new |= {UNK} if a is None else self.ev(a, q)
                        else:
                            new.add(x)
                    for x in modes or ():
                        if isinstance(x, tuple) and x[0] == "P":
                            nm |= self.mode(self.argument(t, n, x[1]), q, None)
                        else:
                            nm.add(x)
                    out.append((verb, frozenset(new), None if nm is None else frozenset(nm), where, line))
        out = list(dict.fromkeys(out))
        if not stack:
            self.own[q] = out
        return out


def writing(modes):
    if modes is None:
        return True
    return any(isinstance(x, str) and any(ch in x for ch in "wax+c") or x is None for x in modes)


@prop("P20")
def written(ctx):
    """nothing that is opened for writing, changed, renamed or removed is an input, nor a place only the program knows"""
    fl = flow(ctx)
    P = Paths(fl)
    called = P.callers()
    rule = "what is written is no input"
    for q in sorted(P.funcs):
        mark(ctx, q)
        for verb, lab, modes, where, line in P.effects(q):
            if not writing(modes):
                ctx.ob(rule, True, where)
                continue
            ins = sorted(x[1] for x in lab if isinstance(x, tuple) and x[0] == "IN")
            if ins:
                ctx.bad(rule, where, "line %d %s the input %s%s" % (line, verb, ", ".join(ins), "" if where == q else " (called from %s)" % q))
            elif not lab and verb not in ("gives to another program",):
                ctx.bad(rule, where, "line %d %s a place the user did not name" % (line, verb))
            else:
                ctx.ob(rule, True, where)
