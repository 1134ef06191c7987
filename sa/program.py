"""Loads the source tree: every module's AST, digests, and name -> module maps."""
import ast, hashlib, json, os

REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisError(Exception):
    """the analysis cannot decide (vanished anchor, unparsable source, unsupported construct)"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = None          # filled lazily by the interpreter
        self.is_pkg = path.endswith("__init__.py")

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Program:
    def __init__(self, root=None, extra=None):
        self.root = root or os.path.join(REPO, "src")
        self.modules = {}
        self.names, self.pairs = None, {}
        for base, dirs, files in os.walk(self.root):
            dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self._load(rel, p)
        for name, src in (extra or {}).items():
            self.modules[name] = Module(name, "<%s>" % name, ast.parse(src), src)

    def _load(self, name, p):
        src = open(p, encoding="utf-8").read()
        try:
            tree = ast.parse(src, p)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (p, e))
        self.modules[name] = Module(name, p, tree, src)

    def digest(self):
        h = hashlib.sha1()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode() + b"\0")
        return h.hexdigest()

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError("anchor vanished: module %s" % name)
        return m

    def find(self, qual):
        """'pkg.mod:Class.func' -> (module, class node or None, node)"""
        mn, _, path = qual.partition(":")
        m = self.module(mn)
        body, cls, node = m.tree.body, None, None
        for part in path.split("."):
            node = None
            for n in _flat(body):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                    node = n
            if node is None:
                node = self.renamed(mn, cls, part)
            if node is None and cls is None:
                q = self.moved(m, part)
                if q is not None:
                    return self.find(q + qual[len(mn) + 1 + len(part):])
            if node is None:
                raise AnalysisError("anchor vanished: %s" % qual)
            if isinstance(node, ast.ClassDef):
                cls = node
            body = node.body
        return m, cls, node

    def moved(self, m, name):
        """the function a module imports under this name from another module of the repository"""
        for n in _flat(m.tree.body):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        base = n.module or ""
                        if n.level:
                            up = m.name.split(".")
                            if not m.is_pkg:
                                up = up[:-1]
                            up = up[: len(up) - n.level + 1]
                            base = ".".join(up + ([n.module] if n.module else []))
                        if base in self.modules:
                            return "%s:%s" % (base, a.name)
        return None

    def renamed(self, mn, cls, name):
        """A function of the reference tree which no longer exists under its name: the function of the same
        module (and class) which the reference tree does not have, with the same number of parameters, in the same place
        among several."""
        if self.names is None:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
            self.names = json.load(open(p)) if os.path.exists(p) else {}
        pre = "%s:%s" % (mn, cls.name + "." if cls is not None else "")
        return self._renames(mn, cls, pre)[0].get(name)

    def canonical(self, mn, cls, name):
        """the name a function of the module (or class) has in the reference tree"""
        self.renamed(mn, cls, name)
        pre = "%s:%s" % (mn, cls.name + "." if cls is not None else "")
        return self._renames(mn, cls, pre)[1].get(name, name)

    def _renames(self, mn, cls, pre):
        if pre in self.pairs:
            return self.pairs[pre]
        old, back = {}, {}
        m = self.modules.get(mn)
        if m is not None:
            here = [n for n in _flat(cls.body if cls is not None else m.tree.body) if isinstance(n, ast.FunctionDef)]
            have = {n.name for n in here}
            base = [(k[len(pre):], v) for k, v in self.names.items() if k.startswith(pre) and "." not in k[len(pre):]]
            new = [n for n in here if pre + n.name not in self.names]
            gone = [(k, v) for k, v in base if k not in have]
            for want in {v for _, v in gone}:
                a, b = [k for k, v in gone if v == want], [n for n in new if arity(n) == want]
                if len(a) == len(b):
                    for k, n in zip(a, b):
                        old[k], back[n.name] = n, k
        self.pairs[pre] = old, back
        return old, back

    def functions(self):
        """all (module, class or None, FunctionDef) in the tree, nested included"""
        for name in sorted(self.modules):
            m = self.modules[name]
            stack = [(None, n) for n in m.tree.body]
            while stack:
                c, n = stack.pop(0)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, c, n
                    stack = [(c, x) for x in n.body] + stack
                elif isinstance(n, ast.ClassDef):
                    stack = [(n, x) for x in n.body] + stack
                else:
                    kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt)]
                    stack = [(c, x) for x in kids] + stack


def arity(n):
    a = n.args
    return len(a.posonlyargs) + len(a.args) + len(a.kwonlyargs)


def _flat(body):
    for n in body:
        yield n
        if isinstance(n, (ast.If, ast.Try, ast.With)):
            for f in ("body", "orelse", "finalbody"):
                yield from _flat(getattr(n, f, []))
