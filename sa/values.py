"""Abstract values other than terms."""
from .terms import *


class V:
    pass


class Ref(V):
    """reference to a heap cell"""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return "Ref(%s)" % self.id


class TupV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class FuncV(V):
    __slots__ = ("node", "mod", "cls", "closure", "self_", "qual", "plain")

    def __init__(self, node, mod, cls=None, closure=None, self_=None, qual=None, plain=False):
        self.node, self.mod, self.cls, self.closure, self.self_ = node, mod, cls, closure, self_
        self.qual, self.plain = qual, plain     # plain: without its decorators

    def bind(self, obj):
        return FuncV(self.node, self.mod, self.cls, self.closure, obj, self.qual, self.plain)

    def __repr__(self):
        return "Func(%s)" % self.qual


class ClassV(V):
    __slots__ = ("node", "mod", "qual")

    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual

    def __repr__(self):
        return "Class(%s)" % self.qual


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Mod(%s)" % self.name


class ExtV(V):
    """external (library) object by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class BndV(V):
    """method `name` looked up on a non-repo value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Bnd(%r.%s)" % (self.obj, self.name)


class PartialV(V):
    __slots__ = ("fn", "args", "kws")

    def __init__(self, fn, args, kws):
        self.fn, self.args, self.kws = fn, args, kws


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class IteV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Ite(%r ? %r : %r)" % (self.c, self.a, self.b)


class MatT(V):
    """transposed stack of per-row values: row i is (comps[0][i], comps[1][i], ...)"""
    __slots__ = ("comps",)

    def __init__(self, comps):
        self.comps = list(comps)


class RowCtx:
    """identity of a set of rows in an order, with the label lineage of their index"""
    __slots__ = ("base", "rows", "order", "lineage", "index")

    def __init__(self, base, rows, order, lineage, index):
        self.base, self.rows, self.order, self.lineage, self.index = base, rows, order, lineage, index

    def term(self):
        return mk("rows", self.base, self.rows, self.order)


class SerV(V):
    """per-row values. kind: series (label-aligned), array (positional)"""
    __slots__ = ("ctx", "elem", "kind", "name")

    def __init__(self, ctx, elem, kind="series", name=None):
        self.ctx, self.elem, self.kind, self.name = ctx, elem, kind, name

    def __repr__(self):
        return "Ser<%s>(%s)" % (self.kind, show(self.elem))


class IdxV(V):
    """labels of the rows of a frame (index object / its values)"""
    __slots__ = ("ctx",)

    def __init__(self, ctx):
        self.ctx = ctx


class PosV(V):
    """positions, within the rows of ctx, where elem holds"""
    __slots__ = ("ctx", "elem")

    def __init__(self, ctx, elem):
        self.ctx, self.elem = ctx, elem


class ColsV(V):
    """df.columns"""
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class LocV(V):
    __slots__ = ("ref", "kind")

    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind


class StrV(V):
    """series.str / .dt accessor"""
    __slots__ = ("ser", "kind")

    def __init__(self, ser, kind):
        self.ser, self.kind = ser, kind


# ------------------------------------------------------------- heap cells (immutable)
class ListC:
    """parts: values, or Splice(T)"""
    __slots__ = ("parts", "kind")

    def __init__(self, parts, kind="list"):
        self.parts, self.kind = tuple(parts), kind

    def known(self):
        return not any(isinstance(p, Splice) for p in self.parts)


class Splice:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class DictC:
    """items: ordered list of (key value, value); rest: T or None for unknown content"""
    __slots__ = ("items", "rest")

    def __init__(self, items, rest=None):
        self.items, self.rest = tuple(items), rest


class ObjC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class FrameC:
    __slots__ = ("base", "rows", "cols", "dropped", "only", "order", "index", "lineage")

    def __init__(self, base, rows=TRUE, cols=None, dropped=(), only=None, order=None, index="R", lineage=None):
        self.base, self.rows, self.cols = base, rows, cols or {}
        self.dropped, self.only = frozenset(dropped), only
        self.order = order if order is not None else NONE
        self.index, self.lineage = index, lineage if lineage is not None else base

    def rep(self, **k):
        d = dict(base=self.base, rows=self.rows, cols=self.cols, dropped=self.dropped, only=self.only,
                 order=self.order, index=self.index, lineage=self.lineage)
        d.update(k)
        return FrameC(**d)

    def ctx(self):
        return RowCtx(self.base, self.rows, self.order, self.lineage, self.index)


def col(base, name):
    """row-level value of column `name` of the frame denoted by term `base`"""
    if base.op == "frame":
        key = const(name) if isinstance(name, str) else name
        for k, v in base.args[2]:
            if k is key:
                return v
        return col(base.args[0], name)
    if base.op == "ite":
        return ite(base.args[0], col(base.args[1], name), col(base.args[2], name))
    return mk("col", base, name)
