"""Hash-consed value-graph terms with canonicalising constructors.

A term is a node of the gated value graph built by sa.interp.  Constructors
normalise arithmetic to polynomials over opaque atoms (exact rational
coefficients), comparisons to sign tests of such polynomials, and Boolean
structure to flattened and/or/not.  Two terms that denote the same value up to
those laws are the same object.  `equal` additionally splits on gate conditions.
"""
from fractions import Fraction
import hashlib, math, os, random, sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "dig", "_sz", "_atoms", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(self.dig)

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.dig < o.dig


_TABLE = {}


def _d(a):
    if isinstance(a, T):
        return a.dig
    if isinstance(a, tuple):
        return "(" + ",".join(_d(x) for x in a) + ")"
    return type(a).__name__ + ":" + repr(a)


def mk(op, *args):
    key = op + "|" + "|".join(_d(a) for a in args)
    h = hashlib.sha1(key.encode()).hexdigest()[:24]
    t = _TABLE.get(h)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.dig, t._sz, t._atoms = op, args, h, None, None
        _TABLE[h] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", v)
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, Fraction):
        return mk("num", v)
    if isinstance(v, float):
        if v != v:
            return mk("nan")
        if v in (float("inf"), float("-inf")):
            return mk("inf") if v > 0 else neg(mk("inf"))
        return mk("num", Fraction(repr(v)))
    if v is Ellipsis:
        return mk("ellipsis")
    if isinstance(v, complex):
        return mk("complex", repr(v))
    raise TypeError(v)


TRUE = mk("const", True)
FALSE = mk("const", False)
NONE = mk("const", None)
ZERO = const(0)
ONE = const(1)
PI = mk("pi")


def sym(name):
    return mk("sym", name)


def is_const(t):
    return isinstance(t, T) and t.op in ("const", "num")


def num(t):
    """Fraction value of a numeric constant, else None."""
    if t.op == "num":
        return t.args[0]
    return None


def pyval(t):
    if t.op == "const":
        return t.args[0]
    if t.op == "num":
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    raise ValueError


# ---------------------------------------------------------------- polynomials
MAXTERMS = 60


def _poly(t):
    """term -> dict mono->coef; mono = tuple of (atom, exp)"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((a.dig, e) for a, e in m)


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    return mk("poly", items)


def _mono_mul(m1, m2):
    e = {}
    for a, x in m1 + m2:
        e[a] = e.get(a, 0) + x
    return tuple(sorted(((a, x) for a, x in e.items() if x), key=lambda ax: ax[0].dig))


def add(a, b):
    if "inf" in (a.op, b.op) and (is_const(a) or is_const(b) or a is b):
        return a if a.op == "inf" else b
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(a, f):
    return _mkpoly({m: c * f for m, c in _poly(a).items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _cancel(a, b):
    """a single monomial holding atom P**e (P a multi-term poly, e<0); b = c*P  ->  exact cancellation"""
    pa = _poly(a)
    if len(pa) != 1 or b.op != "poly" or len(b.args[0]) < 2:
        return None
    (m, c), = pa.items()
    for at, e in m:
        if at.op == "poly" and e < 0:
            lead = dict(at.args[0])
            bd = dict(b.args[0])
            if set(lead) == set(bd):
                k0 = next(iter(lead))
                r = bd[k0] / lead[k0]
                if all(bd[k] == r * lead[k] for k in lead):
                    mm = tuple(sorted(((x, y + 1 if x is at else y) for x, y in m if not (x is at and y == -1)), key=lambda ax: ax[0].dig))
                    return _mkpoly({mm: c * r})
    return None


def mul(a, b):
    r = _cancel(a, b) or _cancel(b, a)
    if r is not None:
        return r
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        # keep factored
        x, y = sorted((a, b), key=lambda t: t.dig)
        return mk("bigmul", x, y)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            # re-expand atoms that are polys with positive integer exponent
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    return _reexpand(r)


def _reexpand(r):
    """monomials holding a poly atom with integer exponent >=1 (after cancelling) are expanded"""
    if r.op != "poly":
        return r
    again = None
    for m, c in r.args[0]:
        for a, e in m:
            if a.op == "poly" and e.denominator == 1 and e >= 1:
                again = (m, c, a, e)
                break
        if again:
            break
    if not again:
        return r
    out = ZERO
    for m, c in r.args[0]:
        t = const(c)
        for a, e in m:
            if a.op == "poly" and e.denominator == 1 and 1 <= e <= 4:
                for _ in range(int(e)):
                    t = mul(t, a)
            else:
                t = mul(t, _mkpoly({((a, e),): Fraction(1)}))
        out = add(out, t)
    return out


def _content(d):
    """leading coefficient (by canonical order) used to normalise a multi-term poly"""
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    return items[0][1] if items[0][0] != () or len(items) == 1 else items[1][1]


def _frac_root(f, e):
    """f**e as exact Fraction or None"""
    if f == 0:
        return Fraction(0) if e > 0 else None
    if e.denominator == 1:
        return f ** int(e)
    if f < 0:
        return None
    n = round(float(f.numerator) ** (1.0 / e.denominator))
    d = round(float(f.denominator) ** (1.0 / e.denominator))
    if n ** e.denominator == f.numerator and d ** e.denominator == f.denominator:
        return Fraction(n, d) ** int(e.numerator)
    return None


def pow_(a, b):
    e = num(b)
    if e is None:
        if a is ONE:
            return ONE
        if num(a) is not None and num(a) > 0:
            # c**p : pull out additive numeric part is not needed; keep canonical
            return mk("powx", a, b)
        return mk("powx", a, b)
    if e == 0:
        return ONE
    if e == 1:
        return a
    d = _poly(a)
    if not d:
        return ZERO if e > 0 else mk("powx", a, b)
    if len(d) == 1:
        (m, c), = d.items()
        # base powx / sqrt etc: (x^p)^e = x^(pe)  (positive reals assumed; even powers then roots kept as abs)
        cr = _frac_root(c, e)
        bad = any(x.numerator % 2 == 0 and x.denominator == 1 and (x * e).numerator % 2 == 1 and e.denominator == 2
                  for _, x in m)
        if cr is not None and not bad:
            mm = []
            for at, x in m:
                mm.append((at, x * e))
            r = _mkpoly({tuple(sorted(((p, q) for p, q in mm if q), key=lambda ax: ax[0].dig)): cr})
            return _reexpand(r)
        if cr is None and not bad and c > 0:
            base = const(c)
            r = _mkpoly({tuple(sorted([(at, x * e) for at, x in m], key=lambda ax: ax[0].dig)): Fraction(1)})
            return mul(r, _mkpoly({((base, e),): Fraction(1)}))
        if bad and len(m) == 1 and cr is not None:
            at, x = m[0]
            inner = pow_(at, const(abs(x * e)))
            r = absx(inner)
            if x * e < 0:
                r = pow_(r, const(-1))
            return mul(const(cr), r)
        return _mkpoly({((a, e),): Fraction(1)})
    if e.denominator == 1 and 2 <= e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    lead = _content(d)
    al = abs(lead)
    if lead < 0 and e.denominator == 1:
        al = lead
    ar = _frac_root(al, e)
    if ar is None:
        al, ar = Fraction(1), Fraction(1)
    base = scale(a, 1 / al)
    if base.op != "poly":
        return mul(const(ar), pow_(base, b))
    return _mkpoly({((base, e),): ar})


def absx(a):
    n = num(a)
    if n is not None:
        return const(abs(n))
    if a.op == "poly" and len(a.args[0]) == 1:
        m, c = a.args[0][0]
        if c != 1:
            return mul(const(abs(c)), absx(scale(a, 1 / c)))
    if a.op == "poly":
        # sign-normalise
        c = _content(dict(a.args[0]))
        if c < 0:
            a = neg(a)
    if a.op == "call" and a.args[0] in ("abs", "sqrt", "exp"):
        return a
    return mk("call", "abs", a)


EVEN = {"cos", "cosh"}
ODD = {"sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arctanh", "arcsinh"}


def parity(nm, a):
    """even and odd functions of a sign-normalised argument"""
    if a is ZERO and nm in ODD:
        return ZERO
    if a.op == "poly" and _content(dict(a.args[0])) < 0:
        r = mk("call", nm, neg(a))
        return r if nm in EVEN else neg(r)
    return mk("call", nm, a)


def div(a, b):
    n = num(b)
    if n is not None and n != 0:
        return scale(a, 1 / n)
    return mul(a, pow_(b, const(-1)))


# ---------------------------------------------------------------- booleans
_not_memo = {}


def not_(a):
    r = _not_memo.get(a.dig)
    if r is None:
        r = _not_memo[a.dig] = _not(a)
        _not_memo.setdefault(r.dig, a)
    return r


def _not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk("not", a)


_and_memo, _or_memo = {}, {}


def and_(*xs):
    k = tuple(x.dig for x in xs)
    r = _and_memo.get(k)
    if r is None:
        r = _and_memo[k] = _and(*xs)
    return r


def or_(*xs):
    k = tuple(x.dig for x in xs)
    r = _or_memo.get(k)
    if r is None:
        r = _or_memo[k] = _or(*xs)
    return r


def _and(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            s[y.dig] = y
    for y in list(s.values()):
        if not_(y).dig in s:
            return FALSE
    same = [m for m in map(_samemembers, s.values()) if m]
    if same:
        for k, y in list(s.items()):
            z = y.args[0] if y.op == "not" else y
            if z.op == "eq" and z.args[0].op == "len" and z.args[1].op == "len" and frozenset(a.args[0].dig for a in z.args) in same:
                if y.op == "not":
                    return FALSE
                del s[k]
    # absorption: a and (a or b) = a ; unit propagation a and (~a or b) = a and b
    changed = True
    while changed:
        changed = False
        for k, y in list(s.items()):
            if y.op == "or":
                keep = []
                sat = False
                for z in y.args:
                    if z.dig in s and z.dig != k:
                        sat = True
                        break
                    if not_(z).dig in s:
                        continue
                    keep.append(z)
                if sat:
                    del s[k]
                    changed = True
                elif len(keep) < len(y.args):
                    del s[k]
                    n = or_(*keep)
                    if n is FALSE:
                        return FALSE
                    for w in (n.args if n.op == "and" else (n,)):
                        s[w.dig] = w
                    changed = True
    # x == 'a' and x == 'b'  -> False ; x=='a' and x!='b' -> x=='a'
    s = _eqtheory(s, True)
    if s is None:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk("and", *sorted(s.values(), key=lambda t: t.dig))


def _samemembers(x):
    """x says that a column of two tables has the same members as often: the two tables (which are then as long)"""
    if x.op == "eq" and all(a.op == "call" and a.args[0] == "collections.Counter" for a in x.args):
        r = [a.args[1] for a in x.args]
        if all(a.op == "item" for a in r) and r[0].args[1] is r[1].args[1]:
            return frozenset(a.args[0].dig for a in r)


def _or(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args if x.op == "or" else (x,)):
            s[y.dig] = y
    for y in list(s.values()):
        if not_(y).dig in s:
            return TRUE
    same = [m for m in (_samemembers(y.args[0]) for y in s.values() if y.op == "not") if m]
    if same:
        for k, y in list(s.items()):
            z = y.args[0] if y.op == "not" else y
            if z.op == "eq" and z.args[0].op == "len" and z.args[1].op == "len" and frozenset(a.args[0].dig for a in z.args) in same:
                if y.op != "not":
                    return TRUE
                del s[k]
    changed = True
    while changed:
        changed = False
        for k, y in list(s.items()):
            if y.op == "and":
                keep = []
                sat = False
                for z in y.args:
                    if z.dig in s and z.dig != k:
                        sat = True
                        break
                    if not_(z).dig in s:
                        continue
                    keep.append(z)
                if sat:
                    del s[k]
                    changed = True
                elif len(keep) < len(y.args):
                    del s[k]
                    n = and_(*keep)
                    if n is TRUE:
                        return TRUE
                    for w in (n.args if n.op == "or" else (n,)):
                        s[w.dig] = w
                    changed = True
    # factor common conjuncts: (p and x) or (p and y) = p and (x or y)
    ands = [y for y in s.values()]
    if len(ands) > 1:
        common = None
        for y in ands:
            ks = {z.dig: z for z in (y.args if y.op == "and" else (y,))}
            common = ks if common is None else {k: z for k, z in common.items() if k in ks}
            if not common:
                break
        if common:
            rest = [and_(*[z for z in (y.args if y.op == "and" else (y,)) if z.dig not in common]) for y in ands]
            return and_(*common.values(), or_(*rest))
    # (a and c) or (a and not c) = a   (pairs of conjunctions differing in one literal)
    if len(ands) <= 10:
        for i in range(len(ands)):
            for j in range(i + 1, len(ands)):
                r = _resolve(ands[i], ands[j])
                if r is not None:
                    rest = [y for k, y in enumerate(ands) if k not in (i, j)]
                    return or_(r, *rest)
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk("or", *sorted(s.values(), key=lambda t: t.dig))


def _resolve(a, b):
    A = {x.dig: x for x in (a.args if a.op == "and" else (a,))}
    B = {x.dig: x for x in (b.args if b.op == "and" else (b,))}
    if len(A) != len(B):
        return None
    da = [x for k, x in A.items() if k not in B]
    db = [x for k, x in B.items() if k not in A]
    if len(da) == 1 and len(db) == 1 and not_(da[0]) is db[0]:
        return and_(*[x for k, x in A.items() if k in B])
    return None


def _eqtheory(s, conj):
    pos = {}
    for y in s.values():
        if y.op == "eq" and is_const(y.args[1]):
            k = y.args[0].dig
            if k in pos and pos[k].args[1] is not y.args[1]:
                return None
            pos[k] = y
    if not pos:
        return s
    out = {}
    for k, y in s.items():
        if y.op == "not" and y.args[0].op == "eq" and is_const(y.args[0].args[1]):
            q = pos.get(y.args[0].args[0].dig)
            if q is not None:
                if q.args[1] is y.args[0].args[1]:
                    return None
                continue
        out[k] = y
    return out


def _drop_empty_ranges(c, a):
    """list term `a` without its parts that run over range(n), where c is 0 < n"""
    def empty(x):
        if x.op in ("map", "flatmap") and x.args[0].op == "loop":
            r = x.args[0].args[0]
            if r.op == "call" and r.args[0] == "range" and len(r.args) == 2:
                return lt(ZERO, r.args[1]) is c
        return False
    if empty(a):
        return mk("list")
    if a.op == "lcat" and any(empty(x) for x in a.args[1:]):
        return lcat(a.args[0], *[x for x in a.args[1:] if not empty(x)])
    return a


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if isbool(a) and isbool(b):
        if b is c:
            return and_(c, a)
        if a is c:
            return or_(c, b)
        if c.op != "and" and c.op != "or":
            nc = not_(c)
            if a is nc:
                return and_(nc, b)
            if b is nc:
                return or_(nc, a)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y);  ite(c, ite(d,x,y), y) = ite(c and d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    # taking a member out where it is there: the others
    if a.op == "mut" and a.args[0] == "remove" and a.args[1] is b and len(a.args) == 3 and c is mk("in", a.args[2], b):
        L = mk("loop", b, 0)
        x = mk("item", b, mk("idx", L))
        return bind("map", L, x, not_(eq(x, a.args[2])))
    # a loop over range(n) guarded by 0 < n needs no guard
    if c.op in ("lt0", "lt") and (a.op in ("lcat", "map", "flatmap")):
        r = _drop_empty_ranges(c, a)
        if r is not a and r is b:
            return a
    if c.op == "or" or (c.op == "and" and all(x.op == "not" for x in c.args)):
        nc = not_(c)
        if nc.op == "and" and sum(x.op == "not" for x in nc.args) < sum(x.op == "not" for x in c.args):
            return mk("ite", nc, b, a)
    return mk("ite", c, a, b)


BOOLOPS = {"not", "and", "or", "lt", "eq", "nonempty", "truthy", "in", "isnan", "forall", "exists", "issub", "exc", "allrows", "anyrows"}


BOOLCALLS = {"isclose", "isfinite", "isinf", "signbit", "numpy.isfinite", "numpy.isinf", "os.path.exists", "os.path.isfile", "os.path.isdir"}


def isbool(t):
    if t.op in BOOLOPS or t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return isbool(t.args[1]) and isbool(t.args[2])
    return t.op == "call" and t.args[0] in BOOLCALLS


def _nonneg_len(p):
    """p == c*len(x) + k ?  returns (x, c, k)"""
    d = _poly(p)
    if len(d) > 2:
        return None
    k = d.get((), Fraction(0))
    rest = [(m, c) for m, c in d.items() if m != ()]
    if len(rest) != 1:
        return None
    m, c = rest[0]
    if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "len":
        return None
    return m[0][0].args[0], c, k


def lt0(p):
    """p < 0"""
    n = num(p)
    if n is not None:
        return TRUE if n < 0 else FALSE
    d = _poly(p)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][0].op == "inf" and m[0][1] == 1:
            return TRUE if c < 0 else FALSE
        if all(x.numerator % 2 == 0 and x.denominator == 1 for _, x in m) and c > 0:
            return FALSE
        if len(m) == 1 and (m[0][0].op == "call" and m[0][0].args[0] in ("abs",) or m[0][0].op == "len") and c > 0:
            return FALSE
    L = _nonneg_len(p)
    if L:
        x, c, k = L
        if c < 0 and 0 <= k < -c:     # len > k/|c| with 0<=k/|c|<1  <=> len>=1
            return rebuild("nonempty", (x,))
        if c > 0 and -c <= k < 0 and -k / c <= 1:     # len < q, 0<q<=1
            return not_(rebuild("nonempty", (x,)))
        if c < 0 and k < 0:
            return TRUE
        if c > 0 and k >= 0:
            return FALSE
    # positive scaling
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    lead = abs(items[0][1])
    if lead != 1:
        p = scale(p, 1 / lead)
    return mk("lt", p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return not_(lt(a, b))


NEVER_NONE = {"int", "float", "str", "len", "abs", "bool", "list", "set", "tuple", "round", ".lower", ".upper", ".strip", ".split", ".casefold"}


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return TRUE if pyval(a) == pyval(b) else FALSE
        except ValueError:
            pass
        return FALSE
    if a.op == "ite" and (is_const(b) or is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (is_const(a) or is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if isbool(a) and b in (TRUE, FALSE):
        return a if b is TRUE else not_(a)
    if isbool(b) and a in (TRUE, FALSE):
        return b if a is TRUE else not_(b)
    if a.op == "const":
        a, b = b, a
    if a.op == "num":
        a, b = b, a
    if a.op == "call" and a.args[0] == "type" and len(a.args) == 2 and b.op == "ext" and b.args[0] in ("builtins.float", "builtins.list", "builtins.str", "builtins.dict"):
        return mk("truthy", mk("call", "isinstance", a.args[1], b))
    if b.op == "call" and b.args[0] == "type" and a.op == "ext":
        return eq(b, a)
    if b is NONE and a.op == "draw":
        return FALSE
    if b is NONE and a.op == "item" and a.args[0].op == "ext" and a.args[0].args[0] == "os.environ":
        return not_(mk("in", a.args[1], a.args[0]))
    if b.op == "num" and b.args[0] == -1 and a.op == "call" and a.args[0] == ".find" and len(a.args) == 3:
        return not_(mk("in", a.args[2], a.args[1]))
    if b.op == "num" and a.op == "call" and a.args[0] == ".count" and a.args[1].op == "list":
        # none, or all, of the members
        if b.args[0] == 0:
            return and_(*[not_(eq(x, a.args[2])) for x in a.args[1].args])
        if b.args[0] == len(a.args[1].args):
            return and_(*[eq(x, a.args[2]) for x in a.args[1].args])
    if b.op == "const" and isinstance(b.args[0], str) and a.op == "item" and a.args[1].op == "slice" and a.args[1].args[2] is NONE:
        # the first or last characters of a string
        lo, hi = a.args[1].args[:2]
        n = len(b.args[0])
        if n and hi is NONE and num(lo) == -n:
            return mk("truthy", mk("call", ".endswith", a.args[0], b))
        if n and lo in (NONE, ZERO) and num(hi) == n:
            return mk("truthy", mk("call", ".startswith", a.args[0], b))
    if b.op == "const":
        if a.op == "concat" and isinstance(b.args[0], str):
            ps, w = list(a.args), b.args[0]
            if ps[0].op == "const":
                if not w.startswith(ps[0].args[0]):
                    return FALSE
                w = w[len(ps[0].args[0]):]
                ps = ps[1:]
            if ps and ps[-1].op == "const":
                if not w.endswith(ps[-1].args[0]):
                    return FALSE
                w = w[:len(w) - len(ps[-1].args[0])]
                ps = ps[:-1]
            if len(ps) == 1 and ps[0].op != "const":
                return eq(ps[0], const(w))
            at = 0
            for q in ps:
                if q.op == "const" and isinstance(q.args[0], str):
                    # the fixed parts occur in their order
                    at = w.find(q.args[0], at)
                    if at < 0:
                        return FALSE
                    at += len(q.args[0])
            if len(ps) < len(a.args):
                return eq(concat(*ps), const(w)) if ps else (TRUE if w == "" else FALSE)
        if b is NONE and a.op == "first" and a.args[-1].op == "idx":
            return FALSE
        if b is NONE and a.op == "call" and a.args[0] == "()" and len(a.args) > 1 and (a.args[1] is NONE or a.args[1].op == "item"):
            return FALSE  # an instance of a registered class (calling None does not return)
        if b is NONE and (a.op in ("poly", "num", "idx", "list", "tuple", "dict", "concat", "frame") or a.op == "call" and a.args[0] in NEVER_NONE):
            return FALSE
        if a.op in ("list", "tuple", "dict", "num", "poly") and isinstance(b.args[0], (str, bool)):
            if a.op != "poly" and a.op != "num":
                return FALSE
        return mk("eq", a, b)
    if a.op == "call" and b.op == "call" and a.args[0] == b.args[0] and a.args[0] in ("sorted", "collections.Counter") and len(a.args) == len(b.args) == 2:
        # the same members, as often
        x, y = [z.args[1] for z in (a, b)]
        while x.op == y.op == "attr" and x.args[1] == y.args[1] == "values":
            x, y = x.args[0], y.args[0]
        x, y = sorted((x, y), key=lambda t: t.dig)
        return mk("eq", mk("call", "collections.Counter", x), mk("call", "collections.Counter", y))
    nonnum = {"concat", "list", "tuple", "dict"}
    if a.op in nonnum or b.op in nonnum:
        if a.op == "list" and b.op == "list" and all(is_const(x) for x in a.args + b.args):
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.dig)
        return mk("eq", x, y)
    p = sub(a, b)
    n = num(p)
    if n is not None:
        return TRUE if n == 0 else FALSE
    L = _nonneg_len(p)
    if L and L[2] == 0:
        return not_(rebuild("nonempty", (L[0],)))
    d = _poly(p)
    # normalise: if one mono with coef and a constant: atom == const
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    nonconst = [(m, c) for m, c in items if m != ()]
    if len(nonconst) == 1 and len(nonconst[0][0]) == 1 and nonconst[0][0][0][1] == 1:
        m, c = nonconst[0]
        k = d.get((), Fraction(0))
        return mk("eq", m[0][0], const(-k / c))
    if len(items) == 2 and not any(m == () for m, c in items) and items[0][1] == -items[1][1] \
            and all(len(m) == 1 and m[0][1] == 1 for m, c in items):
        x, y = sorted((items[0][0][0][0], items[1][0][0][0]), key=lambda t: t.dig)
        return mk("eq", x, y)
    lead = nonconst[0][1]
    p = scale(p, 1 / lead)
    return mk("eq", p, ZERO)


def unmap(t):
    """a list made member by member from the same members of arrays is the arrays' own arithmetic"""
    L, x = t.args[:2]
    if L.args[0].op in ("call", "while") and (L.args[0].op == "while" or L.args[0].args[0] == "range"):
        return t
    i = mk("idx", L)
    y = subst(x, lambda z: z.args[0] if z.op == "item" and z.args[1] is i else None)
    return t if contains(y, lambda z: z is L or z.op in ("idx", "mu", "member") and L in z.args) else y


def dot(x, y):
    """product of vectors (or matrices)"""
    if x is y and x.op not in ("list", "tuple", "call", "map") or x is y and x.op == "call" and x.args[0] in ("cross",):
        return mk("call", "agg.sum", mul(x, x))
    return mk("call", "dot", x, y)


def norm(x):
    return pow_(dot(x, x), const(0.5)) if dot(x, x).args[0] == "agg.sum" else mk("call", "numpy.linalg.norm", x)


def clip(x, lo, hi):
    """x kept between two bounds (None: no bound)"""
    if lo is not NONE:
        x = ite(lt(x, lo), lo, x)
    if hi is not NONE:
        x = ite(lt(hi, x), hi, x)
    return x


def modulo(x, y):
    """x mod y; whole multiples of y in x do not matter"""
    if x.op == "poly" and y.op in ("num", "poly"):
        dy = _poly(y)
        if len(dy) == 1:
            (m, c), = dy.items()
            k = math.floor(_poly(x).get(m, 0) / c)
            if k:
                x = sub(x, mul(const(k), y))
    return mk("call", "mod", x, y)


def anyall(which, t):
    """some / every member of the truth-valued array t"""
    if which == "all":
        return not_(anyall("any", not_(t)))
    return FALSE if t is FALSE else mk("truthy", mk("call", ".any", t))


LISTS = {".fetchall", ".split", ".splitlines", ".rsplit", ".readlines", "glob.glob", "os.listdir", "sorted", "list", ".keys", ".items", ".values"}


def truth(t):
    if is_const(t):
        return TRUE if pyval(t) else FALSE
    if isbool(t):
        return t
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if t.args else FALSE
    if t.op == "lcat":
        return or_(*[truth(x) for x in t.args[1:]])
    if t.op == "len":
        return rebuild("nonempty", (t.args[0],))
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "poly":
        return not_(eq(t, ZERO))
    if t.op == "call" and t.args[0] in LISTS:
        return rebuild("nonempty", (t,))
    if t.op == "draw" and t.args[1] == "default_rng" or t.op == "class" or t.op == "item" and t.args[0].op == "global" and t.args[0].args[0].endswith("_METHODS"):
        return TRUE         # a generator, a class
    return mk("truthy", t)


# ---------------------------------------------------------------- traversal
def subst(t, f, memo=None):
    """rebuild t bottom-up; f(node)-> replacement or None (checked top-down first)."""
    if memo is None:
        memo = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = memo.get(x.dig)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            if all(p is q or p == q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
        memo[x.dig] = r
        return r

    return go(t)


def rebuild(op, args):
    if op == "poly":
        out = ZERO
        for m, c in args[0]:
            t = const(c)
            for a, e in m:
                t = mul(t, pow_(a, const(e)))
            out = add(out, t)
        return out
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "ite":
        return ite(truth(args[0]) if not isbool(args[0]) else args[0], args[1], args[2])
    if op == "lt":
        return lt0(args[0])
    if op == "eq":
        return eq(args[0], args[1])
    if op == "truthy":
        return truth(args[0])
    if op == "powx":
        return pow_(args[0], args[1])
    if op == "call" and args[0] == "abs" and len(args) == 2:
        return absx(args[1])
    if op == "call" and len(args) == 2 and isinstance(args[0], str) and (args[0] in EVEN or args[0] in ODD):
        return parity(args[0], args[1])
    if op == "dict" and any(a.op == "rest" and a.args[0].op == "dict" for a in args):
        return rebuild("dict", tuple(y for a in args for y in (a.args[0].args if a.op == "rest" and a.args[0].op == "dict" else (a,))))
    if op == "call" and any(isinstance(a, T) and a.op == "kw" and (a.args[1].op == "missing" or a.args[0] == "**" and a.args[1].op == "dict" and not a.args[1].args) for a in args):
        return rebuild(op, tuple(a for a in args if not (isinstance(a, T) and a.op == "kw" and (a.args[1].op == "missing" or a.args[0] == "**" and a.args[1].op == "dict" and not a.args[1].args))))
    if op == "call" and len(args) == 3 and args[0] in (".endswith", ".startswith") and args[1].op == args[2].op == "const":
        v, w = args[1].args[0], args[2].args[0]
        if isinstance(v, str) and isinstance(w, str):
            return TRUE if getattr(v, args[0][1:])(w) else FALSE
    if op == "call" and len(args) == 2 and isinstance(args[1], T) and args[1].op == "const":
        v = args[1].args[0]
        if args[0] == "str" and isinstance(v, (str, bool)):
            return const(str(v))
        if args[0] in (".strip", ".lower", ".upper") and isinstance(v, str):
            return const(getattr(v, args[0][1:])())
    if op == "exists" and args[1] is FALSE:
        return FALSE
    if op == "exists" and args[0].op == "loop" and args[0].args[0].op == "map" and len(args[0].args[0].args) == 3 and args[0].args[0].args[2] is TRUE:
        L = args[0]
        Lm, x, _ = L.args[0].args
        if Lm.args[0].op != "while":
            L2 = mk("loop", Lm.args[0], L.args[1])
            x = subst(x, lambda y: L2 if y is Lm else None)
            at, i, i2 = mk("item", L.args[0], mk("idx", L)), mk("idx", L), mk("idx", L2)
            c = subst(args[1], lambda y: x if y is at else i2 if y is i else None)
            if not contains(c, lambda y: y is L):
                return bind("exists", L2, c) if contains(c, lambda y: y is L2) else and_(c, rebuild("nonempty", (Lm.args[0],)))
    if op == "truthy" and args[0].op == "call" and args[0].args[0] == ".any" and args[0].args[1] is FALSE:
        return FALSE
    if op == "item" and args[0].op == "store" and len(args[0].args) == 3:
        d, k, v = args[0].args
        if k is args[1]:
            return v
        if is_const(k) and is_const(args[1]):
            return rebuild("item", (d, args[1]))
    if op == "bigmul":
        return mul(args[0], args[1])
    if op == "concat":
        return concat(*args)
    if op == "lcat":
        return lcat(*args)
    if op == "columns" and args[0].op == "ite":
        c, a, b = args[0].args
        return ite(c, rebuild(op, (a,)), rebuild(op, (b,)))
    if op == "len" and args[0].op == "ite" and args[0].args[1].op in ("columns", "ite") and args[0].args[2].op in ("columns", "ite"):
        c, a, b = args[0].args
        return ite(c, rebuild(op, (a,)), rebuild(op, (b,)))
    if op == "nonempty" and args[0].op == "rows":
        return some_row(args[0].args[0], args[0].args[1])
    if op == "anyrows":
        return some_row(args[0].args[0], and_(args[0].args[1], truth(args[1])))
    if op == "allrows":
        return not_(some_row(args[0].args[0], and_(args[0].args[1], not_(truth(args[1])))))
    if op == "nonempty" and args[0].op == "map" and len(args[0].args) >= 3:
        L, _, c = args[0].args[:3]
        if c is TRUE and L.args[0].op != "while":
            return rebuild("nonempty", (L.args[0],))
        if c is not TRUE:
            return rebuild("exists", (L, c)) if c is FALSE else bind("exists", L, c)
    if op == "nonempty" and args[0].op in ("list", "tuple", "dict", "set", "lcat"):
        return truth(args[0])
    return mk(op, *args)


def _alternatives(c):
    """disjuncts of c, distributing over `and` while that stays small"""
    if c.op == "or":
        return [y for x in c.args for y in _alternatives(x)]
    if c.op == "and":
        for i, x in enumerate(c.args):
            if x.op == "or":
                rest = [y for j, y in enumerate(c.args) if j != i]
                parts = [and_(y, *rest) for y in x.args]
                if len(parts) > 12:
                    break
                return [y for x in parts for y in _alternatives(x)]
    return [c]


def some_row(base, c):
    """some row of table `base` satisfies c (whatever the order); split over the alternatives of c"""
    if c is FALSE:
        return FALSE
    xs = _alternatives(c)
    if len(xs) > 64:
        xs = [c]
    return or_(*[mk("nonempty", mk("rows", base, x, NONE)) for x in xs])


def lcat(kind, *segs):
    """concatenation of list terms; known segments are list(...)"""
    out = []
    for p in segs:
        for q in (p.args[1:] if p.op == "lcat" and p.args[0] == kind else (p,)):
            if q.op == kind:
                if not q.args:
                    continue
                if out and out[-1].op == kind:
                    out[-1] = mk(kind, *(out[-1].args + q.args))
                    continue
            out.append(q)
    if not out:
        return mk(kind)
    if len(out) == 1:
        return out[0]
    return mk("lcat", kind, *out)


def concat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "concat" else (p,)):
            if len(parts) > 1 and q.op == "call" and q.args[0] == "str" and len(q.args) == 2:
                q = q.args[1]
            if q.op == "const" and isinstance(q.args[0], str):
                if q.args[0] == "":
                    continue
                if out and out[-1].op == "const" and isinstance(out[-1].args[0], str):
                    out[-1] = const(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("concat", *out)


def atoms_of(c, acc=None):
    """boolean atoms of a boolean term"""
    if acc is None:
        acc = {}
    if c.op in ("and", "or", "not"):
        for x in c.args:
            atoms_of(x, acc)
    elif c.op == "ite" and isbool(c):
        for x in c.args:
            atoms_of(x, acc)
    elif c not in (TRUE, FALSE):
        acc[c.dig] = c
    return acc


_gate_memo = {}


def gates(t):
    """all gate-condition atoms (of ite conditions and boolean structure) inside t"""
    r = _gate_memo.get(t.dig)
    if r is not None:
        return r
    acc = {}
    if t.op in ("and", "or", "not"):
        atoms_of(t, acc)
        for a in list(acc.values()):
            for x in a.args:
                _g_arg(x, acc)
    else:
        if t.op == "ite":
            atoms_of(t.args[0], acc)
            for a in list(acc.values()):
                for x in a.args:
                    _g_arg(x, acc)
        for x in (t.args[1:] if t.op == "ite" else t.args):
            _g_arg(x, acc)
    _gate_memo[t.dig] = acc
    return acc


def _g_arg(x, acc):
    if isinstance(x, T):
        acc.update(gates(x))
    elif isinstance(x, tuple):
        for y in x:
            _g_arg(y, acc)


FLAGS = set()       # parameters whose default is True or False


def assume(t, assign):
    """specialise t under atom->bool assignment (dict dig->bool).  Also uses eq-theory: x=='a' True makes x=='b' False"""
    eqs, some, whole = {}, set(), {}
    asg = dict(assign)
    for d, v in assign.items():
        a = _TABLE.get(d)
        if a is not None and a.op == "eq" and is_const(a.args[1]) and v:
            eqs[a.args[0].dig] = a.args[1]
            if a.args[1] is NONE or a.args[1].op == "const" and isinstance(a.args[1].args[0], str):
                whole[a.args[0].dig] = a.args[1]
        if a is not None and a.op == "truthy":
            if v:
                some.add(a.args[0].dig)
            if a.args[0].op == "sym" and a.args[0].args[0] in FLAGS:
                whole[a.args[0].dig] = TRUE if v else FALSE

    def f(x):
        v = asg.get(x.dig)
        if v is not None:
            return TRUE if v else FALSE
        if x.dig in whole:
            return whole[x.dig]
        if some and x.op == "eq" and x.args[0].dig in some and is_const(x.args[1]) and not pyval(x.args[1]):
            return FALSE
        if x.op == "eq" and is_const(x.args[1]):
            q = eqs.get(x.args[0].dig)
            if q is not None:
                return eq(q, x.args[1])
        return None

    return subst(t, f)


class Undecided(Exception):
    pass


def nowhere(t):
    """part of nothing: the reference itself does not get past it"""
    return t.op in ("attr", "item") and t.args[0] is NONE


INTEGRAL = {"int", "len", "round", ".count", ".find", ".nunique"}


def integral(t):
    return t.op == "len" or t.op == "call" and t.args[0] in INTEGRAL and (t.args[0] != "round" or len(t.args) == 2)


def infeasible(path):
    """no value satisfies the comparisons with constants assumed on the path (intervals per linear form)"""
    iv = {}

    def form(p):
        """p as c*(q) + k with q normalised"""
        d = dict(_poly(p))
        k = d.pop((), Fraction(0))
        if not d:
            return None
        lead = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))[0][1]
        return _mkpoly({m: c / lead for m, c in d.items()}), lead, k

    for a, v in path:
        if a.op == "lt":
            f = form(a.args[0])
            if f is None:
                continue
            q, c, k = f
            lo, hi, no = iv.setdefault(q.dig, [[None, False], [None, False], set()])
            b = -k / c
            # c*q + k < 0 (or not): an upper bound when c > 0 == v
            if (c > 0) == v:
                if hi[0] is None or b < hi[0] or b == hi[0] and v:
                    hi[:] = [b, v]
            elif lo[0] is None or b > lo[0] or b == lo[0] and v:
                lo[:] = [b, v]
        elif a.op == "eq" and num(a.args[1]) is not None:
            f = form(a.args[0])
            if f is None:
                continue
            q, c, k = f
            lo, hi, no = iv.setdefault(q.dig, [[None, False], [None, False], set()])
            b = (num(a.args[1]) - k) / c
            if not v:
                no.add(b)
                continue
            if hi[0] is None or b < hi[0]:
                hi[:] = [b, False]
            if lo[0] is None or b > lo[0]:
                lo[:] = [b, False]
            if lo[0] is not None and lo[0] > b or hi[0] is not None and hi[0] < b or lo == [b, True] or hi == [b, True]:
                return True
    for d, (lo, hi, no) in iv.items():
        if lo[0] is None or hi[0] is None:
            continue
        if lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or hi[1] or lo[0] in no):
            return True
        t = _TABLE.get(d)
        if t is not None and integral(t) and hi[0] - lo[0] < 64:
            import math
            i = math.floor(lo[0]) + 1 if lo[1] or lo[0].denominator != 1 else int(lo[0])
            ok = False
            while i < hi[0] or i == hi[0] and not hi[1]:
                if Fraction(i) not in no:
                    ok = True
                i += 1
            if not ok:
                return True
    return False


def equal(a, b, budget=4000, assume_=None):
    """decide equality by splitting on gate atoms. returns (True, None) or (False, (path, x, y))"""
    memo = {}
    count = [0]
    pruned = [0]

    def go(x, y, path):
        if x is y:
            return None
        k = (x.dig, y.dig)
        if k in memo:
            return memo[k]
        count[0] += 1
        if count[0] > budget:
            raise Undecided("gate splitting budget exceeded")
        g = {}
        g.update(gates(x))
        g.update(gates(y))
        if isbool(x) and isbool(y):
            atoms_of(x, g)
            atoms_of(y, g)
        if not g:
            if infeasible(path) or contains(y, nowhere):
                pruned[0] += 1
                return None
            r = (path, x, y)
            memo[k] = r
            return r
        before = pruned[0]
        # pick an atom with no gates inside it; those inside other atoms first, so that no later
        # specialisation turns another atom into one already decided
        inner = {}
        for t in g.values():
            inner.update(gates_inside(t))
        while inner:
            g, inner2 = inner, {}
            for t in g.values():
                inner2.update(gates_inside(t))
            inner = inner2
        cand = sorted(g.values(), key=lambda t: (len(gates_inside(t)), tsize(t), t.dig))
        at = cand[0]
        for v in (True, False):
            x1, y1 = assume(x, {at.dig: v}), assume(y, {at.dig: v})
            r = go(x1, y1, path + ((at, v),))
            if r is not None:
                memo[k] = r
                return r
        if pruned[0] == before:
            memo[k] = None
        return None

    try:
        r = go(a, b, ())
    except Undecided:
        # too many cases to go through: a case picked at random in which they differ settles it
        r = probe(a, b)
        if r is None:
            raise
    return (r is None), r


def probe(a, b, tries=300):
    """look for a case in which two terms differ: (path, x, y) or None"""
    rnd = random.Random(0)
    for _ in range(tries):
        x, y, path = a, b, ()
        while x is not y:
            g = {}
            g.update(gates(x))
            g.update(gates(y))
            if isbool(x) and isbool(y):
                atoms_of(x, g)
                atoms_of(y, g)
            if not g:
                if infeasible(path) or contains(y, nowhere):
                    break
                return (path, x, y)
            inner = g
            while inner:
                g, inner = inner, {}
                for t in g.values():
                    inner.update(gates_inside(t))
            at = min(g.values(), key=lambda t: (len(gates_inside(t)), tsize(t), t.dig))
            v = rnd.random() < 0.5
            x, y = assume(x, {at.dig: v}), assume(y, {at.dig: v})
            path += ((at, v),)
    return None


def open_gates(c, limit=3):
    """a condition with alternatives inside its comparisons as alternatives of conditions"""
    for _ in range(limit):
        g = None
        for x in walk(c):
            if x.op in ("lt", "eq") and g is None:
                for y in walk(x):
                    if y.op == "ite" and not contains(y.args[0], lambda z: z.op == "ite"):
                        g = y.args[0]
                        break
        if g is None:
            return c
        n = not_(g)

        def take(v):
            return subst(c, lambda x: (x.args[1] if (x.args[0] is g) == v else x.args[2]) if x.op == "ite" and (x.args[0] is g or x.args[0] is n) else None)
        c = or_(and_(g, take(True)), and_(n, take(False)))
    return c


def gates_inside(t):
    acc = {}
    for x in t.args:
        _g_arg(x, acc)
    return acc


def tsize(t):
    if t._sz is None:
        n = 1

        def go(x):
            if isinstance(x, T):
                return tsize(x)
            if isinstance(x, tuple):
                return sum(go(y) for y in x)
            return 0

        for x in t.args:
            n += go(x)
        t._sz = min(n, 10 ** 9)
    return t._sz


def walk(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.dig in seen:
                continue
            seen[x.dig] = x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen.values()


def loop_names(t):
    """t with the names of loop-carried variables replaced by numbers in order of occurrence"""
    names, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.dig in seen:
                continue
            seen.add(x.dig)
            if x.op in ("mu", "loopval") and isinstance(x.args[1], str):
                names.setdefault(x.args[1], "v%d" % len(names))
            stack.extend(reversed(x.args))
        elif isinstance(x, tuple):
            stack.extend(reversed(x))
    if not names:
        return t
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.dig)
        if r is None:
            args = tuple(go(y) for y in x.args)
            if x.op in ("mu", "loopval") and isinstance(args[1], str):
                args = (args[0], names[args[1]]) + args[2:]
            r = x if args == x.args else rebuild(x.op, args)
            memo[x.dig] = r
        return r

    return go(t)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def implies(p, q, budget=2000):
    """p -> q for boolean terms, by splitting; True/False"""
    t = or_(not_(p), q)
    if t is TRUE:
        return True
    try:
        ok, _ = equal(t, TRUE, budget)
    except Undecided:
        return False
    return ok


_bh = {}


def bound_height(t):
    """nesting height of canonically bound loops inside t"""
    r = _bh.get(t.dig)
    if r is None:
        r = 0
        for x in walk(t):
            if x.op == "loop" and isinstance(x.args[1], str):
                r = max(r, int(x.args[1][1:]))
        _bh[t.dig] = r
    return r


def bind(op, L, *args):
    """binder over loop L: the loop variable is renamed to a canonical (height-indexed) one"""
    if isinstance(L.args[1], str):
        h = 1 + max([int(x.args[1][1:]) for a in args if isinstance(a, T) for x in walk(a)
                     if x.op == "loop" and isinstance(x.args[1], str) and x is not L] + [0])
    else:
        h = 1 + max([bound_height(a) for a in args if isinstance(a, T)] + [0])
    base = L.args[0]
    if base.op == "while":
        base = mk("while", const("b%d" % h))
    L2 = mk("loop", base, "b%d" % h)
    memo = {}
    f = lambda x: L2 if x is L else None
    return mk(op, L2, *[subst(a, f, memo) if isinstance(a, T) else a for a in args])


def own_group(L, c, x):
    """loop over the distinct values of a column, acting on the rows with that value: the row's own value is the one that applies"""
    d = L.args[0]
    if not (d.op == "call" and d.args[0] in (".unique", "set", "numpy.unique") and len(d.args) == 2 and d.args[1].op == "ser"):
        return None
    rows, C = d.args[1].args
    if rows.op != "rows" or rows.args[1] is not TRUE:
        return None
    el = mk("item", d, mk("idx", L))
    if c is not eq(el, C):
        return None
    return subst(x, lambda y: C if y is el else None)


# ---------------------------------------------------------------- printing
SHOWMORE = int(os.environ.get("SA_SHOW", "0"))


def show(t, depth=7):
    depth += SHOWMORE
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "const":
        return repr(a[0])
    if o == "num":
        f = a[0]
        return str(int(f)) if f.denominator == 1 else repr(float(f))
    if o == "pi":
        return "pi"
    if o == "sym":
        return a[0]
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "col":
        return f"{show(a[0], 2) if a[0].op == 'sym' else 'row'}:{a[1] if isinstance(a[1], str) else show(a[1], d)}"
    if o == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d) + ("" if e == 1 else f"^{e}") for x, e in m)
            if s == "":
                s = str(float(c)) if c.denominator != 1 else str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = (str(c) if c.denominator == 1 else repr(float(c))) + "*" + s
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if o == "lt":
        # split to lhs<rhs
        p = a[0]
        if p.op == "poly":
            pos = _mkpoly({m: c for m, c in p.args[0] if c > 0})
            ne = _mkpoly({m: -c for m, c in p.args[0] if c < 0})
            return f"({show(pos, d)} < {show(ne, d)})"
        return f"({show(p, d)} < 0)"
    if o == "eq":
        return f"({show(a[0], d)} == {show(a[1], d)})"
    if o == "not":
        x = a[0]
        if x.op == "lt":
            s = show(x, depth)
            return s.replace(" < ", " >= ", 1) if s.count(" < ") == 1 else "not" + s
        if x.op == "eq":
            return f"({show(x.args[0], d)} != {show(x.args[1], d)})"
        return "not " + show(x, d)
    if o in ("and", "or"):
        return "(" + f" {o} ".join(show(x, d) for x in a) + ")"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "powx":
        return f"{show(a[0], d)}**{show(a[1], d)}"
    if o == "call":
        return f"{a[0]}(" + ", ".join(show(x, d) for x in a[1:]) + ")"
    if o == "kw":
        return f"{a[0]}={show(a[1], d)}"
    if o in ("list", "tuple", "set"):
        b = {"list": "[]", "tuple": "()", "set": "{}"}[o]
        return b[0] + ", ".join(show(x, d) for x in a) + b[1]
    if o == "nonempty":
        return f"nonempty({show(a[0], d)})"
    if o == "truthy":
        return f"{show(a[0], d)}"
    return f"{o}(" + ", ".join(show(x, d) for x in a) + ")"


def canon_coll(t):
    """membership tests ignore order and multiplicity"""
    while True:
        if t.op == "call" and t.args[0] in (".unique", "set", "list", "sorted", ".tolist", "numpy.unique", "numpy.array", "frozenset", "tuple") and len(t.args) == 2:
            t = t.args[1]
        else:
            return t
