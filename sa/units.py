"""astropy unit conversions as exact factors."""
from .terms import *
from .terms import _poly, _mkpoly

P = "astropy.units."
_KM = {"km": 1, "m": "1/1000", "au": "1495978707/10", "AU": "1495978707/10", "cm": "1/100000", "kilometer": 1}
_DAY = {"day": 1, "d": 1, "hour": "1/24", "h": "1/24", "hr": "1/24", "min": "1/1440", "minute": "1/1440", "s": "1/86400", "second": "1/86400", "yr": "1461/4", "year": "1461/4"}
_DEG = {"deg": 1, "degree": 1, "arcmin": "1/60", "arcsec": "1/3600", "mas": "1/3600000", "uas": "1/3600000000"}
F = {}
for d in (_KM, _DAY, _DEG):
    for k, v in d.items():
        F[P + k] = const(Fraction(v))
F[P + "rad"] = F[P + "radian"] = div(const(180), PI)


def is_unit(t):
    return t.op == "ext" and t.args[0].startswith(P)


def has_unit(t):
    """t carries a unit factor in every term"""
    ms = _poly(t)
    return bool(ms) and all(any(is_unit(a) for a, _ in m) for m in ms)


def strip(t, f):
    """replace the unit factors of t's terms by numbers f(unit)"""
    r = ZERO
    for m, c in _poly(t).items():
        x = const(c)
        for a, e in m:
            x = mul(x, pow_(f(a) if is_unit(a) else a, const(e)))
        r = add(r, x)
    return r


def factor(u):
    """number of base units in unit expression u, or None"""
    ms = _poly(u)
    if any(not is_unit(a) or a.args[0] not in F for m in ms for a, _ in m):
        return None
    return strip(u, lambda a: F[a.args[0]])


def to(t, u):
    """t.to(u): the same quantity expressed with unit u; None when not a plain conversion"""
    fu = factor(u)
    if fu is None or not has_unit(t):
        return None
    if any(is_unit(a) and a.args[0] not in F for m in _poly(t) for a, _ in m):
        return None
    return mul(div(strip(t, lambda a: F[a.args[0]]), fu), u)


def value(t):
    if not has_unit(t):
        return None
    return strip(t, lambda a: ONE)
