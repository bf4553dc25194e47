"""Dimension lattice.

A unit is a mapping base->exponent (Fraction) plus softness: a *soft* unit went
through an empirical numeric literal and carries no claim any more.  None =
unknown.  ANY = bare literal (compatible with everything in sums).
Base symbols: m kg s K deg % h d day mol.  'h'/'d' are kept apart from 's' and
'deg'/'%' from pure numbers on purpose: mixing them is a conversion error.
"""
import re
from fractions import Fraction


class Unit:
    __slots__ = ("d", "soft", "k")

    def __init__(self, d, soft=False):
        self.d = {b: Fraction(e) for b, e in d.items() if e}
        self.soft = soft
        self.k = frozenset(self.d.items())

    def __eq__(self, o):
        return isinstance(o, Unit) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        if not self.d:
            s = "1"
        else:
            s = " ".join(b if e == 1 else f"{b}{'^' if e.denominator != 1 else ''}{e}" for b, e in sorted(self.d.items()))
        return s + ("~" if self.soft else "")

    def softened(self):
        return Unit(self.d, True)


class _Any:
    def __repr__(self):
        return "literal"


ANY = _Any()
ONE = Unit({})


def mul(a, b):
    if a is None or b is None:
        return None
    if a is ANY:
        return b if b is ANY else b.softened()
    if b is ANY:
        return a.softened()
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = d.get(k, 0) + v
    return Unit(d, a.soft or b.soft)


def inv(a):
    if a is None or a is ANY:
        return a
    return Unit({k: -v for k, v in a.d.items()}, a.soft)


def power(a, n):
    if a is None or a is ANY:
        return a
    return Unit({k: v * Fraction(n).limit_denominator(1000) for k, v in a.d.items()}, a.soft)


_DERIVED = {
    "W": {"kg": 1, "m": 2, "s": -3},
    "J": {"kg": 1, "m": 2, "s": -2},
    "N": {"kg": 1, "m": 1, "s": -2},
    "Pa": {"kg": 1, "m": -1, "s": -2},
    "m": {"m": 1}, "kg": {"kg": 1}, "s": {"s": 1}, "K": {"K": 1}, "mol": {"mol": 1},
    "h": {"h": 1}, "d": {"d": 1}, "day": {"d": 1}, "days": {"d": 1}, "hours": {"h": 1}, "hour": {"h": 1},
    "degree": {"deg": 1}, "degrees": {"deg": 1}, "deg": {"deg": 1},
    "radians": {}, "radian": {}, "rad": {}, "sr": {},
    "%": {"%": 1}, "1": {}, "-": {},
    "°C": {"K": 1}, "C": {"K": 1},
    # scaled units are their own bases: combining them with SI needs a literal factor
    "hPa": {"hPa": 1}, "kPa": {"kPa": 1}, "cm": {"cm": 1}, "mm": {"mm": 1}, "km": {"km": 1}, "MJ": {"MJ": 1}, "g": {"g": 1},
}
_TOK = re.compile(r"^(%|°C|[A-Za-z]+|1|-)(?:\^?(-?\d+(?:\.\d+)?))?$")


def parse(s):
    """Parse 'W m-1 K-1', 'kg m-2 s-1', 'm3 m-3', '%', '°C'. None if not a unit."""
    if s is None:
        return None
    s = s.strip().replace("·", " ").replace("m²", "m2").replace("−", "-").replace("**", "")
    if not s or (s != "1" and re.fullmatch(r"-?\d[\d.]*", s)):
        return None
    d = {}
    sign = 1
    for tok in s.replace("/", " / ").split():
        if tok == "/":
            sign = -1
            continue
        m = _TOK.match(tok)
        if not m or m.group(1) not in _DERIVED:
            return None
        e = Fraction(m.group(2) or 1)
        for b, x in _DERIVED[m.group(1)].items():
            d[b] = d.get(b, 0) + x * e * sign
    return Unit(d)


def compatible(a, b):
    """May a and b be added / compared / assigned?"""
    if a is None or b is None or a is ANY or b is ANY:
        return True
    if a.soft or b.soft:
        return True
    return a == b


def join(a, b):
    if a is None or b is None:
        return None
    if a is ANY:
        return b
    if b is ANY:
        return a
    if a == b:
        return a if not a.soft else b if not b.soft else a
    if a.soft:
        return b
    if b.soft:
        return a
    return None


_DOC_PARAM = re.compile(r"^(\w+(?:\s*,\s*\w+)*)\s*:\s*(.*)$")


def doc_units(doc):
    """numpydoc -> ({param: Unit}, [return units])  using '(unit)' at the end of descriptions."""
    params, rets = {}, []
    if not doc:
        return params, rets
    import inspect
    lines = inspect.cleandoc(doc).splitlines()
    section = None
    cur = None
    i = 0
    buf = {}
    order = []
    while i < len(lines):
        ln = lines[i]
        if i + 1 < len(lines) and re.match(r"^-{3,}\s*$", lines[i + 1]) and ln.strip():
            section = ln.strip()
            cur = None
            i += 2
            continue
        if section in ("Parameters", "Returns"):
            if ln and not ln.startswith(" "):
                m = _DOC_PARAM.match(ln)
                if m:
                    cur = (section, m.group(1))
                else:
                    cur = (section, ln.strip())
                order.append(cur)
                buf[cur] = ""
            elif cur and ln.strip():
                buf[cur] += " " + ln.strip()
        i += 1
    for cur in order:
        sec, names = cur
        us = [parse(x) for x in re.findall(r"\(([^()]*)\)", buf[cur])]
        us = [u for u in us if u is not None]
        u = us[-1] if us else None
        if sec == "Parameters":
            for n in re.split(r"\s*,\s*", names):
                params[n] = u
        else:
            rets.append((names, u))
    return params, rets
