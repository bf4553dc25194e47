"""Random interpretation of normal forms (Gulwani/Necula style value-number testing).

Two value numbers whose polynomial normal forms differ syntactically may still denote the
same function (correlated gates, nested min/max).  Normal forms are therefore compared under
random interpretations of their atoms: every atom gets a vector of sampled values, gates are
evaluated from their own argument terms so that correlated conditions stay correlated, and
unknown functions are interpreted by one fixed smooth random function per name.  Nothing of
the analysed program is executed; only the normal forms computed by the analysis are used.
"""
import zlib

import numpy as np

from . import poly as p
from .values import Lay, KATOM, at_layer, has_kappa

np.seterr(all="ignore")

KNOWN1 = {"exp": lambda x: np.exp(np.clip(x, -60, 60)), "tanh": np.tanh, "cos": np.cos, "sin": np.sin,
          "abs": np.abs, "arctan": np.arctan, "ceil": np.ceil, "floor": np.floor, "round": np.round}


def _crc(x):
    return zlib.crc32(repr(x).encode())


def _akey(a):
    """name of an atom that does not depend on the order in which atoms were created"""
    if a.kind == "sym":
        return ("sym", a.key[0] if isinstance(a.key[0], str) else str(a.key[0]), a.key[1:] if len(a.key) > 1 else ())
    return (a.kind, tuple(str(k) for k in a.key))


class Pit:
    """n simultaneous random interpretations"""

    cfg_positive = False
    eqp = 0.4              # share of interpretations in which two unrelated unknowns coincide

    def __init__(self, n=200, seed=1, nlay=3, roi=1.0, consts=None, cfg=None, units=None, fixed=None, special=None):
        np.seterr(all="ignore")
        self.n, self.seed, self.nlay, self.roi = n, seed, nlay, roi
        self.consts = consts or {}
        self.cfgd = cfg or {}
        self.units = units or {}
        self.fixed = fixed or {}        # atom id -> array
        self.special = special          # f(atom, pit, kap) -> array or None
        self.memo = {}
        self.thr = None
        self.tick = 0

    # -- thresholds a symbol is compared with somewhere -----------------------
    def _thresholds(self):
        self.thr = {}
        for a in list(p._atoms):
            if a.kind != "ind" or a.key[0] not in ("gt", "eq"):
                continue
            q = a.key[1]
            syms = [m for m in q.m if m]
            if len(syms) != 1 or len(syms[0]) != 1 or syms[0][0][1] != 1:
                if len(syms) == 2 and () not in q.m and all(len(m) == 1 and m[0][1] == 1 for m in syms):
                    for x, y in (syms, syms[::-1]):
                        ax, ay = p.get_atom(x[0][0]), p.get_atom(y[0][0])
                        if ay.kind == "sym" and isinstance(ay.key[0], str):
                            v = self.const_of(ay.key[0])
                            if v is not None:
                                self.thr.setdefault(x[0][0], set()).add(float(-q.m[y] * p.Fraction(v) / q.m[x]))
                continue
            i = syms[0][0][0]
            self.thr.setdefault(i, set()).add(float(-q.m.get((), 0) / q.m[syms[0]]))

    def const_of(self, name):
        if name.startswith("c."):
            return self.consts.get(name[2:])
        return None

    def leaf(self, i):
        a = p.get_atom(i)
        return a.kind == "sym" and i not in self.fixed and not (isinstance(a.key[0], str) and self.const_of(a.key[0]) is not None)

    def rng(self, key):
        return np.random.RandomState((_crc(key) ^ (self.seed * 2654435761)) & 0x7FFFFFFF)

    def sample(self, a, tag=None):
        """value vector of an uninterpreted atom"""
        name = a.key[0] if a.kind == "sym" and isinstance(a.key[0], str) else None
        if name is not None:
            v = self.const_of(name)
            if v is not None:
                return np.full(self.n, float(v))
            if name == "deg2rad":
                return np.full(self.n, np.pi / 180)
            if name == "nan":
                return np.full(self.n, 7.7e5)
            if name == "inf":
                return np.full(self.n, 1e12)
            if name == "-inf":
                return np.full(self.n, -1e12)
        r = self.rng((_akey(a), tag))
        n = self.n
        if self.thr is None:
            self._thresholds()
        u = r.rand(n)
        base = r.gamma(1.5, 1.0, n)                       # positive, order one
        sc = r.choice([0.05, 1.0, 1.0, 20.0], n)
        v = base * sc
        neg = r.rand(n) < 0.15
        v = np.where(neg, -v, v)
        unit = self.units.get(name)
        if unit == "K":
            v = 273.15 + r.randn(n) * 8
        d = self.cfgd.get(name[4:]) if name is not None and name.startswith("cfg:") else None
        if isinstance(d, (int, float)) and not isinstance(d, bool):
            return np.where(u < 0.6, d, d * (0.5 + r.rand(n)))
        if self.cfg_positive and name is not None and name.startswith("cfg:"):
            return np.abs(base)
        v = np.where(r.rand(n) < 0.12, 0.0, v) if unit != "K" else v
        ths = sorted(self.thr.get(a.id, ()))
        if ths:
            t = np.array(ths)[r.randint(0, len(ths), n)]
            w = r.rand(n)
            v = np.where(w < 0.3, t, np.where(w < 0.7, t + r.randn(n) * np.maximum(0.05 * np.abs(t), 0.05), v))
        if unit == "1b":
            v = (r.rand(n) < 0.5) * 1.0
        return v

    def coin(self, a, tag=None):
        return (self.rng((_akey(a), tag)).rand(self.n) < 0.5) * 1.0

    # -- evaluation (value, rounding-error bound) ------------------------------
    def val(self, t, k=None):
        """t: Poly; k: layer number bound to kappa"""
        return self.ev(t, k)[0]

    def ev(self, t, k=None):
        kk = ("P", t, k)
        r = self.memo.get(kk)
        if r is not None:
            return r
        acc, err = np.zeros(self.n), np.zeros(self.n)
        for mono, c in t.m.items():
            x = np.full(self.n, float(c))
            up = np.full(self.n, abs(float(c)))        # bound of |term| over the rounding intervals of its factors
            zero = None
            gate = None                 # product of gates decided inside their rounding error
            for i, e in mono:
                v, ev = self.atom(i, k)
                if p.get_atom(i).kind == "ind" and ev.any():
                    und = ev > 0
                    gate = (np.ones(self.n), np.zeros(self.n, bool)) if gate is None else gate
                    gate = (np.where(und, gate[0] * v, gate[0]), gate[1] | und)
                    v, ev = np.where(und, 1.0, v), np.zeros(self.n)
                if e > 0:
                    z = (v == 0) & (ev == 0)
                    zero = z if zero is None else zero | z
                    x = x * v if e == 1 else x * v ** e
                    up = up * (np.abs(v) + ev) ** e
                else:
                    v, ev = _snap(v, ev)
                    s = _safe(v)
                    x = x / s ** (-e)
                    lo = np.abs(s) - ev
                    up = up * np.where((ev > 0) & (np.abs(v) <= 16 * ev), BIG, 1.0 / np.where(lo > 0, lo, 1.0) ** (-e))
            if zero is not None:
                # an exact zero factor (a closed gate) annihilates the term
                x = np.where(zero, 0.0, np.clip(x, -BIG, BIG))
                up = np.where(zero, 0.0, up)
            ax = np.abs(x)
            up = np.minimum(np.maximum(np.where(np.isfinite(up), up, BIG), ax), BIG)
            err = err + (up - ax) + (len(mono) + 1) * EPS * ax
            if gate is not None:
                err = err + np.where(gate[1], ax, 0.0)
                x = x * gate[0]
            acc = acc + x
        r = self.memo[kk] = (acc, err)
        return r

    def atom(self, i, k=None):
        kk = (i, k if has_kappa(i) else None)
        r = self.memo.get(kk)
        if r is None:
            r = self._atom(p.get_atom(i), kk[1])
            if not isinstance(r, tuple):
                r = (r, np.abs(r) * EPS)
            v, e = r
            ok = np.isfinite(v) & np.isfinite(e)
            r = self.memo[kk] = (np.where(ok, np.clip(v, -BIG, BIG), BIG), np.where(ok, e, BIG))
        return r

    def _atom(self, a, k):
        f = self.fixed.get(a.id)
        if f is not None:
            return f
        if self.special is not None:
            r = self.special(a, self, k)
            if r is not None:
                return r
        if a is KATOM:
            return np.full(self.n, float(k or 0))
        if a.kind == "big":
            return self.ev(a.key[0], k)
        zero = np.zeros(self.n)
        if a.kind == "ind":
            kd = a.key[0]
            if kd == "ROI":
                return np.full(self.n, self.roi), zero
            if kd == "gt":
                v, e = self.ev(a.key[1], k)
                return (v > 16 * e) * 1.0, _und(v, e)
            if kd == "eq":
                ms = list(a.key[1].m)
                if len(ms) == 2 and all(len(x) == 1 and x[0][1] == 1 and self.leaf(x[0][0]) for x in ms):
                    # equality of two unrelated unknowns
                    return (self.rng(("eq",) + tuple(sorted(str(_akey(p.get_atom(x[0][0]))) for x in ms))).rand(self.n) < self.eqp) * 1.0, zero
                v, e = self.ev(a.key[1], k)
                return (np.abs(v) <= 16 * e) * 1.0, _und(v, e)
            if kd == "b":
                v, e = self.ev(a.key[1], k)
                return (np.abs(v) > 16 * e) * 1.0, _und(v, e)
            ps = [x for x in a.key if isinstance(x, p.Poly)]
            if ps:
                v, e = self.smooth(a, ps, k)
                return (v > 16 * e) * 1.0, _und(v, e)
            return self.coin(a, k), zero
        if a.kind == "fn":
            nm = a.key[0]
            args = [x for x in a.key[1:] if isinstance(x, p.Poly)]
            if nm in ("min", "max"):
                E = [self.ev(x, k) for x in args]
                vs, es = np.array([x[0] for x in E]), np.array([x[1] for x in E])
                w = (np.argmin if nm == "min" else np.argmax)(vs, axis=0)
                v = np.take_along_axis(vs, w[None], 0)[0]
                # an operand that is clearly not selected contributes no rounding error
                near = np.abs(vs - v) <= 16 * (es + np.take_along_axis(es, w[None], 0))
                return v, np.max(np.where(near, es, 0), axis=0)
            if nm == "ite":
                c, ce = self.ev(args[0], k)
                c = c > 0.5
                (x, ex), (y, ey) = self.ev(args[1], k), self.ev(args[2], k)
                return np.where(c, x, y), np.where(ce > 0.1, np.abs(x - y) + ex + ey, np.where(c, ex, ey))
            if nm == "inv":
                v, e = _snap(*self.ev(args[0], k))
                s = _safe(v)
                return 1.0 / s, np.where((np.abs(v) <= 16 * e) & (e > 0), BIG, np.minimum(e / s ** 2, 1e30) + EPS / np.abs(s))
            if nm == "pow":
                (b, eb), (x, ex) = self.ev(args[0], k), self.ev(args[1], k)
                b = np.maximum(np.abs(b), 1e-12)
                x = np.clip(x, -40, 40)
                v = np.clip(np.power(b, x), 0, BIG)
                return v, v * (np.abs(x) * eb / b + np.abs(np.log(b)) * ex + 4 * EPS)
            if nm == "sqrt":
                v, e = self.ev(args[0], k)
                v = np.abs(v)
                return np.sqrt(v), np.minimum(e / np.sqrt(np.maximum(v, 1e-30)), np.sqrt(e)) + EPS * np.sqrt(v)
            if nm == "log":
                v, e = self.ev(args[0], k)
                v = np.maximum(np.abs(v), 1e-12)
                return np.log(v), e / v + EPS
            if nm == "exp":
                v, e = self.ev(args[0], k)
                w = np.exp(np.clip(v, -60, 60))
                return w, w * (e + 4 * EPS)
            if nm in ("int", "ceil", "floor", "round", "trunc"):
                v, e = self.ev(args[0], k)
                g = {"int": np.trunc, "trunc": np.trunc, "ceil": np.ceil, "floor": np.floor, "round": np.round}[nm]
                r = np.round(v)
                return np.where(np.abs(v - r) <= 16 * e, r, g(v)), np.where(e > 0.01, e + 1, 0.0)
            if nm in KNOWN1 and len(args) == 1:
                v, e = self.ev(args[0], k)
                w = KNOWN1[nm](v)
                return w, e + EPS * np.abs(w)
            if nm == "SUM":
                E = [self.ev(args[0], j) for j in range(self.nlay)]
                return sum(x[0] for x in E), sum(x[1] for x in E) + EPS * sum(np.abs(x[0]) for x in E)
            if nm == "SUMX":
                return self.laysum(Lay(args[0], [(args[j], args[j + 1]) for j in range(1, len(args) - 1, 2)]))
            if nm == "L":
                idx = args[-1] if args else None
                v, ve = self.ev(idx, k) if idx is not None else (np.zeros(self.n), zero)
                iv = np.clip(np.round(v).astype(int), -5, 12)
                out = np.zeros(self.n)
                for j in np.unique(iv):
                    key = ("Lval", str(a.key[1]), str(a.key[2]), int(j))
                    s = self.memo.get(key)
                    if s is None:
                        s = self.memo[key] = self.layer_sample(a, int(j))
                    out = np.where(iv == j, s, out)
                if (ve > 0.1).any():
                    sp = np.zeros(self.n)
                    for j in range(self.nlay):
                        key = ("Lval", str(a.key[1]), str(a.key[2]), j)
                        if key not in self.memo:
                            self.memo[key] = self.layer_sample(a, j)
                        sp = np.maximum(sp, np.abs(self.memo[key] - out))
                    return out, np.where(ve > 0.1, sp, np.abs(out) * EPS)
                return out
            if args:
                return self.smooth(a, args, k)
            return self.sample(a, k)
        return self.sample(a, k)

    def layer_sample(self, a, j):
        q = p.atom("sym", str(a.key[1]))
        r = self.sample(q, ("layer", str(a.key[2]), j))
        return np.abs(r) if self.units.get(str(a.key[1])) != "K" else r

    def layer(self, lay, j):
        """value of layer j of a layered term"""
        v, e = self.ev(lay.base, j)
        for key, term in lay.ov:
            kv, ke = self.ev(key)
            h = np.abs(kv - j) <= 1e-6 + 16 * np.minimum(ke, 1e-3)
            a, b = self.ev(term)
            v, e = np.where(h, a, v), np.where(ke > 1e-3, np.abs(a - v) + b + e, np.where(h, b, e))
        return v, e

    def laysum(self, lay):
        E = [self.layer(lay, j) for j in range(self.nlay)]
        return sum(x[0] for x in E), sum(x[1] for x in E) + EPS * sum(np.abs(x[0]) for x in E)

    def smooth(self, a, args, k):
        """uninterpreted function: a fixed smooth function per name"""
        r = self.rng(("fn", a.kind, str(a.key[0]), tuple(str(x) for x in a.key[1:] if not isinstance(x, p.Poly)), len(args)))
        out, err = np.full(self.n, r.randn()), np.full(self.n, EPS)
        for x in args:
            v, e = self.ev(x, k)
            v = v / (1 + np.abs(v) / 50)
            c = r.randn(3)
            out = out + c[0] * v + 0.3 * c[1] * np.sin(v * (1 + abs(c[2])))
            err = err + 10 * np.minimum(e, 1e3) + EPS * np.abs(v)
        return out, err

    def differs(self, a, b, k=None):
        """interpretations in which a and b certainly differ"""
        return certain(self.ev(a, k), self.ev(b, k))


EPS = 2.0 ** -50
BIG = 1e30


def certain(x, y, rel=1e-9):
    """values differ by more than their rounding errors"""
    (a, ea), (b, eb) = x, y
    return np.abs(a - b) > 64 * (ea + eb) + rel * (np.abs(a) + np.abs(b)) + 1e-300


def _snap(v, e):
    """values that cannot be told from zero by rounding are zero, as in comparisons"""
    z = (np.abs(v) <= 16 * e) & (e <= 1e-5)
    return np.where(z, 0.0, v), np.where(z, 0.0, e)


def _und(v, e):
    """error 1 for a gate whose comparison falls inside a substantial rounding error"""
    return ((np.abs(v) <= 16 * e) & (e > 1e-5)) * 1.0


def _safe(v):
    return np.where(np.abs(v) < 1e-9, 1e-9, v)


def constants_of(project):
    import ast
    out = {}
    m = project.modules.get("openamundsen.constants")
    if m:
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) \
                    and isinstance(s.value.value, (int, float)) and not isinstance(s.value.value, bool):
                out[s.targets[0].id] = s.value.value
    return out


def cfg_defaults(schema):
    out = {}

    def go(d, path):
        for k, v in d.items():
            if not isinstance(v, dict):
                continue
            if isinstance(v.get("schema"), dict) and v.get("type", "dict") == "dict":
                go(v["schema"], path + (k,))
            elif isinstance(v.get("default"), (int, float)) and not isinstance(v.get("default"), bool):
                out[".".join(path + (k,))] = v["default"]
    if isinstance(schema, dict):
        go(schema, ())
    return out


def pit_for(m, project, schema, **kw):
    units = {}
    for (c, n), meta in m.e.fields.items():
        u = str(meta.get("unit") or meta.get("units") or "")
        if u == "K":
            units[f"{c}.{n}"] = units[f"old:{c}.{n}"] = "K"
        if meta["dtype"] == "bool":
            units[f"{c}.{n}"] = units[f"old:{c}.{n}"] = "1b"
    return Pit(consts=constants_of(project), cfg=cfg_defaults(schema), units=units, **kw)
