"""Abstract values of the interpreter."""
from . import poly as p
from . import units as un

KATOM = p.atom("kappa")
KAPPA = p.P(KATOM)
ROI = p.ind("ROI")
NANT = p.sym("nan")


_LAYMEMO = {}


def at_layer(t, k):
    if k is KAPPA or k == KAPPA or not has_kappa(t):
        return t
    memo = _LAYMEMO.get(k)
    if memo is None:
        memo = _LAYMEMO[k] = {}
    return p.subst(t, lambda a: k if a is KATOM else None, memo, has_kappa)


def has_kappa(x, memo={}):
    if isinstance(x, int):
        r = memo.get(x)
        if r is None:
            a = p.get_atom(x)
            r = a is KATOM or any(has_kappa(y) for y in a.key if isinstance(y, p.Poly))
            memo[x] = r
        return r
    return any(has_kappa(i) for i in x.atoms())


class Lay:
    """value per layer: generic term in KAPPA plus overrides for specific layer keys (newest last)"""
    __slots__ = ("base", "ov")

    def __init__(self, base, ov=()):
        self.base, self.ov = base, tuple(ov)

    def __eq__(self, o):
        return isinstance(o, Lay) and self.base == o.base and self.ov == o.ov

    def __hash__(self):
        return hash((self.base, self.ov))

    def get(self, k):
        r = at_layer(self.base, k)
        for key, term in self.ov:
            d = p.sub(k, key)
            if d.is_zero():
                r = term
            elif d.is_const():
                continue
            else:
                r = p.ite(p.ind_eq(d), term, r)
        return r

    def set(self, k, term):
        return Lay(self.base, [(a, b) for a, b in self.ov if a != k] + [(k, term)])

    def set_where(self, cond, v):
        """cond: Poly in KAPPA (or KAPPA free); v: Lay/Poly"""
        vb = v.base if isinstance(v, Lay) else v
        keys = [k for k, _ in self.ov]
        if isinstance(v, Lay):
            keys += [k for k, _ in v.ov if k not in keys]
        ov = []
        for k in keys:
            c = at_layer(cond, k)
            ov.append((k, p.ite(c, v.get(k) if isinstance(v, Lay) else at_layer(v, k), self.get(k))))
        return Lay(p.ite(cond, vb, self.base), ov)

    def sum(self, n=None):
        keys = [k for k, _ in self.ov]
        for i in range(len(keys)):
            for j in range(i):
                if not p.sub(keys[i], keys[j]).is_const():
                    return p.fn("SUMX", self.base, *[x for kv in self.ov for x in kv])
        if n is not None and n.is_const() and len(keys) == n.const():
            r = p.ZERO
            for k, t in self.ov:
                r = p.add(r, t)
            return r
        r = sumb(self.base, n)
        for k, t in self.ov:
            r = p.add(r, p.sub(t, at_layer(self.base, k)))
        return r

    def __repr__(self):
        return f"Lay({self.base!r}; " + ", ".join(f"{k!r}:{t!r}" for k, t in self.ov) + ")"


def sumb(base, n=None):
    if n is not None and n.is_const():
        r = p.ZERO
        for i in range(int(n.const())):
            r = p.add(r, at_layer(base, p.C(i)))
        return r
    acc = p.ZERO
    for mono, c in base.m.items():
        kp = tuple((a, e) for a, e in mono if has_kappa(a))
        fp = tuple((a, e) for a, e in mono if not has_kappa(a))
        if kp:
            s = p.fn("SUM", p.Poly({kp: p.Fraction(1)}))
        else:
            s = n if n is not None else p.sym("NLAY")
        acc = p.add(acc, p.mul(p.Poly({fp: c}), s))
    return acc


def lift(f, *args):
    if not any(isinstance(a, Lay) for a in args):
        return f(*args)
    keys = []
    for a in args:
        if isinstance(a, Lay):
            for k, _ in a.ov:
                if k not in keys:
                    keys.append(k)
    b = f(*[a.base if isinstance(a, Lay) else a for a in args])
    ov = [(k, f(*[a.get(k) if isinstance(a, Lay) else a for a in args])) for k in keys]
    return Lay(b, ov)


class Num:
    __slots__ = ("t", "u", "sp", "lay", "out", "src", "doc")

    def __init__(self, t, u=None, sp="S", lay=None, out="val", src=None, doc=None):
        self.t, self.u, self.sp, self.lay, self.out, self.src, self.doc = t, u, sp, lay, out, src, doc

    def rep(self, **kw):
        n = Num(self.t, self.u, self.sp, self.lay, self.out, self.src, self.doc)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def __eq__(self, o):
        return isinstance(o, Num) and self.t == o.t and self.u == o.u and self.sp == o.sp and self.out == o.out

    def __hash__(self):
        return hash(self.t)

    @property
    def scalar(self):
        return self.sp == "S" and self.lay is None

    def __repr__(self):
        sp = self.sp if isinstance(self.sp, str) else "P(%r)" % (self.sp[1],)
        return f"<{self.t!r} :{self.u} {sp}{'L' if self.lay is not None else ''} out={self.out}>"


class PC:
    """python constant"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, PC) and type(self.v) == type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(("PC", self.v if self.v.__hash__ else id(self.v)))

    def __repr__(self):
        return f"PC({self.v!r})"


class _S:
    __slots__ = ("a",)

    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return type(self) is type(o) and self.a == o.a

    def __hash__(self):
        return hash((type(self).__name__,) + self.a)

    def __repr__(self):
        return type(self).__name__ + repr(self.a)


class Ref(_S): pass            # heap cell
class View(_S): pass           # (cid, layer key) basic-index view of a layered array
class Tup(_S): pass            # (tuple of values,)
class FnV(_S): pass            # (Func, selfvalue|None, closure id)
class LamV(_S): pass           # (node, mod, locals snapshot id)
class ClsV(_S): pass
class ModV(_S): pass
class Ext(_S): pass            # external dotted name
class Opq(_S): pass            # opaque object, deterministic key
class CfgV(_S): pass           # (path tuple,)
class CfgRoot(_S): pass
class FlatIdx(_S): pass        # (mask poly,)
class IdxPairs(_S): pass       # (mask,)
class PixNum(_S): pass
class PixRow(_S): pass
class PixCol(_S): pass
class Flat(_S): pass           # (value,)
class ShapeV(_S): pass         # (sp, lay)
class Count(_S): pass          # number of pixels of (mask|'G')
class RangeV(_S): pass         # (lo, hi, step) values
class StateV(_S): pass
class CatV(_S): pass
class BoundM(_S): pass         # (value, name)
class SliceV(_S): pass
class DictItems(_S): pass
class SuperV(_S): pass


class ObjS:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ListS:
    __slots__ = ("items", "gen")

    def __init__(self, items=(), gen=None):
        self.items, self.gen = tuple(items), gen

    def __eq__(self, o):
        return isinstance(o, ListS) and self.items == o.items and self.gen == o.gen


class DictS:
    __slots__ = ("items", "gen")

    def __init__(self, items=None, gen=None):
        self.items, self.gen = dict(items or {}), gen

    def __eq__(self, o):
        return isinstance(o, DictS) and self.items == o.items and self.gen == o.gen


class State:
    __slots__ = ("loc", "heap")

    def __init__(self, loc, heap):
        self.loc, self.heap = loc, heap

    def fork(self):
        return State(dict(self.loc), dict(self.heap))


class Out:
    """outcome of a block: kind in fall/return/break/continue/raise"""
    __slots__ = ("kind", "cond", "st", "val")

    def __init__(self, kind, cond, st, val=None):
        self.kind, self.cond, self.st, self.val = kind, cond, st, val


class Unbound:
    """name bound only under cond"""
    def __init__(self, v, cond):
        self.v, self.cond = v, cond


class Dead(Exception):
    """the current path certainly raises"""
    def __init__(self, what=None):
        self.what = what


class Event:
    __slots__ = ("kind", "file", "func", "line", "msg", "data")

    def __init__(self, kind, file, func, line, msg, data):
        self.kind, self.file, self.func, self.line, self.msg, self.data = kind, file, func, line, msg, data

    def key(self):
        return (self.kind, self.func, self.line, self.msg)

    def where(self):
        return f"{self.file}:{self.line} ({self.func.split(':')[1]})"

    def __repr__(self):
        return f"{self.kind} {self.where()}: {self.msg}"
