"""Hash-consed polynomial normal forms over value-number atoms.

Arithmetic on abstract values is kept in a canonical polynomial form (a value
numbering): two expressions that are equal up to associativity, commutativity,
distributivity, temporaries or statement order get the same normal form.
Conditions are 0/1 indicator atoms (idempotent), so gated (if/where/masked)
definitions are ordinary polynomials.
"""
from fractions import Fraction

MAX_MONO = 60


class Atom:
    __slots__ = ("id", "kind", "key", "deps")

    def __init__(self, id, kind, key):
        self.id, self.kind, self.key = id, kind, key


_atoms = []
_index = {}


def atom(kind, *key):
    k = (kind, key)
    a = _index.get(k)
    if a is None:
        a = Atom(len(_atoms), kind, key)
        _atoms.append(a)
        _index[k] = a
    return a


def get_atom(i):
    return _atoms[i]


_counter = [0]


def fresh(kind, tag=""):
    _counter[0] += 1
    return P(atom(kind, tag, _counter[0]))


class Poly:
    __slots__ = ("m", "_k", "_h")

    def __init__(self, m):
        self.m = m
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.m.items())
        return self._k

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.m == o.m)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), Fraction(0)) if self.is_const() else None

    def is_zero(self):
        return not self.m

    def atoms(self):
        s = set()
        for mono in self.m:
            for a, e in mono:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def C(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return P(atom("sym", repr(x)))
        x = Fraction(repr(x))
    else:
        x = Fraction(x)
    return Poly({(): x}) if x else ZERO


def P(a):
    return Poly({((a.id, 1),): Fraction(1)})


def sym(name):
    return P(atom("sym", name))


def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    m = dict(a.m)
    for k, v in b.m.items():
        n = m.get(k, 0) + v
        if n:
            m[k] = n
        else:
            m.pop(k, None)
    return _limit(Poly(m))


def neg(a):
    return Poly({k: -v for k, v in a.m.items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, f):
    f = Fraction(f)
    if not f:
        return ZERO
    return Poly({k: v * f for k, v in a.m.items()})


_MM = {}


def _mulmono(x, y):
    if not x:
        return y
    if not y:
        return x
    k = (x, y)
    r = _MM.get(k)
    if r is not None:
        return r
    d = dict(x)
    for a, e in y:
        if _atoms[a].kind == "ind":
            d[a] = 1
        else:
            n = d.get(a, 0) + e
            if n:
                d[a] = n
            else:
                d.pop(a, None)
    r = tuple(sorted(d.items()))
    if len(_MM) < 500000:
        _MM[k] = r
    return r


def _limit(p):
    if len(p.m) > MAX_MONO:
        return P(atom("big", p))
    return p


def mul(a, b):
    if not a.m or not b.m:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if len(a.m) * len(b.m) > 4 * MAX_MONO:
        if len(a.m) > 20:
            a = P(atom("big", a))
        if len(b.m) > 20:
            b = P(atom("big", b))
    m = {}
    for x, cx in a.m.items():
        for y, cy in b.m.items():
            k = _mulmono(x, y)
            n = m.get(k, 0) + cx * cy
            if n:
                m[k] = n
            else:
                m.pop(k, None)
    return _limit(Poly(m))


def lead(p):
    """leading coefficient (deterministic)"""
    return p.m[min(p.m)]


def inv(b):
    if not b.m:
        return P(atom("sym", "1/0"))
    if len(b.m) == 1:
        (mono, c), = b.m.items()
        if all(_atoms[a].kind != "ind" for a, e in mono):
            return Poly({tuple((a, -e) for a, e in mono): 1 / c})
    l = lead(b)
    return scale(P(atom("fn", "inv", scale(b, 1 / l))), 1 / l)


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    """integer power"""
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def fn(name, *args):
    return P(atom("fn", name, *args))


# ---- indicators ---------------------------------------------------------

def _norm(p):
    return scale(p, 1 / abs(lead(p)))


def ind_gt(p):
    """[p > 0]"""
    if p.is_const():
        return ONE if p.const() > 0 else ZERO
    return P(atom("ind", "gt", _norm(p)))


def ind_eq(p):
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    return P(atom("ind", "eq", scale(p, 1 / lead(p))))


def ind_bool(p):
    """truth of an arbitrary term; indicator polynomials stay as they are"""
    if p.is_const():
        return ONE if p.const() != 0 else ZERO
    if is_boolean(p):
        return p
    return P(atom("ind", "b", p))


def is_boolean(p):
    return all(all(_atoms[a].kind == "ind" for a, e in mono) for mono in p.m)


def ind(name, *key):
    return P(atom("ind", name, *key))


def b_not(p):
    return sub(ONE, p)


def b_and(a, b):
    return mul(a, b)


def b_or(a, b):
    return sub(add(a, b), mul(a, b))


def ite(c, a, b):
    if a == b:
        return a
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if len(c.m) * (len(a.m) + len(b.m)) > MAX_MONO:
        return fn("ite", c, a, b)
    return add(b, mul(c, sub(a, b)))


def minmax(name, args):
    flat = []
    for a in args:
        if len(a.m) == 1:
            (mono, c), = a.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                at = _atoms[mono[0][0]]
                if at.kind == "fn" and at.key[0] == name:
                    flat += list(at.key[1:])
                    continue
        flat.append(a)
    out = []
    consts = [a.const() for a in flat if a.is_const()]
    for a in flat:
        if not a.is_const() and a not in out:
            out.append(a)
    if consts:
        out.append(C(min(consts) if name == "min" else max(consts)))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda p: sorted(p.m.items(), key=lambda kv: kv[0]).__repr__())
    return fn(name, *out)


# ---- substitution -------------------------------------------------------

def subst(p, f, memo=None, touch=None):
    """Rebuild p with atom replacement: f(atom) -> Poly or None (recurse).
    touch(i): False when atom i certainly contains nothing to replace."""
    if memo is None:
        memo = {}

    def sub_atom(i):
        if i in memo:
            return memo[i]
        if touch is not None and not touch(i):
            r = memo[i] = P(_atoms[i])
            return r
        a = _atoms[i]
        r = f(a)
        if r is None:
            newkey = []
            changed = False
            for x in a.key:
                if isinstance(x, Poly):
                    y = go(x)
                    changed |= y != x
                    newkey.append(y)
                else:
                    newkey.append(x)
            if not changed:
                r = P(a)
            elif a.kind == "ind" and a.key[0] == "gt":
                r = ind_gt(newkey[1])
            elif a.kind == "ind" and a.key[0] == "eq":
                r = ind_eq(newkey[1])
            elif a.kind == "ind" and a.key[0] == "b":
                r = ind_bool(newkey[1])
            elif a.kind == "fn" and a.key[0] in ("min", "max"):
                r = minmax(a.key[0], newkey[1:])
            elif a.kind == "fn" and a.key[0] == "inv":
                r = inv(newkey[1])
            elif a.kind == "fn" and a.key[0] == "ite":
                r = ite(*newkey[1:])
            elif a.kind == "big":
                r = newkey[0] if len(newkey[0].m) <= 20 else P(atom("big", newkey[0]))
            else:
                r = P(atom(a.kind, *newkey))
        memo[i] = r
        return r

    def go(q):
        if not any(True for mono in q.m if mono):
            return q
        changed = set()
        for i in q.atoms():
            if touch is not None and i not in memo and not touch(i):
                continue
            r = sub_atom(i)
            if len(r.m) != 1 or r != P(_atoms[i]):
                changed.add(i)
        if not changed:
            return q
        acc = {mono: c for mono, c in q.m.items() if not any(i in changed for i, e in mono)}
        for mono, c in q.m.items():
            if not any(i in changed for i, e in mono):
                continue
            t = C(c) if c != 1 else ONE
            for i, e in mono:
                r = sub_atom(i)
                t = mul(t, power(r, e) if e != 1 else r)
            for k, v in t.m.items():
                n = acc.get(k, 0) + v
                if n:
                    acc[k] = n
                else:
                    acc.pop(k, None)
        return _limit(Poly(acc))

    return go(p)


def contains(p, pred, memo=None):
    if memo is None:
        memo = {}

    def ca(i):
        if i in memo:
            return memo[i]
        memo[i] = False
        a = _atoms[i]
        r = pred(a) or any(contains(x, pred, memo) for x in a.key if isinstance(x, Poly))
        memo[i] = r
        return r

    return any(ca(i) for i in p.atoms())


# ---- printing -----------------------------------------------------------

def show_atom(a, d=0):
    if a.kind == "sym":
        return str(a.key[0])
    if d > 3:
        return "…"
    ks = [show(x, d + 1) if isinstance(x, Poly) else str(x) for x in a.key]
    if a.kind == "fn":
        if ks[0] == "L":
            return f"{ks[1]}[{ks[3]}]" if len(ks) > 3 else f"{ks[1]}"
        return f"{ks[0]}({', '.join(ks[1:])})"
    if a.kind == "ind":
        if ks[0] == "gt":
            return f"[{ks[1]}>0]"
        if ks[0] == "eq":
            return f"[{ks[1]}==0]"
        return "[" + " ".join(ks) + "]"
    return a.kind + ":" + "/".join(ks)


def show(p, d=0):
    if not p.m:
        return "0"
    out = []
    items = sorted(p.m.items())
    for mono, c in items[: 12]:
        fs = []
        for a, e in mono:
            s = show_atom(_atoms[a], d)
            fs.append(s if e == 1 else f"{s}^{e}")
        cs = str(c) if c.denominator < 1000 else f"{float(c):.6g}"
        if not fs:
            out.append(cs)
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append(cs + "*" + "*".join(fs))
    s = " + ".join(out)
    if len(items) > 12:
        s += f" + …({len(items)} terms)"
    return s
