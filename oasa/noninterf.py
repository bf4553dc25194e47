"""Dependence of post-step values on the previous step's content of non-retained fields,
decided on the value numbers of one generic step (see pit.py)."""
import numpy as np

from . import pit
from . import poly as p
from .values import *

N = 200
DYN = ("('date',)", "date_idx", "'hv'", "'post'", "old:")


class Step:
    """normal forms of one interpreted step, restricted to pixels inside the ROI"""

    def __init__(self, m, project, schema):
        self.m, self.project, self.schema = m, project, schema
        memo = {}
        rs = lambda x: p.subst(x, lambda a: p.ONE if a.kind == "ind" and a.key[0] == "ROI" else None, memo)
        rl = lambda t: Lay(rs(t.base), [(rs(a), rs(b)) for a, b in t.ov]) if isinstance(t, Lay) else rs(t)
        self.rl = rl
        self.name = {k: f"{k[0]}.{k[1]}" for k in m.post}
        self.post = {k: rl(v.t) for k, v in m.post.items()}
        self.pre = {k: v.t for k, v in m.pre.items()}
        self.changing = {self.name[k] for k in self.post if self.post[k] != self.pre[k]}
        self.never = {self.name[k] for k in self.post if self.post[k] == self.pre[k]}
        self.nonret = {f"{k[0]}.{k[1]}" for k, v in m.e.fields.items() if not v["retain"]}
        self._dyn = {}

    def isdyn(self, a):
        r = self._dyn.get(a.id)
        if r is None:
            x = repr(a.key)
            r = self._dyn[a.id] = any(w in x for w in DYN) or any(w in x for w in self.changing)
        return r

    def mk(self, chg, dyn=False):
        """interpretations; chg: field -> mask of the samples whose stale content is altered;
        dyn: everything that may change from step to step is sampled anew"""
        never, changing, nonret = self.never, self.changing, self.nonret

        def special(a, pt, k):
            nm = a.key[0] if a.kind == "sym" and isinstance(a.key[0], str) else None
            if a.kind == "ind" and a.key[0] == "fld":
                nm = a.key[1]
                if nm.startswith("old:"):
                    f = nm[4:]
                    v = pt.coin(a, ("D",) if dyn and f in changing else None)
                    return np.where(chg[f], 1 - v, v) if f in chg else v
                return pt.coin(a, ("D",)) if dyn and nm in changing else None
            if nm is not None and nm.startswith("old:"):
                f = nm[4:]
                v = pt.sample(a, ("D",)) if dyn and f in changing else pt.sample(a)
                return np.where(chg[f], v + 1.37 * (1 + np.abs(v)), v) if f in chg else v
            if dyn and not any(isinstance(x, p.Poly) for x in a.key) and a.kind != "kappa":
                if nm is not None and (nm.startswith("c.") or nm.startswith("cfg")):
                    return None
                if nm in changing or (nm not in never and nm not in nonret and self.isdyn(a)):
                    return pt.coin(a, ("D",)) if a.kind == "ind" else pt.sample(a, ("D",))
            return None

        P = pit.pit_for(self.m, self.project, self.schema, n=N, special=special)
        for v in self.m.e.fields.values():
            if v["lay"] is not None and not v["lay"].is_const():
                for i in v["lay"].atoms():
                    P.fixed[i] = np.full(N, 3.0)

        def ls(a, j):
            nm = str(a.key[1])
            q = p.atom("sym", nm)
            f = nm[4:] if nm.startswith("old:") else None
            tag = ("layer", str(a.key[2]), j)
            if dyn and ((f or nm) in changing or nm.startswith("('")):
                tag += ("D",)
            v = P.sample(q, tag)
            v = np.abs(v) if P.units.get(nm) != "K" else v
            return np.where(chg[f], v + 1.37 * (1 + v), v) if f in chg else v
        P.layer_sample = ls
        return P

    def vals(self, P, t):
        if isinstance(t, Lay):
            return [P.layer(t, k) for k in range(3)]
        return [P.ev(t, None)]


def diff(x, y):
    d = np.zeros(N, bool)
    for a, b in zip(x, y):
        d |= pit.certain(a, b)
    return d


def mentions(t, f):
    s = "old:" + f
    pred = lambda a: (a.kind == "sym" and a.key[0] == s) or (a.kind == "fn" and a.key[0] == "L" and a.key[1] == s) \
        or (a.kind == "ind" and a.key[0] == "fld" and a.key[1] == s)
    if isinstance(t, Lay):
        return p.contains(t.base, pred) or any(p.contains(a, pred) or p.contains(b, pred) for a, b in t.ov)
    return p.contains(t, pred)


def olds(t):
    """names of the stale fields a value mentions"""
    out = set()

    def pred(a):
        if a.kind == "sym" and isinstance(a.key[0], str) and a.key[0].startswith("old:"):
            out.add(a.key[0][4:])
        elif a.kind == "fn" and a.key[0] == "L" and str(a.key[1]).startswith("old:"):
            out.add(a.key[1][4:])
        elif a.kind == "ind" and a.key[0] == "fld" and a.key[1].startswith("old:"):
            out.add(a.key[1][4:])
        return False
    if isinstance(t, Lay):
        p.contains(t.base, pred)
        for a, b in t.ov:
            p.contains(a, pred)
            p.contains(b, pred)
    else:
        p.contains(t, pred)
    return out


def analyse(m, project, schema, frac=0.05):
    """-> list of (rule, field, culprit, share)"""
    s = Step(m, project, schema)
    res = []
    ALL = np.ones(N, bool)
    A, D = s.mk({}), s.mk({}, True)
    chg, stat = {}, dict(fields=0, numeric=0)
    used = {}
    for k, t in s.post.items():
        used[k] = olds(t)
    for k, t in s.post.items():
        f = s.name[k]
        if f not in s.nonret:
            continue
        stat["fields"] += 1
        if f in s.never:
            if m.post_init[k].t != m.alloc_init[k]:
                res.append(("filled once but not retained", f, f, 1.0))
            continue
        if f not in used[k]:
            chg[f] = ALL
            continue
        stat["numeric"] += 1
        dep = diff(s.vals(A, t), s.vals(s.mk({f: ALL}), t))
        depD = diff(s.vals(D, t), s.vals(s.mk({f: ALL}, True), t))
        own = s.pre[k]
        carried = (dep & diff(s.vals(A, t), s.vals(A, own))).mean() >= 0.005 and (depD & diff(s.vals(D, t), s.vals(D, own))).mean() >= 0.005
        if not dep.any() and not depD.any():
            chg[f] = ALL
        elif carried:
            res.append(("depends on the previous step", f, f, float(dep.mean())))
            chg[f] = ALL
        elif (dep != depD).mean() > frac:
            res.append(("left over from an earlier step", f, f, float((dep != depD).mean())))
            chg[f] = ALL
        else:
            chg[f] = ~dep
    B = s.mk(chg)
    for k, t in s.post.items():
        f = s.name[k]
        if f in s.never or not (used[k] - {f} if f in s.nonret else used[k]):
            continue
        stat["numeric"] += 1
        d = diff(s.vals(A, t), s.vals(B, t))
        if d.mean() > frac:
            cul = [g for g in sorted(used[k]) if g in chg and diff(s.vals(A, t), s.vals(s.mk({g: chg[g]}), t)).mean() > frac]
            for g in cul:
                if ("left over from an earlier step", g, g) not in {r[:3] for r in res} or g != f:
                    res.append(("depends on the previous step", f, g, float(d.mean())))
    return res, stat
