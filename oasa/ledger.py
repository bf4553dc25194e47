"""One generic time step with layer loops unrolled to a small number of layers, value
numbers of every field after each process, and random interpretations of them that start from
physically admissible states (see pit.py)."""
import numpy as np

from . import pit
from . import poly as p
from .model import ModelRun
from .values import *

NLAY = 3
SIGNED = ("K", "W m-2", "degree", "degrees", "rad", "degree_north", "degC")      # quantities that may be negative


class Ledger:
    def __init__(self, project, schema, spec, n=300, seed=1, want=None, hook=None):
        self.project, self.schema = project, schema
        self.inputs = set()
        self.m = None
        self.snaps = []          # (callee, file, line, {field: term})

        self.last = {}

        def on(e, f, st, node):
            if e.phase == "step":
                # everything outside the water stores (forcing, radiation, turbulent fluxes, surface and soil
                # temperatures) is cut to fresh admissible values: the budgets must hold whatever they are
                for k, c in e.fieldcell.items():
                    v = st.heap[c]
                    if k[0] == "snow" and isinstance(v.t, Lay) and str(e.fields[k].get("units")) in ("K", "J K-1 m-2", "W m-1 K-1"):
                        if v.t != self.last.get(k, self.m.pre[k].t):
                            nm = f"in:{k[0]}.{k[1]}:{len(self.snaps)}"
                            st.heap[c] = v.rep(t=Lay(p.fn("L", nm, 0, KAPPA)))
                            self.last[k] = st.heap[c].t
                        continue
                    if k[0] not in ("meteo", "surface", "soil") or k[1] in PHASES or isinstance(v.t, Lay) or not str(e.fields[k].get("dtype", "float")).startswith("float"):
                        if not (k[0] == "meteo" and f.name == "interpolate_station_data"):
                            continue
                    if v.t != self.last.get(k, self.m.pre[k].t):
                        nm = f"in:{k[0]}.{k[1]}:{len(self.snaps)}"
                        roi = p.ind("ROI")
                        st.heap[c] = v.rep(t=p.add(p.mul(roi, p.sym(nm)), p.mul(p.b_not(roi), self.m.pre[k].t)))
                        self.last[k] = st.heap[c].t
                # any smaller melt is admissible as well: keeps part of the snowpack in the interpretations
                km, ki = ("snow", "melt"), ("snow", "ice_content")
                if km in e.fieldcell and ki in e.fieldcell:
                    prev = self.snaps[-1][3] if self.snaps else self.m.pre
                    now = {k: st.heap[e.fieldcell[k]] for k in (km, ki)}
                    if now[km].t != prev[km].t and now[ki].t == prev[ki].t and not isinstance(now[km].t, Lay):
                        st.heap[e.fieldcell[km]] = now[km].rep(t=p.mul(now[km].t, p.sym(f"share:melt:{len(self.snaps)}")))
                self.snaps.append((f.qual, f.mod.rel, f.node.lineno, {k: st.heap[c] for k, c in e.fieldcell.items()}))

        def setup(e):
            e.unroll_sym = NLAY
            e.proc_hook = on
            if hook:
                hook(e)
        self.m = m = ModelRun(project, schema, spec, setup=setup, early=lambda x: setattr(self, "m", x))
        lay = [v["lay"] for k, v in m.e.fields.items() if k[0] == "snow" and v["lay"] is not None]
        self.nlay = int(lay[0].const()) if lay and lay[0].is_const() else NLAY
        self.error = m.error
        self.n, self.seed = n, seed
        self.memo = {}
        if not self.error:
            self.pit = self.interp()

    # -- values ---------------------------------------------------------------
    def roi1(self, x):
        return p.subst(x, lambda a: p.ONE if a.kind == "ind" and a.key[0] == "ROI" else None, self.memo)

    def term(self, num):
        t = num.t
        if isinstance(t, Lay):
            return Lay(self.roi1(t.base), [(self.roi1(a), self.roi1(b)) for a, b in t.ov])
        return self.roi1(t)

    def val(self, num):
        """(value, error) of a field; layered fields summed over their layers"""
        t = num.t
        if isinstance(t, Lay):
            return self.pit.laysum(t)
        return self.pit.ev(t)

    def layers(self, num):
        return [self.pit.layer(num.t, j) for j in range(self.nlay)] if isinstance(num.t, Lay) else [self.pit.ev(num.t)]

    def complete(self):
        """samples in which the bounded unrolling covers every iteration"""
        ok = np.ones(self.n, bool)
        for c in self.m.e.trunc:
            ok &= ~(self.pit.val(c) > 0.5)
        return ok

    # -- interpretation -------------------------------------------------------
    def interp(self):
        m = self.m
        n = self.n
        NLAY = self.nlay
        lists = cfg_lists(self.schema)
        r = np.random.RandomState(self.seed)
        multi = ("snow", "num_layers") in m.pre and m.e.fields[("snow", "num_layers")]["retain"]
        S = self.state = {}
        nl = r.randint(0, NLAY + 1, n)
        ex = np.array([j < nl for j in range(NLAY)]) if multi else r.rand(NLAY, n) < 0.55
        et = any(k[0] == "evapotranspiration" for k in m.pre)
        ex = ex & (r.rand(n) > (0.45 if et else 0.1))
        nl = ex.sum(axis=0)
        ice = ex * r.gamma(1.5, 30, (NLAY, n)) * r.choice([0.02, 0.02, 1, 1, 1, 4], (NLAY, n))
        liq = ex * r.gamma(1.0, 2.0, (NLAY, n)) * (r.rand(NLAY, n) < 0.6)
        dens = r.uniform(80, 600, (NLAY, n))
        thick = (ice + liq) / dens
        S["snow.num_layers"] = ex.sum(axis=0).astype(float)
        S["snow.ice_content"], S["snow.liquid_water_content"], S["snow.thickness"] = ice, liq, thick
        S["snow.density"] = dens
        S["snow.temp"] = np.where(r.rand(NLAY, n) < 0.3, 273.15, 273.15 - r.gamma(1.5, 4, (NLAY, n)))
        S["snow.depth"] = thick.sum(axis=0)
        S["snow.swe"] = (ice + liq).sum(axis=0)
        S["snow.heat_cap"] = np.maximum(ice * 2100 + liq * 4180, 0)
        S["snow.cold_content"] = ex * r.gamma(1.0, 1.0, (NLAY, n)) * (r.rand(NLAY, n) < 0.5)
        if et:
            E = "evapotranspiration."
            S[E + "readily_evaporable_water"] = r.uniform(2, 12, n)
            S[E + "total_evaporable_water"] = S[E + "readily_evaporable_water"] + r.uniform(0.5, 20, n)
            S[E + "cum_soil_surface_depletion"] = S[E + "total_evaporable_water"] * np.minimum(r.uniform(-0.3, 1.1, n).clip(0), 1)
            S[E + "total_available_water"] = r.uniform(5, 150, n)
            S[E + "readily_available_water"] = S[E + "total_available_water"] * r.uniform(0.2, 0.8, n)
            S[E + "cum_root_zone_depletion"] = S[E + "total_available_water"] * np.minimum(r.uniform(-0.3, 1.1, n).clip(0), 1)
        units = {f"{k[0]}.{k[1]}": str(v.get("units") or "") for k, v in m.e.fields.items()}

        def special(a, pt, k):
            if a.kind == "sym" and isinstance(a.key[0], str):
                if a.key[0].startswith("in:"):
                    q = a.key[0][3:].split(":")[0]
                    return physical(q, units.get(q), pt.rng(a.key[0]), n)
                if a.key[0].startswith("share:"):
                    r2 = pt.rng(a.key[0])
                    return np.where(r2.rand(n) < 0.4, 1.0, r2.rand(n) * (r2.rand(n) < 0.8))
                nm = a.key[0][4:] if a.key[0].startswith("old:") else a.key[0]
                v = S.get(nm)
                if v is not None and v.ndim == 1:
                    return v
                if nm.startswith("cfg:land_cover") and "fraction" in nm:
                    return pt.rng(nm).uniform(0.02, 0.98, n)
                if nm in units and units[nm] in SCALES and "albedo" not in nm:
                    return physical(nm, units[nm], pt.rng(nm), n)
                x = pt.sample(a)
                return np.abs(x) if nm not in ("nan", "inf", "-inf") and units.get(nm) not in SIGNED else x
            if a.kind == "sym" and "to_timedelta" in str(a.key[0])[:60]:
                return pt.rng("timestep").choice([3600.0, 10800.0, 86400.0], n)
            return None

        P = pit.pit_for(m, self.project, self.schema, n=n, special=special, seed=self.seed, nlay=NLAY)
        P.cfg_positive = True
        P.eqp = 0.8
        for v in m.e.fields.values():
            if v["lay"] is not None and not v["lay"].is_const():
                for i in v["lay"].atoms():
                    P.fixed[i] = np.full(n, float(NLAY))

        def ls(a, j):
            nm = str(a.key[1])
            if nm.startswith("cfg:"):
                d = lists.get(nm[4:]) or [0.3]
                v = float(d[min(max(j, 0), len(d) - 1)])
                return P.rng((nm, j)).choice([1.0, 1.0, 0.5, 1.3], n) * v
            if nm.startswith("in:"):
                q = nm[3:].split(":")[0]
                r = P.rng((nm, j))
                if units.get(q) == "K":
                    return np.where(r.rand(n) < 0.3, 273.15, 273.15 - r.gamma(1.5, 4, n))
                return physical(q, units.get(q), r, n)
            nm = nm[4:] if nm.startswith("old:") else nm
            v = S.get(nm)
            if v is not None and v.ndim == 2:
                return v[j] if 0 <= j < NLAY else np.zeros(n)
            x = P.sample(p.atom("sym", nm), ("layer", str(a.key[2]), j))
            return np.abs(x) if P.units.get(nm) != "K" else x
        P.layer_sample = ls
        return P


def cfg_lists(schema, path=()):
    out = {}
    for k, v in schema.items() if isinstance(schema, dict) else ():
        if isinstance(v, dict):
            if isinstance(v.get("schema"), dict) and v.get("type", "dict") == "dict":
                out.update(cfg_lists(v["schema"], path + (k,)))
            elif isinstance(v.get("default"), list):
                out[".".join(path + (k,))] = v["default"]
    return out


PHASES = ("precip", "snowfall", "rainfall")
SCALES = {"K": 0, "%": 0, "kg m-2": 0, "W m-2": 0, "m s-1": 0, "Pa": 0, "kg m-3": 0, "m": 0, "kg kg-1": 0, "J kg-1": 0, "J K-1 m-2": 0,
          "J kg-1 K-1": 0, "Pa K-1": 0, "W m-1 K-1": 0, "kg m-2 s-1": 0, "m3 m-3": 0, "J K-1 m-3": 0}


def physical(name, unit, r, n):
    """admissible values of a quantity by its declared unit"""
    if unit == "K":
        return 273.15 + r.randn(n) * 7
    if unit == "%":
        return r.uniform(5, 100, n)
    if unit == "kg m-2":
        return r.gamma(1.0, 3.0, n) * (r.rand(n) < 0.75)
    if unit == "W m-2":
        return r.uniform(0, 700, n) if name.endswith(("_in", "_out", "_clearsky")) else r.randn(n) * r.choice([15, 50, 150, 400, 1500], n)
    if unit == "m s-1":
        return r.uniform(0.1, 15, n)
    if unit == "Pa":
        return r.uniform(6e4, 1e5, n) if "atmos" in name else r.uniform(100, 1500, n)
    if unit == "kg m-3":
        return r.uniform(0.8, 1.3, n) if "air" in name else r.uniform(60, 650, n)
    if unit == "m":
        return r.gamma(1.5, 0.3, n) + 1e-3
    if unit == "J kg-1":
        return r.uniform(2.4e6, 2.9e6, n)
    if unit in ("J K-1 m-2", "J K-1 m-3"):
        return r.uniform(1e4, 1e6, n)
    if unit == "J kg-1 K-1":
        return r.uniform(900, 1100, n)
    if unit == "Pa K-1":
        return r.uniform(40, 70, n)
    if unit == "W m-1 K-1":
        return r.uniform(0.05, 2, n)
    if unit == "kg m-2 s-1":
        return r.randn(n) * r.choice([2e-5, 5e-5, 4e-4], n)
    if unit in ("kg kg-1", "m3 m-3"):
        return r.uniform(1e-3, 0.4, n)
    return r.gamma(1.5, 1.0, n)


def bad(parts, scale=()):
    """parts: list of (sign, (value, err)); samples where the signed sum certainly is not zero"""
    tot, err, mag = 0, 0, 0
    for s, (v, e) in parts:
        tot = tot + s * v
        err = err + e
        mag = mag + np.abs(v)
    return np.abs(tot) > 64 * err + 1e-7 * mag + 1e-9
