"""Water budgets of one generic step, stated on the fields only (no function names)."""
import numpy as np

from .ledger import Ledger, bad
from .values import *


class Budget:
    def __init__(self, project, schema, spec, n=1500, seed=1):
        self.L = L = Ledger(project, schema, spec, n=n, seed=seed)
        self.res = []        # (rule, field, process, file, line, share, example)
        self.tests = {}
        self.error = L.error
        if self.error:
            return
        self.ok = L.complete()
        self.pre, self.post = L.m.pre, L.m.post
        self.seq = [("", "", 0, self.pre)] + L.snaps + [("end of step", "", 0, self.post)]

    # -- helpers --------------------------------------------------------------
    def has(self, *keys):
        return all(tuple(k.split(".")) in self.pre for k in keys)

    def v(self, key, st=None):
        return self.L.val((self.post if st is None else st)[tuple(key.split("."))])

    def lay(self, key, st=None):
        return self.L.layers((self.post if st is None else st)[tuple(key.split("."))])

    def mask(self, m):
        return m & self.ok & self.sane

    @property
    def sane(self):
        """samples without runaway values (division by an exact zero the program excludes by NaN)"""
        if not hasattr(self, "_sane"):
            s = np.ones(self.L.n, bool)
            for k, x in self.post.items():
                if k[0] in ("snow", "surface", "meteo", "evapotranspiration"):
                    for a, e in self.L.layers(x):
                        s &= np.isfinite(a) & (np.abs(a) < 1e15)
            self._sane = s
        return self._sane

    def first(self, f):
        """first process after which the violation mask f(prev, cur) is raised"""
        for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
            m = f(a, b)
            if m is not None and self.mask(m).mean() > self.frac:
                return q, file, line
        return None

    frac = 0.0018

    def report(self, rule, field, mask, where=None, note=""):
        self.tests[rule] = self.tests.get(rule, 0) + 1
        m = self.mask(mask)
        if m.mean() <= self.frac:
            return False
        q, file, line = where() if callable(where) and where() else ("", "", 0)
        self.res.append((rule, field, q, file, line, float(m.mean()), note))
        return True

    # -- ledgers ----------------------------------------------------------------
    def glacier_change(self, key):
        """mass moved between pixels by the glacier geometry update"""
        tot, err = 0, np.zeros(self.L.n)
        for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
            if ".glacier." in q:
                tot = tot + self.v(key, b)[0] - self.v(key, a)[0]
                err = err + self.v(key, b)[1] + self.v(key, a)[1]
        return (tot, err + 1e-9 * np.abs(tot)) if not isinstance(tot, int) else (np.zeros(self.L.n), np.zeros(self.L.n))

    def snow(self):
        if not self.has("snow.ice_content", "snow.liquid_water_content", "snow.runoff", "snow.sublimation", "meteo.snowfall", "meteo.rainfall"):
            return
        I, W = "snow.ice_content", "snow.liquid_water_content"
        v, pre = self.v, self.pre
        tol = 2e-3 if self.L.m.e.fields[("snow", "ice_content")]["lay"] is not None and not self.L.m.e.fields[("snow", "ice_content")]["lay"].is_const() else 1e-6
        gi, gw = self.glacier_change(I), self.glacier_change(W)
        tot = [(1, v(I)), (1, v(W)), (-1, v(I, pre)), (-1, v(W, pre)), (-1, gi), (-1, gw),
               (-1, v("meteo.snowfall")), (-1, v("meteo.rainfall")), (1, v("snow.runoff")), (1, v("snow.sublimation"))]
        m = off(tot, tol)

        def where():
            # accumulation, sublimation and runoff change the total by exactly their flux
            for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
                if ".glacier." in q:
                    continue
                d = [(1, v(I, b)), (1, v(W, b)), (-1, v(I, a)), (-1, v(W, a))]
                ch = self.mask(off(d, tol))
                if ch.mean() <= self.frac:
                    continue
                alts = [[], [(-1, v("meteo.snowfall", b))], [(1, v("snow.sublimation", b))], [(-1, v("meteo.rainfall", b)), (1, v("snow.runoff", b))]]
                if min((self.mask(off(d + x, tol)) & m).mean() for x in alts) > self.frac:
                    return q, file, line
            return self.blame([I, W, "snow.runoff", "snow.sublimation"])
        self.report("snow-mass", "snow.ice_content+snow.liquid_water_content", m, where,
                    "the change of total snow water differs from snowfall + rainfall - runoff - sublimation")
        self.by_process("snow-mass", [I, W], [("meteo.snowfall", 1), ("snow.sublimation", -1), (("meteo.rainfall", "snow.runoff"), 1)], tot, tol,
                        "changes total snow water by an amount that is none of the step's fluxes")
        if self.has("snow.melt", "snow.refreezing"):
            ref = v("snow.refreezing")
            if ("snow", "refreezing") in self.pre and self.post[("snow", "refreezing")].t == self.pre[("snow", "refreezing")].t:
                ref = (np.zeros(self.L.n), np.zeros(self.L.n))      # never computed in this configuration
            ph = [(1, v(I)), (-1, v(I, pre)), (-1, gi), (-1, v("meteo.snowfall")), (1, v("snow.sublimation")), (1, v("snow.melt")), (-1, ref)]
            self.report("snow-phase", "snow.melt/snow.refreezing", off(ph, tol), lambda: self.blame([I, "snow.melt", "snow.refreezing"]),
                        "the change of snow ice differs from snowfall - melt + refreezing - sublimation")
            self.by_process("snow-phase", [I], [("meteo.snowfall", 1), ("snow.sublimation", -1), ("snow.melt", -1), ("snow.refreezing", 1)], ph, tol,
                            "changes snow ice by an amount that is none of the step's fluxes")
        # snow water equivalent and depth are the sums of their layers
        for f, parts in (("snow.swe", [I, W]), ("snow.depth", ["snow.thickness"])):
            if self.has(f, *parts) and self.post[tuple(f.split("."))].t != self.pre[tuple(f.split("."))].t:
                # the relation holds when the properties are updated, i.e. after some process of the step
                hit = None
                for q, file, line, s in self.seq[1:]:
                    d = off([(1, v(f, s))] + [(-1, v(x, s)) for x in parts], 1e-6)
                    hit = d if hit is None else hit & d
                if hit is not None:
                    self.report("snow-sums", f, hit, lambda: self.blame([f]), f"{f} is at no point of the step the sum over the layers of {'+'.join(parts)}")

    def by_process(self, rule, stores, fluxes, total, tol, note):
        """each process changes the stores by the sum of some of the fluxes; only where the step as a whole is not balanced"""
        tv = np.abs(sum(s * x[0] for s, x in total)) > tol
        for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
            if ".glacier." in q or all(a[tuple(k.split("."))].t == b[tuple(k.split("."))].t for k in stores):
                continue
            d = [(1, self.v(k, b)) for k in stores] + [(-1, self.v(k, a)) for k in stores]
            best = None
            for pick in range(1 << len(fluxes)):
                for st in (b, self.post, a):
                    alt = []
                    for i, (k, sign) in enumerate(fluxes):
                        if pick >> i & 1:
                            ks = k if isinstance(k, tuple) else (k,)
                            alt.append((-sign, self.v(ks[0], st)))
                            alt += [(sign, self.v(x, st)) for x in ks[1:]]
                    m = off(d + alt, tol) & tv
                    if best is None or self.mask(m).mean() < self.mask(best).mean():
                        best = m
                    if not self.mask(best).any():
                        break
            self.report(rule, "+".join(stores), best, lambda: (q, file, line), f"{q.split(':')[-1]} {note}")

    def blame(self, keys):
        """last process that changes one of the fields"""
        r = None
        for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
            if any(a[tuple(k.split("."))].t != b[tuple(k.split("."))].t for k in keys) and q != "end of step":
                r = (q, file, line)
        return r

    def precip(self):
        if not self.has("meteo.precip", "meteo.snowfall", "meteo.rainfall"):
            return
        v = self.v
        ks = ["meteo.precip", "meteo.snowfall", "meteo.rainfall"]
        changed = lambda a, b: any(a[tuple(k.split("."))].t != b[tuple(k.split("."))].t for k in ks)
        # the phases exist from the point where both were written
        started = False
        for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
            if all(b[tuple(k.split("."))].t != self.pre[tuple(k.split("."))].t for k in ks[1:]):
                started = True
            if started and (changed(a, b) or q == "end of step"):
                if self.report("precip-phase-sum", "meteo.precip", off([(1, v(ks[0], b)), (-1, v(ks[1], b)), (-1, v(ks[2], b))], 1e-7),
                               lambda: (q, file, line), "total precipitation differs from snowfall + rainfall"):
                    break
        if not started:
            self.tests["precip-phase-sum"] = self.tests.get("precip-phase-sum", 0)
        C = "snow.canopy_intercepted_load"
        if self.has(C, "snow.canopy_intercepted_snowfall", "snow.canopy_sublimation", "snow.canopy_melt"):
            for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
                if a[tuple(C.split("."))].t == b[tuple(C.split("."))].t:
                    continue
                g = lambda k: v("snow." + k, b)
                ch = off([(1, v(C, b)), (-1, v(C, a))], 1e-7) | off([(1, v("meteo.snowfall", b)), (-1, v("meteo.snowfall", a))], 1e-7)
                self.report("canopy-store", C, ch & off([(1, v(C, b)), (-1, v(C, a)), (-1, g("canopy_intercepted_snowfall")), (1, g("canopy_sublimation")),
                                                         (1, g("canopy_melt"))], 1e-7), lambda: (q, file, line),
                            "the change of the canopy store differs from intercepted snowfall - canopy sublimation - melt unload")
                self.report("canopy-ground", "meteo.snowfall", ch & off([(1, v("meteo.snowfall", b)), (-1, v("meteo.snowfall", a)),
                            (1, g("canopy_intercepted_snowfall")), (-1, g("canopy_melt"))], 1e-7), lambda: (q, file, line),
                            "snowfall reaching the ground differs from snowfall - intercepted snowfall + melt unload")

    def soilwater(self):
        E = "evapotranspiration."
        if not self.has(E + "cum_root_zone_depletion"):
            return
        v, pre = self.v, self.pre
        n = self.L.n
        rain = v("meteo.rainfall")
        fld = lambda k, st=None: v(E + k, st)
        un = lambda k: ~off([(1, fld(k)), (-1, fld(k, pre))], 1e-9)
        bl = lambda *k: (lambda: self.blame([E + x for x in k]))
        err = lambda *xs: sum(x[1] for x in xs)
        touched = {}
        if self.has(E + "deep_percolation", E + "evapotranspiration", E + "total_available_water"):
            D0, D1, ET, DP, T = fld("cum_root_zone_depletion", pre), fld("cum_root_zone_depletion"), fld("evapotranspiration"), fld("deep_percolation"), fld("total_available_water")
            x = D0[0] - rain[0] + ET[0]
            dp = np.maximum(-x, 0)
            want = np.clip(x + dp, 0, T[0])
            e = err(D0, D1, ET, DP, T, rain)
            m = ~un("cum_root_zone_depletion") & (np.abs(D1[0] - want) > 64 * e + 1e-6)
            self.report("root-zone", E + "cum_root_zone_depletion", m, bl("cum_root_zone_depletion"),
                        "root-zone depletion does not change by -rainfall + evapotranspiration + percolation, limited to [0, total available water]")
            m = ~un("cum_root_zone_depletion") & (np.abs(DP[0] - dp) > 64 * e + 1e-6)
            self.report("root-zone", E + "deep_percolation", m, bl("deep_percolation"), "percolation from the root zone differs from the water exceeding field capacity")
            touched["root"] = (~un("cum_root_zone_depletion")).mean()
        if self.has(E + "cum_soil_surface_depletion", E + "deep_percolation_evaporation_layer", E + "evaporation", E + "total_evaporable_water"):
            D0, D1, Ev, DP, T = fld("cum_soil_surface_depletion", pre), fld("cum_soil_surface_depletion"), fld("evaporation"), fld("deep_percolation_evaporation_layer"), fld("total_evaporable_water")
            x = D0[0] - rain[0]
            dp = np.maximum(-x, 0)
            e = err(D0, D1, Ev, DP, T, rain)
            ch = ~un("cum_soil_surface_depletion")
            low = np.minimum(np.maximum(x + dp + np.maximum(Ev[0], 0), 0), T[0])
            self.report("surface-layer", E + "cum_soil_surface_depletion", ch & ((D1[0] < low - 64 * e - 1e-6) | (D1[0] > T[0] + 64 * e + 1e-6)
                        | ((Ev[0] == 0) & (np.abs(D1[0] - low) > 64 * e + 1e-6))), bl("cum_soil_surface_depletion"),
                        "surface-layer depletion does not change by -rainfall + evaporation + percolation, limited to [0, total evaporable water]")
            self.report("surface-layer", E + "deep_percolation_evaporation_layer", ch & (np.abs(DP[0] - dp) > 64 * e + 1e-6), bl("deep_percolation_evaporation_layer"),
                        "percolation from the surface layer differs from rainfall exceeding its depletion")
            touched["surface"] = ch.mean()
        if self.has(E + "sealed_interception", E + "evaporation", E + "deep_percolation"):
            S0, S1, Ev, DP = fld("sealed_interception", pre), fld("sealed_interception"), fld("evaporation"), fld("deep_percolation")
            ch = ~un("sealed_interception")
            d = [(1, S1), (-1, S0), (-1, (np.maximum(rain[0], 0), rain[1])), (1, Ev)]
            dp0 = fld("deep_percolation", pre)
            m = off(d + [(1, DP)], 1e-7)
            # percolation of a dry step is not part of the sealed surface's budget
            m &= ~((rain[0] <= 0) & ~off(d, 1e-7))
            self.report("sealed", E + "sealed_interception", ch & m, bl("sealed_interception"),
                        "sealed-surface storage does not change by rainfall - evaporation - excess runoff")
            touched["sealed"] = ch.mean()
        if self.has(E + "evapotranspiration", E + "evaporation", E + "transpiration"):
            ch = ~un("evaporation") & ~un("transpiration")
            self.report("et-sum", E + "evapotranspiration", ch & off([(1, fld("evapotranspiration")), (-1, fld("evaporation")), (-1, fld("transpiration"))], 1e-7),
                        bl("evapotranspiration", "evaporation", "transpiration"), "evapotranspiration differs from evaporation + transpiration")
        self.touched = touched

    def nonneg(self):
        S = ["snow.ice_content", "snow.liquid_water_content", "snow.thickness", "snow.canopy_intercepted_load", "evapotranspiration.sealed_interception",
             "snow.cold_content", "evapotranspiration.cum_root_zone_depletion", "evapotranspiration.cum_soil_surface_depletion"]
        F = ["snow.melt", "snow.refreezing", "snow.runoff", "snow.canopy_sublimation", "snow.canopy_melt", "snow.canopy_intercepted_snowfall",
             "evapotranspiration.deep_percolation", "evapotranspiration.deep_percolation_evaporation_layer", "meteo.snowfall", "meteo.rainfall"]
        for k in S + F:
            if not self.has(k):
                continue
            key = tuple(k.split("."))
            base = np.zeros(self.L.n, bool)
            for x, e in self.L.layers(self.pre[key]):
                base |= x < 0
            for (q0, _, _, a), (q, file, line, b) in zip(self.seq, self.seq[1:]):
                if a[key].t == b[key].t:
                    continue
                m = np.zeros(self.L.n, bool)
                for x, e in self.L.layers(b[key]):
                    m |= x < -(64 * e + 1e-6)
                if self.report("store-nonneg" if k in S else "flux-nonneg", k, m & ~base, lambda: (q, file, line), f"{k} becomes negative"):
                    break
        self.limits()

    def limits(self):
        """what leaves a store over the step is at most what the store held plus what it received"""
        I, W, C = "snow.ice_content", "snow.liquid_water_content", "snow.canopy_intercepted_load"
        v = self.v
        for flux, store, extra in (("snow.melt", I, ()), ("snow.sublimation", I, ()), ("snow.refreezing", W, ("snow.melt", "meteo.rainfall")),
                                   ("snow.runoff", W, ("snow.melt", "meteo.rainfall")), ("snow.canopy_sublimation", C, ("snow.canopy_intercepted_snowfall",)),
                                   ("snow.canopy_melt", C, ("snow.canopy_intercepted_snowfall",))):
            if not self.has(flux, store, *extra):
                continue
            f = tuple(flux.split("."))
            if self.post[f].t == self.pre[f].t:
                continue
            cap, err = np.full(self.L.n, -np.inf), np.zeros(self.L.n)
            for q, file, line, st in self.seq:
                x, e = v(store, st)
                cap, err = np.maximum(cap, x), np.maximum(err, e)
            for k in extra:
                x, e = v(k)
                cap, err = cap + np.maximum(x, 0), err + e
            x, e = v(flux)
            ch = np.abs(x - v(flux, self.pre)[0]) > 1e-9       # computed for this pixel in this step
            self.report("flux-limit", flux, ch & (x > cap + 64 * (e + err) + 2e-3 + 1e-9 * np.abs(x)), lambda: self.blame([flux]),
                        f"{flux} exceeds the content of {store}" + (" plus " + " + ".join(extra) if extra else ""))


def off(parts, tol):
    tot, err, mag = 0, 0, 0
    for s, (v, e) in parts:
        tot = tot + s * v
        err = err + e
        mag = mag + np.abs(v)
    return np.abs(tot) > 64 * err + 1e-9 * mag + tol
