"""Enumerate the configurations the analysis interprets."""
import itertools


def leaves(schema, path=()):
    """yield (path, node) for every option in the schema"""
    for k, n in schema.items():
        if not isinstance(n, dict):
            continue
        p = path + (k,)
        yield p, n
        if isinstance(n.get("schema"), dict):
            s = n["schema"]
            t = n.get("type")
            if t == "list":
                if isinstance(s.get("schema"), dict):
                    yield from leaves(s["schema"], p + ("[]",))
            else:
                yield from leaves(s, p)
        for alt in n.get("oneof", []) + n.get("anyof", []):
            if isinstance(alt.get("schema"), dict) and alt.get("type") == "dict":
                yield from leaves(alt["schema"], p)


def choices(n):
    """accepted finite choices of an option, or None"""
    if "allowed" in n:
        c = list(n["allowed"])
        if n.get("nullable") and None not in c:
            c.append(None)
        return c
    if n.get("type") == "boolean":
        return [True, False]
    out = []
    for alt in n.get("oneof", []) + n.get("anyof", []):
        if "allowed" in alt:
            out += list(alt["allowed"])
    return out or None


PRECIP_CORR = ("meteo", "precipitation_correction")


def base_specs():
    out = []
    for (model, melt) in (("multilayer", "energy_balance"), ("cryolayers", "energy_balance"),
                          ("cryolayers", "temperature_index"), ("cryolayers", "enhanced_temperature_index"),
                          ("multilayer", "temperature_index"), ("multilayer", "enhanced_temperature_index")):
        for can, et, gl in itertools.product((False, True), repeat=3):
            d = {("snow", "model"): model, ("snow", "melt", "method"): melt,
                 ("canopy", "enabled"): can, ("evapotranspiration", "enabled"): et, ("glaciers", "enabled"): gl}
            if melt != "energy_balance":
                d[("snow", "melt", "degree_day_factor")] = "$sym"
                if melt.startswith("enh"):
                    d[("snow", "melt", "albedo_factor")] = "$sym"
            out.append(d)
    return out


BASE_KEYS = {("snow", "model"), ("snow", "melt", "method"), ("canopy", "enabled"), ("evapotranspiration", "enabled"),
             ("glaciers", "enabled"), ("output_data",), ("liveview", "enabled"), ("liveview", "blit"), ("enable_default_logging",)}


def variations(schema):
    """one option at a time away from the defaults"""
    out = []
    for path, n in leaves(schema):
        if path in BASE_KEYS or path[0] in ("output_data", "liveview") or "[]" in path:
            continue
        c = choices(n)
        if c:
            for v in c:
                if v != n.get("default"):
                    out.append({path: v})
        elif n.get("nullable") and n.get("default", 0) is None and n.get("type") in ("float", "integer"):
            out.append({path: "$sym"})
    pc = {p: n for p, n in leaves(schema)}.get(PRECIP_CORR + ("[]", "method"))
    if pc:
        for m in choices(pc) or []:
            it = {"method": m}
            if m == "wmo":
                it["gauge"] = "hellmann"
            if m == "kochendorfer":
                it["gauge"] = "us_un"
            if m == "constant_scf":
                it["scf"] = "$sym"
            out.append({PRECIP_CORR: [it]})
    return out


def two_way(schema):
    """combinations of options that steer the same computation"""
    out = []
    M = ("meteo", "interpolation", "cloudiness")
    for a in ("clear_sky_fraction", "humidity", "prescribed"):
        for b in ("humidity", "constant"):
            for c in (True, False):
                out.append({M + ("method",): a, M + ("clear_sky_fraction_night_method",): b, M + ("allow_fallback",): c})
    for v in ("temperature", "precipitation", "humidity", "wind"):
        n = {p: n for p, n in leaves(schema)}.get(("meteo", "interpolation", v, "trend_method"))
        for t in (n or {}).get("allowed", []):
            for x in (True, False):
                out.append({("meteo", "interpolation", v, "trend_method"): t, ("meteo", "interpolation", v, "extrapolate"): x})
    return out


def show(spec):
    return ", ".join(".".join(map(str, k)) + "=" + str(v) for k, v in spec.items()) or "defaults"
