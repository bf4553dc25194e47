"""Load and resolve the analysed package from source (never imported)."""
import ast
import io
import os
import re
import tokenize

REPO = os.environ.get("OASA_REPO", "/repo")
PKG = "openamundsen"


class AnalysisBroken(Exception):
    """An anchor the analysis relies on has vanished: error exit, never a pass."""


class Func:
    def __init__(self, node, mod, cls=None, parent=None):
        self.node, self.mod, self.cls, self.parent = node, mod, cls, parent
        self.name = node.name
        q = node.name
        if cls is not None:
            q = cls.name + "." + q
        if parent is not None:
            q = parent.qual.split(":")[1] + "." + q
        self.qual = mod.name + ":" + q
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def is_property(self):
        return any(d in ("property", "functools.cached_property", "cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def doc(self):
        return ast.get_docstring(self.node, clean=False)

    def __repr__(self):
        return f"<{self.qual}>"


class Class:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod
        self.name = node.name
        self.qual = mod.name + ":" + node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                # property setters keep the getter
                if any("setter" in ast.unparse(d) for d in st.decorator_list):
                    continue
                self.methods[st.name] = Func(st, mod, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
        self.bases = node.bases


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.lines = src.splitlines()
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.rel = os.path.relpath(path, REPO)
        self._collect(self.tree.body)
        self._comments = None

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.assigns[n.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.assigns[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.add_import(st, self.imports)
            elif isinstance(st, (ast.If, ast.Try)):
                # optional imports are taken as available, except the separately distributed
                # snow management package (outside of the analysed code)
                out = any(isinstance(x, ast.Import) and any(a.name.startswith(PKG + "_") for a in x.names) for x in st.body)
                if not out:
                    for h in getattr(st, "handlers", []):
                        self._collect(h.body)
                self._collect(st.body)
                if out:
                    for h in getattr(st, "handlers", []):
                        self._collect(h.body)
                self._collect(st.orelse)

    def add_import(self, st, into):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    into[a.asname] = ("mod", a.name)
                else:
                    into[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                into[a.asname or a.name] = ("from", base, a.name)

    @property
    def comments(self):
        if self._comments is None:
            self._comments = {}
            try:
                for tok in tokenize.generate_tokens(io.StringIO(self.src).readline):
                    if tok.type == tokenize.COMMENT:
                        self._comments[tok.start[0]] = tok.string.lstrip("# ").strip()
            except tokenize.TokenError:
                pass
        return self._comments


class Project:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} not found")
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "tests"))
            for f in sorted(fs):
                if not f.endswith(".py") or f == "_version.py":
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.modules[rel] = Module(rel, p, src)
                self.modules[rel].rel = os.path.relpath(p, self.repo)

    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken(f"module {name} not found")
        return m

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def resolve(self, mod, name, seen=None):
        """Resolve a module-level name to ('func',F) ('class',C) ('mod',M) ('ext',dotted) ('assign',mod,stmt) or None."""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.imports:
            return self.resolve_import(mod.imports[name], seen)
        if name in mod.assigns:
            return ("assign", mod, mod.assigns[name])
        sub = self.modules.get(mod.name + "." + name)
        if sub is not None:
            return ("mod", sub)
        return None

    def resolve_import(self, imp, seen=None):
        if imp[0] == "mod":
            m = self.modules.get(imp[1])
            return ("mod", m) if m else ("ext", imp[1])
        _, base, name = imp
        m = self.modules.get(base)
        if m is not None:
            r = self.resolve(m, name, seen)
            if r is not None:
                return r
            sub = self.modules.get(base + "." + name)
            if sub is not None:
                return ("mod", sub)
            return None
        return ("ext", base + "." + name)

    def find_method(self, cls, name, seen=()):
        if name in cls.methods:
            return cls.methods[name]
        for b in cls.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(cls.mod, b.id)
                if r and r[0] == "class":
                    m = self.find_method(r[1], name)
                    if m:
                        return m
        return None

    def find_class_attr(self, cls, name):
        if name in cls.attrs:
            return cls, cls.attrs[name]
        for b in cls.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(cls.mod, b.id)
                if r and r[0] == "class":
                    x = self.find_class_attr(r[1], name)
                    if x:
                        return x
        return None

    def require_func(self, modname, qual):
        m = self.mod(modname)
        if "." in qual:
            c, f = qual.split(".")
            if c in m.classes and f in m.classes[c].methods:
                return m.classes[c].methods[f]
        elif qual in m.funcs:
            return m.funcs[qual]
        raise AnalysisBroken(f"anchor {modname}:{qual} not found")


def load_schema(project):
    import ruamel.yaml
    p = os.path.join(project.repo, PKG, "data", "configschema.yml")
    if not os.path.exists(p):
        raise AnalysisBroken("configschema.yml not found")
    with open(p) as f:
        return ruamel.yaml.YAML(typ="safe", pure=True).load(f)


def land_cover_schema(project):
    r = getattr(project, "_lcs", None)
    if r is None:
        import ruamel.yaml
        p = os.path.join(project.repo, PKG, "data", "land_cover_class_schema.yml")
        r = {}
        if os.path.exists(p):
            with open(p) as f:
                r = ruamel.yaml.YAML(typ="safe", pure=True).load(f) or {}
        project._lcs = r
    return r


# options whose unit is documented in prose above the option instead of behind it
EXTRA_CFG_UNITS = {
    ("snow", "min_thickness"): "m", ("snow", "cryolayers", "transition", "old_snow"): "kg m-3",
    ("snow", "cryolayers", "transition", "ice"): "kg m-3", ("snow", "cryolayers", "surface_heat_flux"): "W m-2",
    ("soil", "thickness"): "m", ("land_cover", "classes", "*", "max_height"): "m",
    ("land_cover", "classes", "*", "depletion_fraction"): "1",
    ("land_cover", "classes", "*", "sparse_vegetation_fraction"): "1",
    ("meteo", "radiation", "snow_emissivity"): "1", ("meteo", "radiation", "cloud_emissivity"): "1",
    ("snow", "albedo", "min"): "1", ("snow", "albedo", "max"): "1", ("snow", "albedo", "firn"): "1", ("snow", "albedo", "ice"): "1",
    ("soil", "sand_fraction"): "1", ("soil", "clay_fraction"): "1", ("soil", "init_moisture_content"): "1", ("soil", "albedo"): "1",
    ("evapotranspiration", "min_crop_coefficient"): "1", ("evapotranspiration", "grass_albedo"): "1",
    ("evapotranspiration", "grass_emissivity"): "1", ("evapotranspiration", "sealed_albedo"): "1",
    ("evapotranspiration", "sealed_emissivity"): "1",
    ("snow", "cryolayers", "cold_holding_capacity"): "1", ("snow", "cryolayers", "refreezing_factor"): "1",
    ("snow", "liquid_water_content", "max"): "1", ("canopy", "extinction_coefficient"): "1",
    ("canopy", "max_interception_storage_coefficient"): "kg m-2", ("canopy", "temperature_scaling_coefficient"): "1",
    ("canopy", "exposure_coefficient_coefficient"): "1", ("canopy", "canopy_flow_index_coefficient"): "1",
    ("meteo", "radiation", "single_scattering_albedo"): "1", ("meteo", "radiation", "clear_sky_albedo"): "1",
    ("meteo", "interpolation", "cloudiness", "saturation_cloud_fraction"): "1",
    ("evapotranspiration", "surface_soil_layer_evaporation_depth"): "m",
}


def config_units(project):
    """units documented in the comments of the configuration schemas: path -> Unit"""
    from . import units as un
    out = {k: un.parse(v) for k, v in EXTRA_CFG_UNITS.items()}
    for fn, prefix in (("configschema.yml", ()), ("land_cover_class_schema.yml", ("land_cover", "classes", "*"))):
        p = os.path.join(project.repo, PKG, "data", fn)
        if not os.path.exists(p):
            continue
        stack = []
        for ln in open(p):
            m = re.match(r"^(\s*)([A-Za-z_0-9]+):\s*(?:#(.*))?$", ln.rstrip("\n"))
            m2 = m or re.match(r"^(\s*)([A-Za-z_0-9]+):", ln)
            if not m2 or ln.strip().startswith("#"):
                continue
            ind = len(m2.group(1))
            while stack and stack[-1][0] >= ind:
                stack.pop()
            stack.append((ind, m2.group(2)))
            if m and m.group(3):
                path = prefix + tuple(x for _, x in stack if x != "schema")
                us = [un.parse(x) for x in re.findall(r"\(([^()]*)\)", m.group(3))] or [un.parse(m.group(3))]
                us = [u for u in us if u is not None]
                if us:
                    out[path] = us[-1]
    return out
