"""One pass over all configurations: what each accepted configuration reads, rejects, executes."""
import hashlib
import traceback

from oasa import configs, runner, poly as p
from oasa.engine import Engine
from oasa.model import ModelRun, _Root
from oasa.outsim import OutRun
from oasa.project import AnalysisBroken, land_cover_schema
from oasa.values import *
from .outcommon import open_case, grid_cases, point_cases, base, show as show_case

INPUT_OPEN = ("openamundsen.fileio.griddedoutput", "openamundsen.fileio.pointoutput", "openamundsen.fileio.raster",
              "openamundsen.liveview", "openamundsen.logformat", "openamundsen.conf", "openamundsen.errors")
M = ("input_data", "meteo")
LIVE = ["snow.swe", "meteo.temp"]


def open_inputs(e):
    e.OPAQUE_MODULES = INPUT_OPEN


def input_specs(schema, bspec):
    """configurations that differ in how forcing is read"""
    L = dict(configs.leaves(schema))
    out = []
    flt = L.get(M + ("filters",)) or {}
    it = flt.get("schema") or {}
    vars_, kinds = [], []
    for alt in it.get("oneof", [it]):
        s = alt.get("schema") or {}
        vars_ += (s.get("var") or {}).get("allowed", [])
        kinds += (s.get("filter") or {}).get("allowed", [])
    bspec = {**bspec, M + ("filters",): [{"var": v, "filter": k, "min": "$sym", "max": "$sym"} for k in kinds for v in vars_[:1]]}
    for fmt in configs.choices(L.get(M + ("format",), {})) or [None]:
        b = {**bspec, **({M + ("format",): fmt} if fmt is not None else {})}
        out.append(b)
        if fmt in ("memory", "callback"):
            continue
        for k in ("aggregate_when_downsampling", "enable_missing_data_checks", "bounds"):
            n = L.get(M + (k,))
            for v in (configs.choices(n) or []) if n else []:
                if v != n.get("default"):
                    out.append({**b, M + (k,): v})
    pc = L.get(("meteo", "precipitation_correction", "[]", "method"))
    ph = L.get(("meteo", "precipitation_phase", "method"))
    for m in configs.choices(pc or {}) or []:
        for gauge in {"wmo": ("nipher", "hellmann"), "kochendorfer": ("us_un",)}.get(m, (None,)):
            for v in (configs.choices(ph or {}) or [None]):
                it = {"method": m, **({"gauge": gauge} if gauge else {}), **({"scf": "$sym"} if m == "constant_scf" else {})}
                out.append({**bspec, M + ("format",): "csv", ("meteo", "precipitation_correction"): [it],
                            **({("meteo", "precipitation_phase", "method"): v} if v else {})})
    for k in kinds:
        out += [{**bspec, M + ("filters",): [{"var": v, "filter": k, "min": "$sym", "max": "$sym"}]} for v in vars_]
    return out


class Rec:
    """picklable record of one interpreted run"""
    def __init__(self, kind, label):
        self.kind, self.label = kind, label
        self.crash = self.error = None
        self.reads = {}      # path -> (file, line, func, soft)
        self.absent = {}
        self.cfgw = []
        self.events = []
        self.und = []
        self.ow = set()
        self.sig = None
        self.callback = False
        self.written = self.fields = frozenset()
        self.nstmts = 0


def absorb_engine(r, e, events=None):
    wl = set()
    for x in (e.events if events is None else events):
        d = x.data
        if x.kind == "cfgread":
            k = tuple(map(str, d["path"]))
            old = r.reads.get(k)
            if old is None or (old[3] and not d["soft"]):
                r.reads[k] = (x.file, x.line, x.func, d["soft"])
        elif x.kind == "cfgabsent":
            r.absent[tuple(map(str, d["path"]))] = (x.file, x.line, x.func)
        elif x.kind == "cfgwrite":
            r.cfgw.append((tuple(map(str, d["path"])) if d["path"] else None, x.file, x.line, x.func))
            wl.add((x.file, x.line))
        elif x.kind == "raise":
            if d.get("cond") != p.ZERO:
                r.events.append(("raise", x.file, x.line, x.func, d.get("exc") or "reraise"))
        elif x.kind == "fallthrough":
            r.events.append(("fallthrough", x.file, x.line, x.func, x.msg, d["value"], d["arms"]))
        elif x.kind == "opqwrite":
            r.ow.add((x.file, x.line))
        elif x.kind == "callback":
            r.callback = True
        elif x.kind in ("unbound", "noattr", "nokey", "argmissing", "nonearith"):
            if x.kind == "unbound" and d.get("cond") is None:
                continue
            r.events.append((x.kind, x.file, x.line, x.func, x.msg))
    r.und = list(e.undecided)
    r.nstmts = e.nstmts
    r.sig = hashlib.md5(repr(sorted((type(s).__name__, s.lineno, s.col_offset, id_of(s)) for s in e.visited)).encode()).hexdigest()


def id_of(s):
    return getattr(s, "end_lineno", 0), getattr(s, "end_col_offset", 0)


def model_run(pr, sc, kind, spec):
    return ModelRun(pr, sc, spec, step=kind == "model", setup=open_inputs if kind == "input" else None)


def census(pr, sc, item):
    kind, spec, case = item
    r = Rec(kind, configs.show(spec) if case is None else show_case(case))
    try:
        if kind in ("model", "input"):
            m = model_run(pr, sc, kind, spec)
            r.error = m.error
            absorb_engine(r, m.e)
            r.written = frozenset(".".join(k) for k, c in m.e.fieldcell.items() if kind == "model" and not r.error and m.post[k] is not m.pre[k])
            r.fields = frozenset(".".join(k) for k in m.e.fieldcell)
        elif case[0] == "live":
            o, dead = live_run(pr, sc, spec, case)
            r.error = dead
            absorb_engine(r, o.e)
        else:
            o = open_case(pr, sc, spec, case)
            if o.error:
                r.und.append(f"model initialization: {o.error}")
            else:
                r.error = o.failed
                for k in range(4):
                    if r.error:
                        break
                    ops, evs, dead = o.step(k)
                    if dead:
                        r.error = ("update", dead)
            absorb_engine(r, o.e)
    except AnalysisBroken:
        raise
    except Exception:
        tb = traceback.format_exc().strip().splitlines()
        r.crash = tb[-1] + " @ " + tb[-3].strip()
    return r


def live_run(pr, sc, spec, case):
    spec = {**spec, ("liveview", "variables"): LIVE, ("liveview", "blit"): case[1]}
    cls = pr.mod("openamundsen.liveview").classes.get("LiveView")
    if cls is None:
        raise AnalysisBroken("class LiveView not found")

    def args(e, st, obj):
        g = st.heap[obj.a[0]].attrs["grid"]
        return [CfgV(("liveview",)), StateV(), e.getattr(g, "roi", st, cls.node)]
    r = OutRun(pr, sc, spec, cls, 2, None, rasters=True, args=args)
    dead = r.failed
    for nm, a in (("create_window", []), ("update", [Opq(("date",))]), ("close", [])):
        f = pr.find_method(cls, nm)
        if f is None or dead:
            continue
        try:
            r.e.call_func(FnV(f, r.self), a, {}, r.st, f.node)
        except Dead as d:
            dead = (nm, d.what)
    return r, dead


def validation(pr, sc):
    """reads and writes of validate_config over every configuration, accepted or not"""
    m = pr.modules.get("openamundsen.conf")
    f = m.funcs.get("validate_config") if m else None
    if f is None:
        raise AnalysisBroken("openamundsen.conf:validate_config not found")
    recs = []
    bases = configs.base_specs()
    for spec in bases + [{**bases[0], **v} for v in configs.variations(sc)]:
        e = Engine(pr, spec, sc)
        e.OPAQUE_MODULES = tuple(x for x in e.OPAQUE_MODULES if x != "openamundsen.conf")
        e.track_cfg = True
        st = State({}, {})
        e.stack.append(_Root(m))
        e.callnodes.append(None)
        r = Rec("validate", configs.show(spec))
        try:
            e.call_func(FnV(f, None), [CfgV(())], {}, st, f.node)
        except Dead as d:
            r.error = ("validate_config", d.what)
        absorb_engine(r, e)
        recs.append(r)
    return recs


def items(pr, sc, thorough=False):
    specs, rejected = runner.all_specs(pr, sc)
    out = [("model", s, None) for s in specs]
    L = dict(configs.leaves(sc))
    for m in configs.choices(L.get(("snow", "melt", "method"), {})) or []:       # required parameters left out
        v = runner.validated(pr, sc, {("snow", "model"): "cryolayers", ("snow", "melt", "method"): m})
        if v is not None and not any(repr(sorted(v.items(), key=repr)) == repr(sorted(x.items(), key=repr)) for x in specs):
            out.append(("model", v, None))
    b = base(pr, sc)
    out += [("input", s, None) for s in input_specs(sc, b)]
    gc = grid_cases(thorough)
    out += [("out", b, c) for c in (gc if thorough else gc[::3]) + point_cases(thorough)[::2]]
    out += [("out", b, ("point", "netcdf", (0, 2, 4), True)), ("out", b, ("live", True)), ("out", b, ("live", False))]
    return out, rejected


def find_schema(pr, sc, path):
    """schema node of an option path, or None"""
    if len(path) > 3 and path[:2] == ("land_cover", "classes"):
        node, n = land_cover_schema(pr), None
        path = path[3:]
    else:
        node, n = sc, None
    for part in path:
        n = node.get(part) if isinstance(node, dict) else None
        if not isinstance(n, dict):
            return None
        node = n.get("schema")
    return n


# ------------------------------------------------------------------ choices of one option compared
def valuation(sc, specs):
    """every option any configuration sets, with the schema default where a configuration leaves it alone"""
    L = dict(configs.leaves(sc))
    opts = sorted({q for s in specs for q in s}, key=repr)
    return opts, [{q: s.get(q, (L.get(q) or {}).get("default")) for q in opts} for s in specs], L


def siblings(sc, recs_specs):
    """(option, rest, {value: index}) for configurations that differ in exactly one option"""
    opts, full, L = valuation(sc, [s for _, s in recs_specs])
    g = {}
    for i, f in enumerate(full):
        kind = recs_specs[i][0]
        for q in opts:
            if configs.choices(L.get(q, {})) is None:
                continue
            rest = (kind,) + tuple(sorted(((k, repr(v)) for k, v in f.items() if k != q), key=repr))
            g.setdefault((q, rest), {})[repr(f[q])] = i
    return [(q, {k: v for k, v in rest[1:]}, d) for (q, rest), d in g.items() if len(d) > 1], L


def applicable(q, rest, L):
    """an option named after a choice of another option only applies to that choice"""
    for o, w in rest.items():
        cs = [c for c in (configs.choices(L.get(o, {})) or []) if isinstance(c, str)]
        for u in cs:
            if repr(u) != w and any(part == u or part.startswith(u + "_") for part in q[len(common(q, o)):]):
                return False
    return True


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return a[:n]


def same_values(pr, sc, item):
    """do two configurations compute the same values in every field?"""
    kind, a, b = item
    try:
        x, y = model_run(pr, sc, kind, a), model_run(pr, sc, kind, b)
        if kind == "model":
            if x.error or y.error or set(x.post) != set(y.post):
                return False
            if any(x.post[k].t != y.post[k].t for k in x.post):
                return False
            z = model_run(pr, sc, kind, a)      # numbering of unknown inputs during initialization may differ between runs
            return all(x.post_init[k].t == y.post_init[k].t for k in x.post_init if x.post_init[k].t == z.post_init[k].t)
        f = lambda m: {k: m.e.key(v, m.st) for k, v in m.st.heap[m.obj.a[0]].attrs.items() if k in ("meteo",)}
        return f(x) == f(y)
    except AnalysisBroken:
        raise
    except Exception:
        return None
