"""Whole-model analysis: interpret OpenAmundsen.__init__, initialize() and one
generic run_single() step for one configuration, from an arbitrary pre-step state."""
import ast
import time

from . import poly as p
from . import units as un
from .values import *
from .engine import Engine
from .project import AnalysisBroken

RASTER_UNITS = {"base.dem": "m"}


class ModelRun:
    def __init__(self, project, schema, spec, step=True, nan_mode=False, shallow=False, setup=None, early=None, engine=Engine):
        if early:
            early(self)
        self.e = e = engine(project, spec, schema)
        e.nan_mode = nan_mode
        m = project.mod("openamundsen.model")
        cls = m.classes.get("OpenAmundsen")
        if cls is None:
            raise AnalysisBroken("class OpenAmundsen not found")
        e.watch_calls["openamundsen.conf:parse_config"] = lambda en, f, b, st, n: CfgV(())
        if setup:
            setup(e)
        st = State({}, {})
        self.st = st
        root = _Root(m)
        e.stack.append(root)
        e.callnodes.append(None)
        node = cls.node
        self.error = None
        t0 = time.time()
        obj = e.alloc(st, ObjS(cls, {}), "model")
        self.obj = obj
        e.model_ref = obj
        init = project.find_method(cls, "__init__")
        ini = project.find_method(cls, "initialize")
        run = project.find_method(cls, "run_single")
        for f, nm in ((init, "__init__"), (ini, "initialize"), (run, "run_single")):
            if f is None:
                raise AnalysisBroken(f"OpenAmundsen.{nm} not found")
        self.phase = "init"
        e.phase = "init"
        try:
            e.call_func(FnV(init, obj), [Opq(("caller", "config"))], {}, st, node)
            e.call_func(FnV(ini, obj), [], {"meteo": Opq(("caller", "meteo")), "meteo_callback": Opq(("caller", "meteo_callback"))}, st, node)
        except Dead as d:
            self.error = ("initialize", d.what)
        self.t_init = time.time() - t0
        self.n_init = len(p._atoms)          # atoms numbered below were created during initialization
        self.alloc_init = dict(e.alloc_init)  # field contents right after allocation
        self.init_events = list(e.events)
        self.post_init = {k: st.heap[c] for k, c in e.fieldcell.items() if c in st.heap}
        self.init_state = st.fork()
        if step and not self.error:
            e.phase = "step"
            e.symbolic_fields(st)
            # generic date index: neither the first nor a special step
            s = st.heap[obj.a[0]]
            a = dict(s.attrs)
            a["date_idx"] = Num(p.sym("date_idx"), un.ONE)
            a["date"] = Opq(("date",))
            a["_run_method"] = PC("run_single")
            st.heap[obj.a[0]] = ObjS(s.cls, a)
            self.pre = {k: st.heap[c] for k, c in e.fieldcell.items() if c in st.heap}
            n0 = len(e.events)
            try:
                e.call_func(FnV(run, obj), [], {}, st, node)
            except Dead as d:
                self.error = ("run_single", d.what)
            self.step_events = e.events[n0:]
            self.post = {k: st.heap[c] for k, c in e.fieldcell.items() if c in st.heap}
        self.t = time.time() - t0


class _Root:
    def __init__(self, mod):
        self.mod = mod
        self.qual = mod.name + ":<analysis>"
        self.name = "<analysis>"
