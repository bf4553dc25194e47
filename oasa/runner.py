"""Interpret many configurations in parallel; each worker reduces a ModelRun to plain data."""
import multiprocessing as mp
import os
import sys

from . import configs
from . import poly as p
from .project import Project, load_schema, AnalysisBroken
from .values import *
from .engine import Engine
from .model import ModelRun, _Root

_PR = None
_SC = None
_ARGS = None


def validated(project, schema, spec):
    """-> spec as validate_config leaves it, or None when validate_config rejects it"""
    m = project.modules.get("openamundsen.conf")
    f = m.funcs.get("validate_config") if m else None
    if f is None:
        raise AnalysisBroken("openamundsen.conf:validate_config not found")
    e = Engine(project, spec, schema)
    e.OPAQUE_MODULES = tuple(x for x in e.OPAQUE_MODULES if x != "openamundsen.conf")
    e.track_cfg = True
    st = State({}, {})
    e.stack.append(_Root(m))
    e.callnodes.append(None)
    try:
        e.call_func(FnV(f, None), [CfgV(())], {}, st, f.node)
    except Dead:
        return None
    return e.spec


def all_specs(project, schema, tier="quick", bases_only=False):
    """list of validated specs (deduplicated), and the rejected ones"""
    specs, rejected = [], []
    seen = set()

    def push(d):
        v = validated(project, schema, d)
        if v is None:
            rejected.append(d)
            return
        k = repr(sorted(v.items(), key=repr))
        if k not in seen:
            seen.add(k)
            specs.append(v)

    bases = configs.base_specs()
    for b in bases:
        push(b)
    if not bases_only:
        full = {("snow", "model"): "cryolayers", ("canopy", "enabled"): True, ("evapotranspiration", "enabled"): True,
                ("glaciers", "enabled"): True}
        mul = {("canopy", "enabled"): True, ("evapotranspiration", "enabled"): True}
        for v in configs.variations(schema):
            push({**mul, **v})
            push({**full, **v})
        for v in configs.two_way(schema):
            push({**mul, **v})
    return specs, rejected


def _init(pr, sc, args):
    global _PR, _SC, _ARGS
    _PR, _SC, _ARGS = pr, sc, args
    sys.setrecursionlimit(20000)


def _work(item):
    fn, spec = item
    return fn(_PR, _SC, spec)


def pmap(fn, project, schema, specs, procs=None):
    procs = procs or min(8, os.cpu_count() or 1)
    if procs <= 1 or len(specs) <= 1:
        return [fn(project, schema, s) for s in specs]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, _init, (project, schema, None), maxtasksperchild=4) as pool:
        return pool.map(_work, [(fn, s) for s in specs], chunksize=1)
