"""Interpretation of the output managers over histories of time steps.

Dates are abstracted to their position in the simulation period (a finite index domain with
the order, membership and selection operations of a DatetimeIndex); datasets are abstracted to
their time coordinates and the symbolic values stored in them; files to the dates they hold.
State fields are fresh symbols in every step, so a stored value is a normal form over the
values of individual steps."""
import ast

from . import poly as p
from . import units as un
from .engine import Engine
from .model import ModelRun
from .values import *
from .values import _S


class Dates(_S): pass        # (tuple of ints,)
class Mask(_S): pass         # (tuple of bools,)
class DsV(_S): pass          # (id,)
class DsPart(_S): pass       # (id, part)
class DsVar(_S): pass        # (id, name)
class DfV(_S): pass          # (id,)


class A2S:
    """two-column table of dates (heap object)"""
    def __init__(self, rows):
        self.rows = tuple(tuple(r) for r in rows)

    def __eq__(self, o):
        return isinstance(o, A2S) and self.rows == o.rows


class Ds:
    def __init__(self, times, dims, kind="mem", attrs=None, coords=None):
        self.coords = dict(coords or {})
        self.times, self.dims, self.kind, self.file = dict(times), dict(dims), kind, None
        self.attrs = attrs if attrs is not None else {}
        self.closed = False
        self.set_later = []


PASS_METHODS = {"copy", "drop_vars", "sel", "isel", "load", "compute", "drop_sel", "squeeze", "reset_coords", "assign_coords", "assign_attrs", "rename", "transpose", "persist", "chunk"}


class OutEngine(Engine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.ds = []
        self.files = {}
        self.ops = []          # ("store", ds, var, parts, value, node, func, pathcond) | ("file", mode, file, times, node, func, pathcond) | ("raster", ...)
        self.freq_dates = None
        self.unknown = []      # constructs on dates the abstraction does not cover

    def log(self, *x, node=None):
        if not self.quiet:
            f = self.stack[-1]
            self.ops.append(x + (f.mod.rel, getattr(node, "lineno", 0), f.qual, self.pathcond[-1]))

    def newds(self, *a, **k):
        self.ds.append(Ds(*a, **k))
        return DsV(len(self.ds) - 1)

    # ---------------------------------------------------------------- operators
    def dates_of(self, v, st):
        if isinstance(v, Dates):
            return v.a[0]
        its = self.loop_items(v, st)
        if its is not None and all(isinstance(x, PC) and isinstance(x.v, int) for x in its):
            return tuple(x.v for x in its)
        return None

    def cmp(self, op, a, b, st, node):
        if isinstance(a, Unbound):
            a = a.v
        if isinstance(b, Unbound):
            b = b.v
        if not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) and (isinstance(a, Dates) or isinstance(b, Dates)):
            import operator as o
            f = {ast.Gt: o.gt, ast.Lt: o.lt, ast.GtE: o.ge, ast.LtE: o.le, ast.Eq: o.eq, ast.NotEq: o.ne}.get(type(op))
            if f and isinstance(a, Dates) and isinstance(b, PC) and isinstance(b.v, int):
                return Mask(tuple(f(x, b.v) for x in a.a[0]))
            if f and isinstance(b, Dates) and isinstance(a, PC) and isinstance(a.v, int):
                return Mask(tuple(f(a.v, x) for x in b.a[0]))
            if f and isinstance(a, Dates) and isinstance(b, Dates) and len(a.a[0]) == len(b.a[0]):
                return Mask(tuple(f(x, y) for x, y in zip(a.a[0], b.a[0])))
        return super().cmp(op, a, b, st, node)

    def contains(self, a, b, st, node):
        if isinstance(b, Unbound):
            b = b.v
        a = self.const(a)
        if isinstance(b, Dates) and isinstance(a, PC):
            return a.v in b.a[0]
        if isinstance(b, DsV) and isinstance(a, PC):
            d = self.ds[b.a[0]]
            return a.v in d.times or a.v in d.dims
        return super().contains(a, b, st, node)

    def numop(self, op, a, b, st, node):
        if isinstance(a, Mask) and isinstance(b, Mask) and op in ("and", "or", "mul", "add"):
            f = (lambda x, y: x and y) if op in ("and", "mul") else (lambda x, y: x or y)
            return Mask(tuple(f(x, y) for x, y in zip(a.a[0], b.a[0])))
        return super().numop(op, a, b, st, node)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Invert):
            v = self.expr(e.operand, st)
            if isinstance(v, Mask):
                return Mask(tuple(not x for x in v.a[0]))
        return super().e_UnaryOp(e, st)

    def loop_items(self, it, st):
        if isinstance(it, Dates):
            return [PC(x) for x in it.a[0]]
        if isinstance(it, DsPart):
            d = self.ds[it.a[0]]
            if it.a[1] in ("coords", "indexes"):
                return [PC(x) for x in d.coords]
            if it.a[1] in ("dims", "sizes"):
                return [PC(x) for x in dict.fromkeys(y for t in d.dims.values() for y in t)]
            if it.a[1] == "data_vars":
                return [PC(x) for x in d.dims if x not in d.coords]
        return super().loop_items(it, st)

    def _truth(self, v, st, node):
        if isinstance(v, (DsV, DsVar, DfV)):
            return p.ONE
        return super()._truth(v, st, node)

    # ---------------------------------------------------------------- attributes
    def getattr(self, v, name, st, node):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, (Dates, Mask)):
            if name in ("values", "array"):
                return v
            if name == "freqstr":
                return PC("h")
            if name == "size":
                return PC(len(v.a[0]))
            if name in ("attrs", "encoding"):
                return Opq(("dateattrs", v.a))
            return BoundM(v, name)
        if isinstance(v, DsV):
            d = self.ds[v.a[0]]
            if name in ("attrs", "encoding"):
                return DsPart(v.a[0], name)
            if name in ("indexes", "variables", "coords", "data_vars", "dims", "sizes", "dimensions"):
                return DsPart(v.a[0], name)
            if name in d.times:
                return d.times[name]
            if name in d.dims:
                return DsVar(v.a[0], name)
            return BoundM(v, name)
        if isinstance(v, DsVar):
            if name in ("values", "loc", "data", "variable", "iloc"):
                return v
            if name == "dimensions" or name == "dims":
                return Tup(tuple(PC(x) for x in self.ds[v.a[0]].dims.get(v.a[1], ())))
            if name in ("attrs", "encoding"):
                return Opq(("varattrs", v.a))
            return BoundM(v, name)
        if isinstance(v, DfV):
            return BoundM(v, name)
        if isinstance(v, PC) and isinstance(v.v, int) and not isinstance(v.v, bool) and name in ("to_datetime64", "to_pydatetime", "to_pandas", "normalize_"):
            return BoundM(v, name)
        return super().getattr(v, name, st, node)

    def a2slice(self, x, n):
        if isinstance(x, PC) and isinstance(x.v, int):
            return x.v
        if isinstance(x, SliceV):
            return list(range(n))[slice(*[None if y is None or y.v is None else y.v for y in x.a])]
        raise ValueError

    def const(self, v):
        """literal tuples are constants (dictionary keys)"""
        if isinstance(v, Tup):
            xs = [self.const(x) for x in v.a[0]]
            if all(isinstance(x, PC) for x in xs):
                return PC(tuple(x.v for x in xs))
        return v

    def getitem(self, v, parts, st, node):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), DictS):
            parts = [self.const(parts[0])] if len(parts) == 1 else [self.const(Tup(tuple(parts)))]
        if isinstance(v, (Dates, Mask)):
            x = parts[0]
            if isinstance(x, Unbound):
                x = x.v
            t = v.a[0]
            if isinstance(x, Mask) and len(x.a[0]) == len(t):
                return type(v)(tuple(a for a, b in zip(t, x.a[0]) if b))
            if isinstance(x, Dates):
                return type(v)(tuple(t[i] for i in x.a[0]))
            if isinstance(x, PC) and isinstance(x.v, int):
                if -len(t) <= x.v < len(t):
                    return PC(t[x.v])
                raise Dead("IndexError")
            if len(parts) == 2 and isinstance(x, SliceV) and isinstance(parts[1], PC) and parts[1].v is None:
                return self.alloc(st, A2S([(y,) for y in t]))
            if isinstance(x, SliceV) and len(parts) == 1:
                try:
                    return type(v)(t[slice(*[None if y is None or y.v is None else y.v for y in x.a])])
                except Exception:
                    pass
            return Opq(("dates", v.a[0], tuple(map(repr, parts))))
        if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), A2S):
            rows = st.heap[v.a[0]].rows
            r = self.a2slice(parts[0], len(rows))
            if isinstance(r, int) and len(parts) == 1:
                return Dates(rows[r])
            if len(parts) == 2 and isinstance(parts[1], PC):
                return Dates(tuple(rows[i][parts[1].v] for i in r)) if not isinstance(r, int) else PC(rows[r][parts[1].v])
            if len(parts) == 2 and isinstance(r, int):
                return Dates(rows[r])
            return Opq(("a2", rows, tuple(map(repr, parts))))
        if isinstance(v, DsPart) and v.a[1] == "coords" and isinstance(parts[0], PC) and parts[0].v in self.ds[v.a[0]].coords:
            return self.ds[v.a[0]].coords[parts[0].v]
        if isinstance(v, DsV) or isinstance(v, DsPart) and v.a[1] not in ("attrs", "encoding", "dims", "sizes"):
            d = self.ds[v.a[0]]
            if isinstance(parts[0], PC):
                if parts[0].v in d.times and d.kind != "nc":
                    return d.times[parts[0].v]
                return DsVar(v.a[0], parts[0].v)
            return DsVar(v.a[0], repr(self.key(parts[0], st)))
        if isinstance(v, DsVar):
            return v if v.a[1] not in self.ds[v.a[0]].times else Opq(("dsvar", v.a, tuple(map(repr, parts))))
        if isinstance(v, DsPart):
            return Opq(("dspart", v.a, tuple(map(repr, parts))))
        return super().getitem(v, parts, st, node)

    def setitem(self, v, parts, val, st, node, aug=None):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), DictS):
            parts = [self.const(parts[0])] if len(parts) == 1 else [self.const(Tup(tuple(parts)))]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), A2S):
            rows = [list(r) for r in st.heap[v.a[0]].rows]
            r = self.a2slice(parts[0], len(rows))
            c = parts[1].v
            if isinstance(r, int):
                rows[r][c] = val.v
            else:
                vs = val.a[0] if isinstance(val, Dates) else [val.v] * len(r)
                for i, y in zip(r, vs):
                    rows[i][c] = y
            st.heap[v.a[0]] = A2S(rows)
            return
        if isinstance(v, DsVar):
            self.log("store", v.a[0], v.a[1], tuple(parts), self.num(val, st) if self.is_arr(val, st) or isinstance(val, Num) else val, node=node)
            return
        if isinstance(v, DsV):
            d = self.ds[v.a[0]]
            if isinstance(parts[0], PC) and isinstance(val, Dates):
                d.times[parts[0].v] = val
            elif not isinstance(val, Dates):
                d.set_later.append((val, getattr(node, "lineno", 0), self.stack[-1]))
            return
        if isinstance(v, DsPart):
            if v.a[1] == "attrs" and isinstance(parts[0], PC):
                self.ds[v.a[0]].attrs[parts[0].v] = (val, getattr(node, "lineno", 0), self.stack[-1].qual)
            return
        return super().setitem(v, parts, val, st, node, aug)

    def arr_get(self, v, parts, st, node):
        its = [self.loop_items(x, st) if isinstance(x, (Ref, Tup)) and not self.is_arr(x, st) else None for x in parts[-2:]]
        if len(its) == 2 and all(i is not None for i in its):
            n = self.num(v, st)
            lay = n.lay if len(parts) == 3 else None
            return Num(n.t, n.u, ("pts", tuple(map(repr, its[0])), tuple(map(repr, its[1]))), lay, n.out) if lay is not None or n.lay is None else super().arr_get(v, parts, st, node)
        return super().arr_get(v, parts, st, node)

    # ---------------------------------------------------------------- methods, libraries
    def method(self, o, name, args, kw, st, node):
        if isinstance(o, Ref) and isinstance(st.heap.get(o.a[0]), A2S) and name in ("copy", "astype"):
            return self.alloc(st, st.heap[o.a[0]])
        if isinstance(o, Dates):
            if name == "append":
                x = self.dates_of(args[0], st)
                if x is not None:
                    return Dates(o.a[0] + x)
            if name in ("copy", "to_numpy", "unique", "sort_values", "to_list", "tolist", "union"):
                if name == "union":
                    x = self.dates_of(args[0], st)
                    return Dates(tuple(sorted(set(o.a[0]) | set(x or ()))))
                return o
            if name in ("get_loc",) and isinstance(args[0], PC):
                return PC(o.a[0].index(args[0].v))
            if name in ("min", "max"):
                return PC({"min": min, "max": max}[name](o.a[0]))
            return Opq(("datesm", o.a, name, tuple(map(repr, args))))
        if isinstance(o, Mask):
            if name in ("any", "all"):
                return PC({"any": any, "all": all}[name](o.a[0]))
            if name == "argmax":
                return PC(o.a[0].index(True) if True in o.a[0] else 0)
            if name == "nonzero":
                return Tup((Dates(tuple(i for i, x in enumerate(o.a[0]) if x)),))
            if name == "sum":
                return PC(sum(o.a[0]))
        if isinstance(o, PC) and name == "to_datetime64":
            return o
        if isinstance(o, DsV):
            d = self.ds[o.a[0]]
            if name == "to_netcdf":
                key = repr(self.key(args[0], st)) if args else "?"
                m = kw.get("mode", args[1] if len(args) > 1 else PC("w"))
                mode = m.v if isinstance(m, PC) else "?"
                self.log("file", mode, key, tuple(sorted(d.times.items(), key=repr)), node=node)
                self.files[key] = (self.files.get(key, ()) if mode == "a" else ()) + (o.a[0],)
                return PC(None)
            if name == "close":
                d.closed = True
                self.log("close", o.a[0], node=node)
                return PC(None)
            if name == "to_dataframe":
                return DfV(o.a[0])
            if name == "copy":
                return self.newds(d.times, d.dims, d.kind, dict(d.attrs), d.coords)
            if name == "drop_sel":
                return self.newds({}, d.dims, d.kind, dict(d.attrs), d.coords)
            if name in PASS_METHODS:
                return o
            return Opq(("dsm", o.a, name))
        if isinstance(o, DsVar):
            return o if name in PASS_METHODS else Opq(("dsvarm", o.a, name))
        if isinstance(o, DfV):
            if name == "to_csv":
                m = kw.get("mode", PC("w"))
                mode = m.v if isinstance(m, PC) else "?"
                key = repr(self.key(args[0], st)) if args else "?"
                h = kw.get("header", PC(True))
                self.log("file", mode, key, tuple(sorted(self.ds[o.a[0]].times.items(), key=repr)), h, node=node)
                return PC(None)
            return o
        if isinstance(o, StateV) and name in ("meta", "parse") and args and isinstance(args[0], PC) and "." in str(args[0].v):
            cat, nm = args[0].v.split(".", 1)
            if name == "parse":
                return Tup((PC(cat), PC(nm)))
            m = self.fields.get((cat, nm))
            if m is not None:
                return self._constdict(dict(dim3=PC(0) if m["lay"] is None else PC(3), dtype=Ext("builtins." + m["dtype"]), units=PC(m["units"]),
                                            standard_name=PC(None), long_name=PC(None), retain=PC(m["retain"])))
        return super().method(o, name, args, kw, st, node)

    def builtin(self, name, args, kw, st, node):
        if args and isinstance(args[0], (Dates, Mask)):
            if name == "len":
                return PC(len(args[0].a[0]))
            if name in ("list", "tuple", "sorted"):
                return Tup(tuple(PC(x) for x in args[0].a[0]))
        if name == "isinstance" and args and isinstance(args[0], Opq):
            return None
        if name in ("iter",) and args and self.loop_items(args[0], st) is not None:
            return Tup(tuple(self.loop_items(args[0], st)))
        if name == "next" and args and isinstance(args[0], Tup) and args[0].a[0]:
            return args[0].a[0][0]
        if name == "getattr" and len(args) >= 2 and isinstance(args[1], PC):
            return self.getattr(args[0], args[1].v, st, node)
        return super().builtin(name, args, kw, st, node)

    def np_call(self, name, args, kw, st, node):
        x = args[0] if args else None
        if isinstance(x, Mask):
            nz = Dates(tuple(i for i, b in enumerate(x.a[0]) if b))
            if name in ("flatnonzero",):
                return nz
            if name in ("nonzero", "where") and len(args) == 1:
                return Tup((nz,))
            if name == "argmax":
                return PC(x.a[0].index(True) if True in x.a[0] else 0)
            if name in ("any", "all"):
                return PC({"any": any, "all": all}[name](x.a[0]))
            if name in ("asarray", "array"):
                return x
            if name == "logical_not":
                return Mask(tuple(not b for b in x.a[0]))
            if name in ("logical_and", "logical_or") and isinstance(args[1], Mask):
                return self.numop("and" if name.endswith("and") else "or", x, args[1], st, node)
        if isinstance(x, Dates):
            if name in ("asarray", "array", "unique", "sort"):
                return x
            if name == "searchsorted" and isinstance(args[1], PC):
                import bisect
                s = kw.get("side", PC("left")).v
                return PC((bisect.bisect_left if s == "left" else bisect.bisect_right)(x.a[0], args[1].v))
            if name == "isin":
                y = self.dates_of(args[1], st)
                return Mask(tuple(z in y for z in x.a[0]))
        if name in ("repeat", "tile", "column_stack", "stack"):
            if isinstance(x, Ref) and isinstance(st.heap.get(x.a[0]), A2S) and name == "repeat" and isinstance(args[1], PC):
                return self.alloc(st, A2S([r * args[1].v for r in st.heap[x.a[0]].rows]))
            its = self.loop_items(x, st) if x is not None and not isinstance(x, Dates) else None
            if its and len(its) == 2 and all(isinstance(y, Dates) for y in its) and name in ("column_stack", "stack"):
                return self.alloc(st, A2S(list(zip(its[0].a[0], its[1].a[0]))))
        if name == "issubdtype" and isinstance(x, Ext) and isinstance(args[1], Ext):
            d, k = x.a[0].split(".")[-1], args[1].a[0].split(".")[-1]
            if k in ("integer", "floating") and d.rstrip("0123456789_") in ("int", "uint", "float", "bool"):
                return PC(d.startswith(("int", "uint")) if k == "integer" else d.startswith("float"))
        return super().np_call(name, args, kw, st, node)

    def ext_call(self, name, args, kw, st, node):
        if name == "pandas.date_range" and self.freq_dates is not None:
            lo, hi = kw.get("start", args[0] if args else None), kw.get("end", args[1] if len(args) > 1 else None)
            if isinstance(lo, PC) and isinstance(hi, PC) and isinstance(lo.v, int) and isinstance(hi.v, int):
                return Dates(tuple(x for x in self.freq_dates if lo.v <= x <= hi.v))
        if name in ("pandas.to_datetime", "pandas.DatetimeIndex") and args:
            x = self.dates_of(args[0], st)
            if x is not None:
                return Dates(x)
            if isinstance(args[0], PC):
                return args[0]
        if name.endswith(".encode_cf_datetime") and args and (isinstance(args[0], Dates) or isinstance(args[0], Ref)):
            return Tup((args[0], Opq(("timeunits",)), Opq(("calendar",))))      # encoding is one-to-one
        if name == "xarray.Dataset":
            return self.make_ds(args, kw, st)
        if name in ("xarray.open_dataset", "xarray.load_dataset"):
            key = repr(self.key(args[0], st))
            ids = self.files.get(key)
            if ids is None:
                raise Dead("FileNotFoundError")
            t = {}
            for i in ids:
                for k, v in self.ds[i].times.items():
                    t[k] = Dates(t.get(k, Dates(())).a[0] + v.a[0])
            return self.newds(t, self.ds[ids[-1]].dims)
        if name == "netCDF4.Dataset":
            key = repr(self.key(args[0], st))
            ids = self.files.get(key)
            if ids is None:
                raise Dead("FileNotFoundError")
            self.log("open", key, node=node)
            return self.newds(self.ds[ids[-1]].times, self.ds[ids[-1]].dims, "nc")
        if name in ("xarray.concat", "xarray.merge", "xarray.combine_by_coords", "xarray.combine_nested") and args:
            its = self.loop_items(args[0], st)
            if its and all(isinstance(x, DsV) for x in its):
                t = {}
                for x in its:
                    for k, v in self.ds[x.a[0]].times.items():
                        t[k] = Dates(t.get(k, Dates(())).a[0] + v.a[0])
                if name != "xarray.concat":
                    t = {k: Dates(tuple(sorted(set(v.a[0])))) for k, v in t.items()}
                return self.newds(t, self.ds[its[-1].a[0]].dims)
        return super().ext_call(name, args, kw, st, node)

    def make_ds(self, args, kw, st):
        data = kw.get("data_vars", args[0] if args else None)
        coords = kw.get("coords", args[1] if len(args) > 1 else None)
        times, dims, cs = {}, {}, {}
        for src in (data, coords):
            s = st.heap.get(src.a[0]) if isinstance(src, Ref) else None
            if not isinstance(s, DictS):
                continue
            for k, v in s.items.items():
                its = self.loop_items(v, st)
                if not its:
                    continue
                dn = self.loop_items(its[0], st) if not isinstance(its[0], PC) else [its[0]]
                dims[k] = tuple(x.v for x in dn or () if isinstance(x, PC))
                if len(its) > 1 and isinstance(its[1], Dates):
                    times[k] = its[1]
                if src is coords and len(its) > 1:
                    cs[k] = its[1]
        r = self.newds(times, dims, coords=cs)
        self.ds[r.a[0]].raw = (data, coords)
        return r


class OutRun:
    """initialize the model for a configuration, then create an output manager and call update() for each date"""

    def __init__(self, pr, sc, spec, cls, n, variables, freq_dates=None, rasters=False, args=None, engine=OutEngine):
        spec = dict(spec)
        spec[("start_date",)] = 0
        spec[("end_date",)] = n - 1
        m = ModelRun(pr, sc, spec, step=False, engine=engine)
        self.e = e = m.e
        self.error = m.error
        if m.error:
            return
        self.st = st = m.st
        self.model = obj = m.obj
        e.OPAQUE_MODULES = tuple(x for x in e.OPAQUE_MODULES if x not in ("openamundsen.fileio", "openamundsen.liveview")) + \
            ("openamundsen.fileio.meteo",) + (() if rasters else ("openamundsen.fileio.raster",))
        e.freq_dates = freq_dates
        if not rasters:
            e.watch_calls["openamundsen.fileio.raster:write_raster_file"] = self.raster
        self.setmodel(dates=Dates(tuple(range(n))))
        e.phase = "step"
        self.vars = variables
        e.decide = self.decide
        self.undecided = []
        self.assume = {}
        self.self = e.alloc(st, ObjS(cls, {}), None)
        self.cls = cls
        f = pr.find_method(cls, "__init__")
        self.up = pr.find_method(cls, "update")
        cd = pr.find_method(cls, "_create_dataset") or self.up
        self.pr_create = (cd.mod.rel, cd.node.lineno, cd.qual)
        self.n = n
        self.steps = []
        self.failed = None
        self.fields0()
        self.before = dict(st.heap)
        e._evkeys = set()
        k0 = len(e.events)
        try:
            if f is not None:
                e.call_func(FnV(f, self.self), [obj] if args is None else args(e, st, obj), {}, st, f.node)
        except Dead as d:
            self.failed = ("__init__", d.what)
        self.init_events = e.events[k0:]

    def setmodel(self, **kw):
        s = self.st.heap[self.model.a[0]]
        self.st.heap[self.model.a[0]] = ObjS(s.cls, {**s.attrs, **kw})

    def raster(self, e, f, b, st, node):
        v = b.get("data")
        e.log("raster", repr(e.key(b.get("filename"), st)), None, (), e.num(v, st) if v is not None and (e.is_arr(v, st) or isinstance(v, Num)) else v, node=node)
        return PC(None)

    def decide(self, c, node):
        if "len(" in ast.unparse(node) and False:
            return None
        self.undecided.append((self.e.stack[-1].qual, getattr(node, "lineno", 0), ast.unparse(node)))
        return None

    def fields0(self, k="0"):
        """fresh field contents"""
        e, st = self.e, self.st
        for (cat, nm), c in e.fieldcell.items():
            m = e.fields[(cat, nm)]
            name = f"{cat}.{nm}@{k}"
            t = Lay(p.fn("L", name, 0, KAPPA)) if m["lay"] is not None else p.sym(name)
            if m["dtype"].startswith("bool") and m["lay"] is None:
                t = p.ind("fld", name)
            st.heap[c] = Num(t, un.parse(m["units"]) if m["units"] else None, "G", m["lay"], "any")

    def step(self, k):
        e, st = self.e, self.st
        self.fields0(k)
        self.setmodel(date=PC(k), date_idx=PC(k))
        k0, n0 = len(e.ops), len(e.events)
        e._evkeys = set()
        dead = None
        try:
            e.call_func(FnV(self.up, self.self), [], {}, st, self.up.node)
        except Dead as d:
            dead = d.what or "an exception"
        return e.ops[k0:], e.events[n0:], dead
