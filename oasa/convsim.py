"""Named-axis types for the conversion of compact output to grids: every array carries, per axis,
the quantity its length stands for, so that a reordering, reshape or scatter which does not put
pixel k at (k // columns, k % columns) of the dimensions it is labelled with is a type error."""
import ast

from . import poly as p
from . import units as un
from .outsim import OutEngine, DsV, DsVar, DsPart, Dates
from .values import *
from .values import _S

ROWS, COLS = Count("Grows"), Count("Gcols")


class AxFlat(_S): pass       # (cid, number of leading axes, order)
class PixPart(_S): pass      # ("row"|"col", index value, divisor)


class AxS:
    """array: axes (keys of their lengths), content"""
    def __init__(self, axes, content, fill=None, puts=()):
        self.axes, self.content, self.fill, self.puts = tuple(axes), content, fill, tuple(puts)

    def __eq__(self, o):
        return isinstance(o, AxS) and (self.axes, self.content, self.puts) == (o.axes, o.content, o.puts)

    def perm(self, order):
        return AxS([self.axes[i] for i in order], self.content, self.fill, self.puts)


class Confused(Exception):
    pass


class ConvEngine(OutEngine):
    conv = False
    decoded = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.problems = []
        self.result = None

    def dimsize(self, d):
        return Num(p.sym("dim:" + d), un.ANY)

    def axkey(self, v, st):
        return repr(self.key(v, st))

    def ax(self, v, st):
        s = st.heap.get(v.a[0]) if isinstance(v, Ref) else None
        return s if isinstance(s, AxS) else None

    def problem(self, rule, node, msg):
        f = self.stack[-1]
        self.problems.append((rule, f.mod.rel, getattr(node, "lineno", 0), f.qual, msg))

    def vardict(self, v, which):
        """attributes or encoding of a variable of the dataset that is converted"""
        d = self.ds[v.a[0]]
        a = dict(getattr(d, "vattrs", {}).get(v.a[1], {}))
        fv = a.pop("_FillValue", None)
        inner = (which == "attrs") != self.decoded
        r = {k: x for k, x in a.items()} if which == "attrs" else {}
        if inner and fv is not None:
            r["_FillValue"] = fv
        return self._constdict(r)

    # ------------------------------------------------------------------
    def getattr(self, v, name, st, node):
        if isinstance(v, Unbound):
            v = v.v
        if self.conv:
            if isinstance(v, DsVar):
                d = self.ds[v.a[0]]
                if v.a[1] not in d.coords:
                    dims = d.dims.get(v.a[1], ())
                    if name in ("values", "data"):
                        return self.alloc(st, AxS([self.axkey(self.dimsize(x), st) for x in dims], ("var", v.a[1])))
                    if name == "ndim":
                        return PC(len(dims))
                    if name == "shape":
                        return Tup(tuple(self.dimsize(x) for x in dims))
                    if name == "dtype":
                        k = getattr(d, "vdtype", {}).get(v.a[1], "float32")
                        return Ext("builtins." + ("float64" if self.decoded and k.startswith("int") else k))
                elif name in ("values", "data"):
                    return d.coords[v.a[1]]
                if name in ("attrs", "encoding"):
                    return self.vardict(v, name)
            if isinstance(v, DsV) and name in self.ds[v.a[0]].coords:
                return DsVar(v.a[0], name)
            if isinstance(v, FlatIdx) and name in ("values", "data"):
                return v
            s = self.ax(v, st)
            if s is not None:
                if name == "shape":
                    return Tup(tuple(self.sizes[a] if a in self.sizes else Opq(("size", a)) for a in s.axes))
                if name == "ndim":
                    return PC(len(s.axes))
                if name == "T":
                    return self.alloc(st, s.perm(range(len(s.axes))[::-1]))
                return BoundM(v, name)
            if isinstance(v, AxFlat):
                return BoundM(v, name)
        return super().getattr(v, name, st, node)

    sizes = {}

    def axkeys_of(self, v, st):
        its = self.loop_items(v, st)
        if its is None:
            return None
        out = []
        for x in its:
            k = self.axkey(x, st)
            self.sizes[k] = x
            out.append(k)
        return out

    def getitem(self, v, parts, st, node):
        if self.conv and isinstance(v, DsPart) and v.a[1] == "attrs" and isinstance(parts[0], PC):
            a = self.ds[v.a[0]].attrs
            if parts[0].v in a:
                return a[parts[0].v][0]
            self.problem("converter-attrs", node, f"the converter needs the attribute {parts[0].v!r}, which the writer does not store")
            raise Dead("KeyError")
        if self.conv and isinstance(v, DsPart) and v.a[1] in ("dims", "sizes") and isinstance(parts[0], PC):
            return self.dimsize(parts[0].v)
        if self.conv and isinstance(v, DsV) and isinstance(parts[0], PC) and parts[0].v in self.ds[v.a[0]].coords:
            return DsVar(v.a[0], parts[0].v)
        if self.conv and isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), DictS):
            d = st.heap[v.a[0]]
            if len(parts) == 1 and isinstance(parts[0], PC) and d.gen is None and parts[0].v not in d.items:
                self.problem("converter-attrs", node, f"the converter needs {parts[0].v!r}, which the writer does not store")
                raise Dead("KeyError")
        return super().getitem(v, parts, st, node)

    def setitem(self, v, parts, val, st, node, aug=None):
        if self.conv:
            s = self.ax(v, st)
            if isinstance(v, AxFlat) or s is not None:
                w = self.ax(val, st)
                idx = [x for x in parts if not (isinstance(x, PC) and x.v is Ellipsis)]
                ell = len(idx) < len(parts)
                full = lambda x: isinstance(x, SliceV) and all(y is None or isinstance(y, PC) and y.v is None for y in x.a)
                while idx and full(idx[0]):
                    idx = idx[1:]
                    ell = True
                if isinstance(v, AxFlat):
                    b = st.heap[v.a[0]]
                    lead = b.axes[:v.a[1]]
                    tail = b.axes[v.a[1]:]
                    if len(idx) == 1 and w is not None:
                        st.heap[v.a[0]] = AxS(b.axes, b.content, b.fill, b.puts + ((tail, v.a[2], idx[0], w, lead, getattr(node, "lineno", 0)),))
                        return
                elif len(idx) == 2 and w is not None and all(isinstance(x, PixPart) for x in idx):
                    st.heap[v.a[0]] = AxS(s.axes, s.content, s.fill, s.puts + ((s.axes[-2:], tuple(idx), None, w, s.axes[:-2], getattr(node, "lineno", 0)),))
                    return
                raise Confused(f"line {getattr(node, 'lineno', 0)}: store into an array of the conversion")
        return super().setitem(v, parts, val, st, node, aug)

    def method(self, o, name, args, kw, st, node):
        if self.conv:
            s = self.ax(o, st)
            if isinstance(o, DsPart) and o.a[1] == "attrs":
                a = self.ds[o.a[0]].attrs
                if name == "get" and isinstance(args[0], PC):
                    return a[args[0].v][0] if args[0].v in a else args[1] if len(args) > 1 else PC(None)
                if name == "copy":
                    return self.builtin("dict", [o], {}, st, node)
                if name == "items":
                    return Tup(tuple(Tup((PC(k), x[0])) for k, x in a.items()))
            if isinstance(o, DsPart) and name in ("items", "keys", "values"):
                ns = self.loop_items(o, st)
                return Tup(tuple(n if name == "keys" else DsVar(o.a[0], n.v) if name == "values" else Tup((n, DsVar(o.a[0], n.v))) for n in ns))
            if isinstance(o, DsVar) and name == "get_axis_num" and isinstance(args[0], PC):
                return PC(self.ds[o.a[0]].dims[o.a[1]].index(args[0].v))
            if isinstance(o, DsVar) and name == "transpose":
                order = [x.v for x in args if isinstance(x, PC)]
                dims = self.ds[o.a[0]].dims[o.a[1]]
                if Ellipsis in order:
                    i = order.index(Ellipsis)
                    order[i:i + 1] = [d for d in dims if d not in order]
                if sorted(order) == sorted(dims):
                    r = self.newds({}, {o.a[1]: tuple(order)})
                    self.ds[r.a[0]].vattrs = getattr(self.ds[o.a[0]], "vattrs", {})
                    self.ds[r.a[0]].vdtype = getattr(self.ds[o.a[0]], "vdtype", {})
                    return DsVar(r.a[0], o.a[1])
            if s is not None:
                if name == "reshape":
                    sh = args if not (len(args) == 1 and self.loop_items(args[0], st) is not None) else self.loop_items(args[0], st)
                    keys = self.axkeys_of(Tup(tuple(sh)), st)
                    order = kw.get("order", PC("C"))
                    if sh and isinstance(sh[-1], PC) and sh[-1].v == -1 and tuple(keys[:-1]) == s.axes[:len(keys) - 1] and isinstance(o, Ref):
                        return AxFlat(o.a[0], len(keys) - 1, order.v if isinstance(order, PC) else "?")
                    raise Confused(f"line {node.lineno}: reshape")
                if name in ("copy", "astype"):
                    return self.alloc(st, s)
                if name == "transpose":
                    return self.np_call("transpose", [o] + ([Tup(tuple(args))] if len(args) > 1 else list(args)), kw, st, node)
                if name in ("swapaxes",):
                    return self.np_call("swapaxes", [o] + list(args), kw, st, node)
                raise Confused(f"line {node.lineno}: array method {name}")
        return super().method(o, name, args, kw, st, node)

    def builtin(self, name, args, kw, st, node):
        if self.conv and args:
            if name in ("int", "float") and isinstance(args[0], (Count, Num)):
                return args[0]
            if name == "dict" and isinstance(args[0], DsPart) and args[0].a[1] == "attrs":
                return self.alloc(st, DictS({k: x[0] for k, x in self.ds[args[0].a[0]].attrs.items()}))
            if name == "divmod" and len(args) == 2 and isinstance(args[0], FlatIdx):
                return Tup((PixPart("row", args[0], self.axkey(args[1], st)), PixPart("col", args[0], self.axkey(args[1], st))))
        return super().builtin(name, args, kw, st, node)

    def numop(self, op, a, b, st, node):
        if self.conv and isinstance(a, FlatIdx) and op in ("floordiv", "mod"):
            return PixPart("row" if op == "floordiv" else "col", a, self.axkey(b, st))
        return super().numop(op, a, b, st, node)

    def np_call(self, name, args, kw, st, node):
        if self.conv:
            x = args[0] if args else None
            s = self.ax(x, st) if x is not None else None
            ints = lambda v: [y.v for y in self.loop_items(v, st)] if self.loop_items(v, st) is not None else [v.v]
            if s is not None:
                n = len(s.axes)
                if name == "moveaxis":
                    src, dst = [i % n for i in ints(args[1])], [i % n for i in ints(args[2])]
                    order = [i for i in range(n) if i not in src]
                    for d, q in sorted(zip(dst, src)):
                        order.insert(d, q)
                    return self.alloc(st, s.perm(order))
                if name == "transpose":
                    ax = kw.get("axes", args[1] if len(args) > 1 else None)
                    order = ints(ax) if ax is not None else list(range(n))[::-1]
                    return self.alloc(st, s.perm([i % n for i in order]))
                if name == "swapaxes":
                    order = list(range(n))
                    i, j = args[1].v, args[2].v
                    order[i], order[j] = order[j], order[i]
                    return self.alloc(st, s.perm(order))
                if name in ("asarray", "array", "copy", "ascontiguousarray"):
                    return self.alloc(st, s)
                raise Confused(f"line {node.lineno}: numpy {name}")
            if name in ("full", "empty", "zeros", "ones"):
                keys = self.axkeys_of(x, st)
                if keys is not None:
                    fill = (args[1] if len(args) > 1 else kw.get("fill_value")) if name == "full" else PC(name)
                    return self.alloc(st, AxS(keys, ("new",), (fill, getattr(node, "lineno", 0))))
            if name == "arange" and len(args) == 1:
                return Num(p.fn("arange", self.num(x, st).t), un.ANY, "?")
            if name == "unravel_index" and isinstance(x, FlatIdx):
                sh = self.axkeys_of(args[1], st)
                order = kw.get("order", args[2] if len(args) > 2 else PC("C"))
                if len(sh) == 2 and order.v == "C":
                    return Tup((PixPart("row", x, sh[1]), PixPart("col", x, sh[1])))
                if len(sh) == 2:
                    return Tup((PixPart("col", x, sh[0]), PixPart("row", x, sh[0])))
            if name in ("asarray", "array") and isinstance(x, FlatIdx):
                return x
        return super().np_call(name, args, kw, st, node)

    def make_ds(self, args, kw, st):
        r = super().make_ds(args, kw, st)
        d = self.ds[r.a[0]]
        data = kw.get("data_vars", args[0] if args else None)
        coords = kw.get("coords", args[1] if len(args) > 1 else None)
        d.vattrs, d.vdtype, d.vals = {}, {}, {}
        for src in (data, coords):
            s = st.heap.get(src.a[0]) if isinstance(src, Ref) else None
            for k, v in (s.items.items() if isinstance(s, DictS) else ()):
                its = self.loop_items(v, st) or []
                if len(its) > 1:
                    d.vals[k] = its[1]
                if len(its) > 2 and isinstance(its[2], Ref) and isinstance(st.heap.get(its[2].a[0]), DictS):
                    d.vattrs[k] = dict(st.heap[its[2].a[0]].items)
        at = kw.get("attrs", args[2] if len(args) > 2 else None)
        if isinstance(at, Ref) and isinstance(st.heap.get(at.a[0]), DictS):
            d.attrs.update({k: (x, 0, None) for k, x in st.heap[at.a[0]].items.items()})
        self.result = r
        return r

    def ext_call(self, name, args, kw, st, node):
        if self.conv and name == "xarray.DataArray":
            raise Confused(f"line {node.lineno}: DataArray")
        return super().ext_call(name, args, kw, st, node)
