"""Flow-sensitive interprocedural abstract interpreter for the package source.

Nothing is executed: statements are transferred over an abstract state
(locals + heap of symbolic array values), branches are joined, loop bodies are
transferred once from a generalised entry state.
"""
import ast
import sys
from fractions import Fraction

from . import poly as p
from . import units as un
from .values import *
from .project import Func, Class, Module, AnalysisBroken, config_units, land_cover_schema
from .interp import Interp, comment_unit

sys.setrecursionlimit(20000)

MAX_DEPTH = 40
KEEP_LITS = {Fraction(x) for x in (1, -1, 2, -2, 3, 4, 6, 8)} | {Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4), Fraction(1, 3), Fraction(2, 3), Fraction(4, 3)}

# constants measured in mixed time/angle units
CONST_UNITS = {
    "DAYS_PER_YEAR": {"d": 1}, "HOURS_PER_DAY": {"h": 1, "d": -1},
    "MINUTES_PER_HOUR": None, "SECONDS_PER_HOUR": {"s": 1, "h": -1},
    "VON_KARMAN": {},
}


# documentation slips (the documented unit is a typo; the behaviour is right)
DOC_OVERRIDES = {
    ("_compaction_empirical", "max_cold_density"): "kg m-3",
    ("_compaction_empirical", "max_melting_density"): "kg m-3",
}


def _has_literal(t):
    """a bare number was added somewhere in the term (empirical exponent)"""
    if isinstance(t, Lay):
        t = t.base
    if () in t.m:
        return True
    return any(p.get_atom(i).kind == "fn" and p.get_atom(i).key[0] == "inv" and _has_literal(p.get_atom(i).key[1]) for i in t.atoms())


class Engine(Interp):
    OPAQUE_MODULES = ("openamundsen.fileio", "openamundsen.liveview", "openamundsen.logformat",
                      "openamundsen.forcing", "openamundsen.conf", "openamundsen.errors")
    OPAQUE_FUNCS = set()
    track_cfg = False
    phase = None

    def __init__(self, project, spec=None, schema=None):
        self.pr = project
        self.spec = dict(spec or {})
        self.schema = schema
        self.events = []
        self._evkeys = set()
        self.quiet = 0
        self.next = 0
        self.cellname = {}
        self.fields = {}          # (cat,name) -> meta dict
        self.fieldcell = {}
        self.alloc_init = {}
        self.cats = set()
        self.state_ready = False
        self.stack = []           # Func stack
        self.callnodes = []
        self.facts = []           # list of (atom, Poly): rewrite rules from loop summaries
        self.undecided = []
        self.analysed = set()
        self.nstmts = 0
        self.joins = {}
        self.visited = set()
        self.chained = {}
        self.modcache = {}
        self.docs = {}
        self.shallow = False
        self.watch_calls = {}     # qual -> callback(engine, args dict, st, node)
        self.on_return = {}
        self.trunc = []           # conditions under which bounded unrolling is incomplete
        self.proc_hook = None     # f(engine, callee, state, node) after each call made by the model class itself
        self.hooks = {}
        self.trace = []           # ordered protocol trace
        self.pathcond = [p.ONE]
        self.model_ref = None
        self.layer_loop = []
        self.writes = []

    # ------------------------------------------------------------------ misc
    def ev(self, kind, node, msg, **data):
        if self.quiet:
            return
        f = self.stack[-1] if self.stack else None
        e = Event(kind, f.mod.rel if f else "?", f.qual if f else "?:?", getattr(node, "lineno", 0), msg, data)
        e.data["stack"] = [x.qual for x in self.stack]
        if e.key() in self._evkeys and kind not in ("write", "read", "cfgread", "call"):
            return
        self._evkeys.add(e.key())
        self.events.append(e)

    def und(self, node, msg):
        f = self.stack[-1] if self.stack else None
        s = f"{f.mod.rel if f else '?'}:{getattr(node, 'lineno', 0)} {msg}"
        if s not in self.undecided:
            self.undecided.append(s)

    def newcid(self):
        self.next += 1
        return self.next

    def alloc(self, st, s, name=None):
        c = self.newcid()
        st.heap[c] = s
        if name:
            self.cellname[c] = name
        return Ref(c)

    def opq(self, node=None, tag="?"):
        f = self.stack[-1].qual if self.stack else "?"
        self.next += 1
        return Opq((tag, f, getattr(node, "lineno", 0), self.next))

    # ------------------------------------------------------- value conversion
    def num(self, v, st, node=None):
        """any value -> Num"""
        if isinstance(v, Num):
            return v
        if isinstance(v, PC):
            if isinstance(v.v, bool):
                return Num(p.C(int(v.v)), un.ONE, out="any" if v.v else "false")
            if isinstance(v.v, (int, float)):
                if v.v != v.v:
                    return Num(NANT, un.ANY, out="nan")
                return Num(p.C(v.v), un.ANY, out="zero" if v.v == 0 else "val")
            return Num(p.sym(f"pc:{v.v!r}"), None)
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            if isinstance(s, Num):
                return s
            return Num(p.sym(f"obj{v.a[0]}"), None, sp="?")
        if isinstance(v, View):
            a = st.heap[v.a[0]]
            return self.layer_of(a, v.a[1])
        if isinstance(v, Flat):
            return self.num(v.a[0], st, node)
        if isinstance(v, Opq):
            return Num(p.sym(("opq", v.a)), None, sp="?", out="val")
        if isinstance(v, Count):
            return Num(p.fn("COUNT", v.a[0]) if isinstance(v.a[0], p.Poly) else p.sym("COUNT_" + str(v.a[0])), un.ONE)
        if isinstance(v, (PixNum, PixRow, PixCol)):
            return Num(p.sym(type(v).__name__), un.ONE)
        if isinstance(v, CfgV):
            return Num(p.sym("cfg:" + ".".join(map(str, v.a[0]))), self.cfg_unit(v.a[0]))
        if isinstance(v, Unbound):
            return self.num(v.v, st, node)
        if isinstance(v, Tup):
            # list/tuple literal of numbers used as array
            ns = [self.num(x, st) for x in v.a[0]]
            if ns and all(n.scalar for n in ns):
                t = Lay(p.sym("novalue"), [(p.C(i), n.t) for i, n in enumerate(ns)])
                u = ns[0].u
                for n in ns[1:]:
                    u = un.join(u, n.u)
                return Num(t, u, lay=p.C(len(ns)))
            return Num(p.sym(("tup", v)), None, sp="?")
        return Num(p.sym(("val", repr(v))), None, sp="?")

    def layer_of(self, a, key):
        t = a.t.get(key) if isinstance(a.t, Lay) else a.t
        return a.rep(t=t, lay=None)

    def is_arr(self, v, st):
        return (isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), Num)) or isinstance(v, (View, Flat)) or (isinstance(v, Num) and not v.scalar)

    def box(self, v, st):
        """array temporaries become heap cells when they get a name"""
        if isinstance(v, Num) and not v.scalar:
            return self.alloc(st, v)
        if isinstance(v, Unbound):
            return v
        return v

    def key(self, v, st):
        """hashable deterministic key for opaque naming"""
        if isinstance(v, (Ref, View)):
            n = self.num(v, st) if self.is_arr(v, st) else None
            if n is not None:
                return n.t
            c = v.a[0]
            return ("cell", self.cellname.get(c, c))
        if isinstance(v, Num):
            return v.t
        if isinstance(v, PC):
            return repr(v.v)
        return v

    # ------------------------------------------------------------ arithmetic
    def space(self, a, b, node, what="combined"):
        if a == b:
            return a
        if a == "S":
            return b
        if b == "S":
            return a
        if a == "?" or b == "?":
            return b if a == "?" else a
        # G vs P or P vs P'
        self.ev("pixmix", node, f"arrays over different pixel sets {what}: {self.spname(a)} vs {self.spname(b)}", a=a, b=b)
        return a

    def spname(self, s):
        return "full grid" if s == "G" else "pixels " + p.show(s[1]) if isinstance(s, tuple) else str(s)

    def out2(self, op, a, b):
        A, B = a.out, b.out
        if op in ("cmp",):
            if "nan" in (A, B):
                return "false"
            return "any"
        if op == "and":
            return "false" if "false" in (A, B) else ("nan" if "nan" in (A, B) else "any")
        if op == "or":
            return "false" if A == B == "false" else "any"
        if "nan" in (A, B):
            return "nan"
        if op == "mul" and ("zero" in (A, B) or "false" in (A, B)):
            return "zero"
        if A in ("zero", "false") and B in ("zero", "false") and op in ("add", "sub", "min", "max"):
            return "zero"
        return "any" if "G" in (a.sp, b.sp) else "val"

    def unit_bin(self, op, a, b, node):
        ua, ub = a.u, b.u
        if op in ("add", "sub", "min", "max", "cmp", "where", "assign"):
            if not un.compatible(ua, ub):
                self.ev("unit", node, f"{op}: {ua} vs {ub} in '{self.srcline(node)}'", ua=ua, ub=ub, op=op)
            if op == "cmp":
                return un.ONE
            return un.join(ua, ub)
        if op == "mul":
            return self.unit_mul(ua, ub, a, b)
        if op == "div":
            if ua is un.ANY and isinstance(ub, un.Unit) and not (isinstance(a.t, p.Poly) and a.t.is_const() and abs(a.t.const()) == 1):
                return un.inv(ub).softened()
            return self.unit_mul(ua, un.inv(ub), a, b)
        return None

    def unit_mul(self, ua, ub, a, b):
        if ua is un.ANY and ub is un.ANY:
            return un.ANY
        for x, ux, uy in ((a, ua, ub), (b, ub, ua)):
            if ux is un.ANY:
                if uy is None:
                    return None
                if isinstance(x.t, p.Poly) and x.t.is_const() and x.t.const() in KEEP_LITS:
                    return uy
                return uy.softened()
        return un.mul(ua, ub)

    def srcline(self, node):
        try:
            s = ast.unparse(node)
        except Exception:
            s = "?"
        s = " ".join(s.split())
        return s if len(s) < 100 else s[:97] + "..."

    def binop(self, op, a, b, st, node):
        """a,b Num"""
        if op in ("add", "sub", "mul", "div"):
            f = getattr(p, op)
            sp = self.space(a.sp, b.sp, node)
            return Num(lift(f, a.t, b.t), self.unit_bin(op, a, b, node), sp, a.lay if a.lay is not None else b.lay, self.out2(op, a, b))
        if op in ("min", "max"):
            sp = self.space(a.sp, b.sp, node)
            return Num(lift(lambda x, y: p.minmax(op, [x, y]), a.t, b.t), self.unit_bin(op, a, b, node), sp,
                       a.lay if a.lay is not None else b.lay, self.out2(op, a, b))
        if op == "pow":
            sp = self.space(a.sp, b.sp, node)
            lay = a.lay if a.lay is not None else b.lay
            o = self.out2(op, a, b)
            if isinstance(b.t, p.Poly) and b.t.is_const():
                c = b.t.const()
                u = un.power(a.u, c) if a.u is not None else None
                if c.denominator == 1 and abs(c) <= 4:
                    return Num(lift(lambda x: p.power(x, int(c)), a.t), u, sp, lay, o)
                return Num(lift(lambda x: p.fn("pow", x, p.C(c)), a.t), u, sp, lay, o)
            if isinstance(b.u, un.Unit) and not b.u.soft and b.u != un.ONE and not _has_literal(b.t):
                self.ev("unit", node, f"exponent with unit {b.u} in '{self.srcline(node)}'")
            return Num(lift(lambda x, y: p.fn("pow", x, y), a.t, b.t), a.u if a.u == un.ONE and not a.u.soft else None, sp, lay, o)
        if op in ("and", "or", "xor"):
            sp = self.space(a.sp, b.sp, node)
            fa, fb = lift(p.ind_bool, a.t), lift(p.ind_bool, b.t)
            f = {"and": p.b_and, "or": p.b_or, "xor": lambda x, y: p.sub(p.add(x, y), p.scale(p.mul(x, y), 2))}[op]
            return Num(lift(f, fa, fb), un.ONE, sp, a.lay if a.lay is not None else b.lay, self.out2(op, a, b))
        if op in ("floordiv", "mod"):
            sp = self.space(a.sp, b.sp, node)
            if isinstance(a.t, p.Poly) and a.t.is_const() and isinstance(b.t, p.Poly) and b.t.is_const() and b.t.const():
                c = a.t.const() // b.t.const() if op == "floordiv" else a.t.const() % b.t.const()
                return Num(p.C(c), un.ANY if a.u is un.ANY and b.u is un.ANY else None)
            return Num(lift(lambda x, y: p.fn(op, x, y), a.t, b.t), a.u if op == "mod" else None, sp, a.lay if a.lay is not None else b.lay, self.out2(op, a, b))
        sp = self.space(a.sp, b.sp, node)
        return Num(lift(lambda x, y: p.fn(op, x, y), a.t, b.t), None, sp, a.lay if a.lay is not None else b.lay, "any")

    def at_min(self, op, x, k):
        """comparison of an option with the smallest value its declaration accepts"""
        if x.src is None or not x.src.startswith("cfg:") or x.t != p.sym(x.src) or not isinstance(k.t, p.Poly) or not k.t.is_const():
            return None
        lo = (self.schema_node(tuple(x.src[4:].split("."))) or {}).get("min")
        if not isinstance(lo, (int, float)) or k.t.const() > lo:
            return None
        if k.t.const() < lo:
            return p.ONE if op in ("gt", "ge", "ne") else p.ZERO
        at = p.ind_eq(p.sub(x.t, k.t))
        return {"gt": p.b_not(at), "le": at, "ge": p.ONE, "lt": p.ZERO}.get(op)

    def compare(self, op, a, b, st, node):
        m = self.at_min(op, a, b)
        if m is None:
            m = self.at_min({"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(op, op), b, a)
        if m is not None:
            return Num(m, un.ONE)
        sp = self.space(a.sp, b.sp, node)
        self.unit_bin("cmp", a, b, node)
        f = {
            "gt": lambda x, y: p.ind_gt(p.sub(x, y)),
            "lt": lambda x, y: p.ind_gt(p.sub(y, x)),
            "ge": lambda x, y: p.b_not(p.ind_gt(p.sub(y, x))),
            "le": lambda x, y: p.b_not(p.ind_gt(p.sub(x, y))),
            "eq": lambda x, y: p.ind_eq(p.sub(x, y)),
            "ne": lambda x, y: p.b_not(p.ind_eq(p.sub(x, y))),
        }[op]
        o = self.out2("cmp", a, b) if op != "ne" else "any"
        if o == "any" and op in ("eq", "gt", "lt"):
            for x, y, d in ((a, b, 1), (b, a, -1)):
                if x.out in ("zero", "false") and isinstance(y.t, p.Poly) and y.t.is_const():
                    k = y.t.const()
                    if (op == "eq" and k != 0) or (op == "gt" and (-k) * d <= 0) or (op == "lt" and (-k) * d >= 0):
                        o = "false"
        if o == "any" and sp == "G" and (a.out, b.out) in (("zero", "zero"),) and op in ("gt", "lt", "ne"):
            o = "false"
        return Num(lift(f, a.t, b.t), un.ONE, sp, a.lay if a.lay is not None else b.lay, o)

    def neg(self, a):
        return a.rep(t=lift(p.neg, a.t))

    def b_not(self, a):
        return Num(lift(lambda x: p.b_not(p.ind_bool(x)), a.t), un.ONE, a.sp, a.lay, "any" if a.sp == "G" else "val")

    def where(self, c, a, b, st, node):
        sp = self.space(self.space(c.sp, a.sp, node), b.sp, node)
        u = self.unit_bin("where", a, b, node)
        t = lift(lambda cc, x, y: p.ite(p.ind_bool(cc), x, y), c.t, a.t, b.t)
        lay = next((x.lay for x in (c, a, b) if x.lay is not None), None)
        if c.out == "false" or c.out == "nan":
            o = b.out
        else:
            o = a.out if a.out == b.out else "any"
        if o == "val" and sp == "G":
            o = "any"
        return Num(t, u, sp, lay, o)

    # ------------------------------------------------------------- join/merge
    def ite_num(self, c, a, b):
        if a.t == b.t and a.sp == b.sp:
            if a.u == b.u and a.out == b.out:
                return a
            t = a.t
        else:
            try:
                t = lift(lambda x, y: p.ite(c, x, y), a.t, b.t)
            except RecursionError:
                t = p.fresh("sym", "join")
        sp = a.sp if a.sp == b.sp else (a.sp if b.sp == "S" else b.sp if a.sp == "S" else "?")
        if a.sp != b.sp and isinstance(a.sp, tuple) and isinstance(b.sp, tuple):
            sp = ("P", p.ite(c, a.sp[1], b.sp[1]))
        o = a.out if a.out == b.out else ("any" if "G" in (a.sp, b.sp) else "val")
        if {a.out, b.out} == {"zero", "false"}:
            o = "zero"
        return Num(t, un.join(a.u, b.u), sp, a.lay if a.lay is not None else b.lay, o)

    def merge_val(self, c, a, b, sa, sb, heap):
        if a is b or a == b:
            return a
        if isinstance(a, Unbound) or isinstance(b, Unbound):
            av = a.v if isinstance(a, Unbound) else a
            bv = b.v if isinstance(b, Unbound) else b
            ca = a.cond if isinstance(a, Unbound) else p.ONE
            cb = b.cond if isinstance(b, Unbound) else p.ONE
            return Unbound(self.merge_val(c, av, bv, sa, sb, heap), p.ite(c, ca, cb))
        arra, arrb = self.is_arr(a, sa), self.is_arr(b, sb)
        numlike = lambda v, ar: ar or isinstance(v, (Num, Opq)) or (isinstance(v, PC) and isinstance(v.v, (int, float)))
        if numlike(a, arra) and numlike(b, arrb) and not (isinstance(a, Opq) and isinstance(b, Opq)):
            n = self.ite_num(c, self.num(a, sa), self.num(b, sb))
            if not n.scalar:
                cid = self.newcid()
                heap[cid] = n
                return Ref(cid)
            return n
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.a[0]) == len(b.a[0]):
            return Tup(tuple(self.merge_val(c, x, y, sa, sb, heap) for x, y in zip(a.a[0], b.a[0])))
        tag = ("join", c, self.key(a, sa), self.key(b, sb))
        if all(isinstance(x, PC) or (isinstance(x, Opq) and x.a[0] in self.joins) for x in (a, b)):
            self.joins[tag] = (c, a, b)  # a choice between known constants
        return Opq(tag)

    def merge_heapval(self, c, a, b, sa, sb, heap):
        if a is b or a == b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return self.ite_num(c, a, b)
        if isinstance(a, ObjS) and isinstance(b, ObjS):
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    attrs[k] = self.merge_val(c, a.attrs[k], b.attrs[k], sa, sb, heap)
                elif k in a.attrs:
                    attrs[k] = Unbound(a.attrs[k], c)
                else:
                    attrs[k] = Unbound(b.attrs[k], p.b_not(c))
            return ObjS(a.cls, attrs)
        if isinstance(a, ListS) and isinstance(b, ListS):
            its = list(a.items) if len(a.items) >= len(b.items) else list(b.items)
            gen = a.gen if a.gen is not None else b.gen
            if a.items != b.items:
                gen = gen if gen is not None else (its[-1] if its else None)
                return ListS((), gen)
            return ListS(a.items, gen)
        if isinstance(a, DictS) and isinstance(b, DictS):
            items = dict(a.items)
            for k, v in b.items.items():
                items[k] = self.merge_val(c, items[k], v, sa, sb, heap) if k in items else v
            return DictS(items, a.gen if a.gen is not None else b.gen)
        return a

    def merge(self, c, a, b):
        """state = c ? a : b"""
        if a is None:
            return b
        if b is None:
            return a
        if c == p.ONE:
            return a
        if c == p.ZERO:
            return b
        heap = {}
        ha, hb = a.heap, b.heap
        res = State({}, heap)
        for cid, va in ha.items():
            vb = hb.get(cid)
            if vb is None or va is vb:
                heap[cid] = va
            else:
                heap[cid] = self.merge_heapval(c, va, vb, a, b, heap)
        for cid, vb in hb.items():
            if cid not in ha:
                heap[cid] = vb
        for k, va in a.loc.items():
            if k in b.loc:
                res.loc[k] = self.merge_val(c, va, b.loc[k], a, b, heap)
            else:
                res.loc[k] = Unbound(va, c) if not isinstance(va, Unbound) else Unbound(va.v, p.mul(c, va.cond))
        for k, vb in b.loc.items():
            if k not in a.loc:
                res.loc[k] = Unbound(vb, p.b_not(c)) if not isinstance(vb, Unbound) else Unbound(vb.v, p.mul(p.b_not(c), vb.cond))
        return res

    # ------------------------------------------------------------ truthiness
    decide = None
    intry = 0
    softread = 0

    def truth(self, v, st, node):
        c = self._truth(v, st, node)
        if self.decide is not None and c is not p.ONE and c is not p.ZERO:
            d = self.decide(c, node)
            if d is not None:
                return p.ONE if d else p.ZERO
        return c

    def _truth(self, v, st, node):
        """-> Poly condition (ONE/ZERO when decided)"""
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, PC):
            return p.ONE if v.v else p.ZERO
        if isinstance(v, Num):
            if isinstance(v.t, Lay):
                return p.ind("opq", ("laytruth", v.t))
            return p.ind_bool(v.t)
        if isinstance(v, Tup):
            return p.ONE if v.a[0] else p.ZERO
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            if isinstance(s, Num):
                return p.ind_bool(s.t) if isinstance(s.t, p.Poly) else p.ind("opq", s.t)
            if isinstance(s, ListS):
                if s.gen is None:
                    return p.ONE if s.items else p.ZERO
                return p.ind("opq", ("list", v.a[0]))
            if isinstance(s, DictS):
                if s.gen is None:
                    return p.ONE if s.items else p.ZERO
            return p.ONE
        if isinstance(v, Opq):
            return p.ind("opq", v.a)
        if isinstance(v, (CfgV, ClsV, FnV, ModV, Ext, StateV, CatV)):
            return p.ONE
        return p.ind("opq", repr(v))

    # ------------------------------------------------------------- functions
    def doc_units(self, f):
        r = self.docs.get(f.qual)
        if r is None:
            r = self.docs[f.qual] = un.doc_units(f.doc)
            for (fn_, pn), u in DOC_OVERRIDES.items():
                if fn_ == f.name and pn in r[0]:
                    r[0][pn] = un.parse(u)
        return r

    def call_func(self, fv, args, kwargs, st, node):
        f, selfv = fv.a[0], fv.a[1]
        closure = fv.a[2] if len(fv.a) > 2 else None
        if selfv is not None and not f.is_static:
            args = [selfv] + list(args)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = dict(closure) if closure else {}
        bound = {}
        for n, v in zip(names, args):
            bound[n] = v
        extra = list(args[len(names):])
        if a.vararg:
            bound[a.vararg.arg] = Tup(tuple(extra))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                bound[k] = v
            elif k == "**":
                pass
            else:
                rest[k] = v
        if a.kwarg:
            bound[a.kwarg.arg] = self.alloc(st, DictS(rest))
        # defaults
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], a.defaults):
            if n not in bound:
                bound[n] = self.eval_in_module(d, f.mod, st)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in bound and d is not None:
                bound[n] = self.eval_in_module(d, f.mod, st)
        for n in names + kwonly:
            if n not in bound:
                if "**" in kwargs or any(isinstance(x, Opq) for x in args):
                    bound[n] = Opq(("arg", f.qual, n))
                else:
                    self.ev("argmissing", node, f"call of {f.qual} misses argument {n}")
                    bound[n] = Opq(("arg", f.qual, n))
        docp, docr = self.doc_units(f)
        for n, v in bound.items():
            if isinstance(v, PC) and type(v.v) in (int, float) and v.v == v.v and v.v != 0 and docp.get(n) is not None:
                v = bound[n] = self.num(v, st).rep(u=docp[n])
            if self.is_arr(v, st) or isinstance(v, Num):
                x = self.num(v, st)
                du = docp.get(n)
                self.ev("arg", node, f"{f.qual}({n})", func=f.qual, param=n, src=self.srcof(v, st), num=x)
                if du is not None and x.u is not None and not un.compatible(x.u, du):
                    self.ev("unit", node, f"argument {n} of {f.name}() is documented in {du} but receives {x.u}", ua=x.u, ub=du, op="arg")
                if du is not None and isinstance(v, Num) and (x.u is None or (isinstance(x.u, un.Unit) and x.u.soft) or x.u is un.ANY):
                    v = x.rep(u=du)
                    bound[n] = v
            bound[n] = self.box(bound[n], st)
        h = self.watch_calls.get(f.qual) or self.watch_calls.get(f.name)
        if h:
            r = h(self, f, bound, st, node)
            if r is not None:
                return r
        self.ev("call", node, f.qual, callee=f.qual)
        if self.is_opaque(f) or len(self.stack) > MAX_DEPTH or sum(1 for x in self.stack if x is f) > 1:
            return self.opaque_call(f, bound, docr, st, node)
        loc.update(bound)
        return self.run_func(f, loc, st, node, docr)

    def srcof(self, v, st):
        if isinstance(v, Ref):
            return self.cellname.get(v.a[0])
        if isinstance(v, Num):
            return v.src
        return None

    def is_opaque(self, f):
        return f.qual in self.OPAQUE_FUNCS or any(f.mod.name == m or f.mod.name.startswith(m + ".") for m in self.OPAQUE_MODULES)

    def opaque_call(self, f, bound, docr, st, node):
        k = Opq(("call", f.qual, tuple(sorted((n, repr(self.key(v, st))) for n, v in bound.items() if n != "self"))))
        if len(docr) == 1 and docr[0][1] is not None:
            return Num(p.sym(("opq", k.a)), docr[0][1], sp="?")
        return k

    def run_func(self, f, loc, st, node, docr=None):
        if docr is None:
            docr = self.doc_units(f)[1]
        self.analysed.add(f.qual)
        self.stack.append(f)
        self.callnodes.append(node)
        fst = State(loc, st.heap)
        try:
            outs = self.block(f.node.body, fst)
        finally:
            self.stack.pop()
            self.callnodes.pop()
        # merge all normal exits
        acc = None
        ret = None
        for o in reversed(outs):
            if o.kind == "raise":
                continue
            v = o.val if o.kind == "return" else PC(None)
            o.st.loc = {"$ret": v}
            acc = o.st if acc is None else self.merge(o.cond, o.st, acc)
        if acc is None:
            raise Dead()
        st.heap = acc.heap
        ret = acc.loc["$ret"]
        if isinstance(ret, Unbound):
            ret = ret.v
        # documented return unit
        if docr:
            rv = ret.a[0] if isinstance(ret, Tup) else [ret]
            if len(docr) == len(rv):
                new = []
                for (nm, du), v in zip(docr, rv):
                    if du is not None and (self.is_arr(v, st) or isinstance(v, Num)):
                        x = self.num(v, st)
                        if x.u is not None and not un.compatible(x.u, du):
                            self.stack.append(f)
                            self.ev("unit", f.node, f"{f.name}() is documented to return {du} but computes {x.u}", ua=x.u, ub=du, op="return")
                            self.stack.pop()
                        if x.u is None or x.u is un.ANY or x.u.soft:
                            if isinstance(v, Num):
                                v = v.rep(u=du)
                            elif isinstance(v, Ref) and v.a[0] not in self.cellname:
                                st.heap[v.a[0]] = x.rep(u=du)
                    new.append(v)
                ret = Tup(tuple(new)) if isinstance(ret, Tup) else new[0]
        h = self.on_return.get(f.qual)
        if h:
            h(self, f, ret, st, node)
        if self.proc_hook and not self.quiet and self.stack and self.stack[-1].mod.name == "openamundsen.model" and f.mod.name != "openamundsen.model":
            self.proc_hook(self, f, st, node)
        return ret

    def eval_in_module(self, expr, mod, st):
        if isinstance(expr, ast.Constant):
            return PC(expr.value)
        f = _PseudoFunc(mod)
        self.stack.append(f)
        self.callnodes.append(expr)
        try:
            s = State({}, st.heap)
            v = self.expr(expr, s)
            st.heap = s.heap
            return v
        finally:
            self.stack.pop()
            self.callnodes.pop()

    # ---------------------------------------------------------- name lookup
    def lookup(self, name, st, node):
        if name in st.loc:
            v = st.loc[name]
            if isinstance(v, Unbound):
                if p.mul(self.pathcond[-1], p.b_not(v.cond)) != p.ZERO:
                    self.ev("unbound", node, f"name '{name}' may be unbound", cond=v.cond, path=self.pathcond[-1])
                return v.v
            return v
        mod = self.stack[-1].mod
        r = self.pr.resolve(mod, name)
        if r is None:
            return Ext("builtins." + name)
        return self.resolved(r, name, st)

    def resolved(self, r, name, st):
        if r[0] == "func":
            return FnV(r[1], None)
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "assign":
            return self.module_const(r[1], r[2], name, st)

    def module_const(self, mod, stmt, name, st):
        k = (mod.name, name)
        if k in self.modcache:
            v = self.modcache[k]
            if isinstance(v, tuple) and v and v[0] == "$heap":
                st.heap.setdefault(v[1], v[2])
                return Ref(v[1])
            return v
        if mod.name == "openamundsen.constants":
            val = stmt.value
            if isinstance(val, ast.Constant) and isinstance(val.value, (int, float)) and not isinstance(val.value, bool):
                u = self.comment_unit(mod, stmt)
                if name in CONST_UNITS:
                    u = un.Unit(CONST_UNITS[name]) if CONST_UNITS[name] is not None else None
                v = Num(p.sym("c." + name), u)
                self.modcache[k] = v
                return v
        if isinstance(stmt, ast.Assign) and (len(stmt.targets) != 1 or not isinstance(stmt.targets[0], ast.Name)):
            v = Opq(("mod", mod.name, name))
        else:
            v = self.eval_in_module(stmt.value, mod, st) if stmt.value is not None else Opq(("mod", mod.name, name))
            if isinstance(v, Num) and mod.name == "openamundsen.constants":
                u = self.comment_unit(mod, stmt)
                if u is not None:
                    v = v.rep(u=u)
        if isinstance(v, Ref):
            self.modcache[k] = ("$heap", v.a[0], st.heap[v.a[0]])
            self.cellname[v.a[0]] = f"{mod.name}.{name}"
        else:
            self.modcache[k] = v
        return v

    def comment_unit(self, mod, stmt):
        cm = mod.comments.get(stmt.lineno) or mod.comments.get(getattr(stmt, "end_lineno", 0))
        return comment_unit(cm, strict=mod.name != "openamundsen.constants")

    # -------------------------------------------------------------- config
    def schema_node(self, path):
        node = self.schema
        n = None
        for i, part in enumerate(path):
            if node is None:
                return None
            n = node.get(part) if isinstance(node, dict) else None
            if n is None:
                return None
            if not isinstance(n, dict):
                return None
            node = n.get("schema")
        return n

    def cfg_get(self, path, node=None):
        path = tuple(path)
        self.ev("cfgread", node, ".".join(map(str, path)), path=path, soft=bool(self.softread or self.intry))
        if path in self.spec:
            return self.pyval(self.spec[path], path)
        n = self.schema_node(path)
        if n is None:
            if len(path) > 3 and path[:2] == ("land_cover", "classes"):
                return self.class_param(path)
            return CfgV(path)
        ty = n.get("type")
        tys = ty if isinstance(ty, list) else [ty]
        if "schema" in n and "dict" in tys:
            return CfgV(path)
        if "allowed" in n or "boolean" in tys:
            return PC(n.get("default"))
        if set(tys) & {"float", "integer", "number"}:
            if n.get("nullable") and n.get("default", 0) is None:
                return PC(None)
            return Num(p.sym("cfg:" + ".".join(path)), self.cfg_unit(path), src="cfg:" + ".".join(path))
        d = n.get("default", "$none")
        if "list" in tys and d == []:
            return Tup(())
        if isinstance(d, list) and d and all(isinstance(x, (int, float)) for x in d):
            return Num(Lay(p.fn("L", "cfg:" + ".".join(path), 0, KAPPA)), self.cfg_unit(path), lay=p.sym("cfglen:" + ".".join(path)))
        if d is None and "default" in n:
            return PC(None)
        if isinstance(d, str) and "oneof" in n:
            return PC(d)
        if "dict" in tys:
            return CfgV(path)
        return Opq(("cfg", path))

    def class_param(self, path):
        """parameter of a generic land cover class: an unknown value of the declared type"""
        gp = ("land_cover", "classes", "*") + tuple(path[3:])
        name = ".".join(map(str, gp))
        node, n = land_cover_schema(self.pr), None
        for part in gp[3:]:
            n = node.get(part) if isinstance(node, dict) else None
            if not isinstance(n, dict):
                return CfgV(path)
            node = n.get("schema")
        ty = n.get("type")
        if ty == "boolean":
            return Num(p.ind("opq", ("cfg", gp)), un.ONE)
        if ty in ("number", "float", "integer"):
            return Num(p.sym("cfg:" + name), self.cfg_unit(gp), src="cfg:" + name)
        if "oneof" in n:
            n = n["oneof"][0]
            ty = n.get("type")
        if ty == "list" and isinstance(n.get("items"), list) and all(i.get("type") in ("number", "integer", "float") for i in n["items"]):
            return Tup(tuple(Num(p.sym(f"cfg:{name}[{i}]"), self.cfg_unit(gp) or un.ONE) for i in range(len(n["items"]))))
        if ty == "dict":
            return CfgV(path)
        return Opq(("cfg", gp))

    def pyval(self, v, path):
        if isinstance(v, (list, tuple)):
            return Tup(tuple(self.pyval(x, path) for x in v))
        if isinstance(v, dict):
            return self._constdict({k: self.pyval(x, path) for k, x in v.items()})
        if v == "$sym":
            return Num(p.sym("cfg:" + ".".join(map(str, path))), self.cfg_unit(path))
        return PC(v)

    def cfg_unit(self, path):
        cu = getattr(self.pr, "cfg_units", None)
        if cu is None:
            cu = self.pr.cfg_units = config_units(self.pr)
        if len(path) > 3 and path[:2] == ("land_cover", "classes"):
            path = path[:2] + ("*",) + tuple(path[3:])
        return cu.get(tuple(path))

    def _constdict(self, d):
        return Opq(("constdict", tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))))

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st, node):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            if isinstance(s, ObjS):
                if s.cls is not None and s.cls.name == "ModelGrid":
                    g = self.grid_attr(name, s, st, node)
                    if g is not None:
                        return g
                if name in s.attrs:
                    x = s.attrs[name]
                    if isinstance(x, Unbound):
                        self.ev("unbound", node, f"attribute '{name}' may be unset", cond=x.cond)
                        return x.v
                    return x
                if s.cls is not None:
                    m = self.pr.find_method(s.cls, name)
                    if m is not None:
                        if m.is_property:
                            return self.call_func(FnV(m, v), [], {}, st, node)
                        return FnV(m, v) if not m.is_classmethod else FnV(m, ClsV(s.cls))
                    ca = self.pr.find_class_attr(s.cls, name)
                    if ca is not None:
                        return self.eval_in_module(ca[1], ca[0].mod, st)
                    if s.cls.name not in ("TimestepProperties",):
                        self.ev("noattr", node, f"attribute '{name}' of {s.cls.name} is never set on this path", obj=v.a[0], attr=name)
                return Opq(("attr", self.key(v, st), name))
            if isinstance(s, Num):
                return self.arr_attr(v, name, st, node)
            if isinstance(s, DictS) and name not in ("items", "keys", "values", "get", "copy", "update", "pop", "setdefault"):
                if name in s.items:
                    return s.items[name]
            return BoundM(v, name)
        if isinstance(v, (Num, View, Flat)):
            return self.arr_attr(v, name, st, node)
        if isinstance(v, StateV):
            if name in self.cats:
                return CatV(name)
            if name in ("add_category", "initialize", "reset", "meta", "parse", "categories", "_categories", "keys"):
                return BoundM(v, name)
            self.ev("nofield", node, f"state category '{name}' is not registered in this configuration", field=name)
            return Opq(("state", name))
        if isinstance(v, CatV):
            return self.field(v.a[0], name, st, node)
        if isinstance(v, CfgV):
            if name in ("get", "keys", "items", "values", "copy", "toDict"):
                return BoundM(v, name)
            return self.cfg_get(v.a[0] + (name,), node)
        if isinstance(v, ModV):
            r = self.pr.resolve(v.a[0], name)
            if r is None:
                self.ev("noattr", node, f"module {v.a[0].name} has no '{name}'")
                return Opq(("modattr", v.a[0].name, name))
            return self.resolved(r, name, st)
        if isinstance(v, Ext) and name == "kind" and v.a[0].startswith("builtins."):
            k = v.a[0][9:]
            return PC("f" if k.startswith("float") else "i" if k.startswith("int") else "b" if k.startswith("bool") else "O")
        if isinstance(v, Ext):
            nm = v.a[0] + "." + name
            if nm in ("numpy.nan", "numpy.NaN", "numpy.NAN"):
                return PC(float("nan"))
            if nm in ("numpy.pi", "math.pi"):
                return Num(p.sym("pi"), un.ONE)
            if nm in ("numpy.inf",):
                return Num(p.sym("inf"), un.ANY)
            if nm == "numpy.newaxis":
                return PC(None)
            return Ext(nm)
        if isinstance(v, ClsV):
            ca = self.pr.find_class_attr(v.a[0], name)
            if ca is not None:
                return self.eval_in_module(ca[1], ca[0].mod, st)
            m = self.pr.find_method(v.a[0], name)
            if m is not None:
                return FnV(m, v if m.is_classmethod else None)
            return Opq(("clsattr", v.a[0].qual, name))
        if isinstance(v, SuperV):
            return BoundM(v, name)
        if isinstance(v, ShapeV):
            return BoundM(v, name)
        if isinstance(v, Opq):
            if v.a[0][0] == "constdict":
                for k, x in v.a[0][1]:
                    if k == name:
                        return x
                return BoundM(v, name)
            return Opq(("attr", v.a[0], name))
        return BoundM(v, name)

    def grid_attr(self, name, s, st, node):
        if name == "roi":
            return s.attrs["roi"]
        if name == "roi_idxs":
            return IdxPairs(self.num(s.attrs["roi"], st).t)
        if name == "roi_idxs_flat":
            return FlatIdx(self.num(s.attrs["roi"], st).t)
        if name == "shape":
            return ShapeV("G", None)
        if name in ("rows", "cols"):
            return Count("G" + name)
        if name in ("X", "Y"):
            return Num(p.sym("grid." + name), un.parse("m"), "G", out="any")
        if name in ("roi_xs", "roi_ys"):
            return Num(p.sym("grid." + name[-2]), un.parse("m"), ("P", self.num(s.attrs["roi"], st).t))
        if name in ("resolution",):
            return Num(p.sym("grid.resolution"), un.parse("m"))
        if name in ("center_lon", "center_lat"):
            return Num(p.sym("grid." + name), un.parse("deg"))
        if name in ("extended_grid",):
            return s.attrs[name]
        if name in ("prepare_coordinates", "prepare_roi_coordinates"):
            return BoundM(Opq(("gridmethod", name)), "noop")
        if name in s.attrs:
            return s.attrs[name]
        return Opq(("grid", name))

    def field(self, cat, name, st, node):
        c = self.fieldcell.get((cat, name))
        if c is not None and c in st.heap:
            self.ev("read", node, f"{cat}.{name}", field=f"{cat}.{name}")
            return Ref(c)
        if name in ("add_variable", "keys", "items", "values", "get", "_meta"):
            return BoundM(CatV(cat), name)
        if (cat, name) in self.fields:
            self.ev("nofield", node, f"state field '{cat}.{name}' accessed before the fields are allocated", field=f"{cat}.{name}")
        else:
            self.ev("nofield", node, f"state field '{cat}.{name}' is not registered in this configuration", field=f"{cat}.{name}")
        return Num(p.sym(f"missing:{cat}.{name}"), None, "G", out="any")

    def arr_attr(self, v, name, st, node):
        n = self.num(v, st)
        if name == "shape":
            return ShapeV(n.sp, n.lay)
        if name == "ndim":
            return PC({"S": 0, "G": 2, "?": 0}.get(n.sp, 1) + (1 if n.lay is not None else 0)) if n.sp != "?" else Opq(("ndim", n.t))
        if name == "flat":
            return Flat(v)
        if name == "T":
            return n.rep(sp="?") if n.sp not in ("S", "?") else v
        if name == "values":
            return v
        if name in ("size",):
            return Count(n.sp[1] if isinstance(n.sp, tuple) else "G")
        if name == "dtype":
            if isinstance(v, (Ref, View)):
                for k, c in self.fieldcell.items():
                    if c == v.a[0]:
                        return Ext("builtins." + self.fields[k]["dtype"])
            return Opq(("dtype",))
        return BoundM(v, name)

    def setattr(self, v, name, val, st, node):
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            if isinstance(s, ObjS):
                a = dict(s.attrs)
                if name == "state" and isinstance(val, StateV):
                    pass
                a[name] = self.box(val, st)
                st.heap[v.a[0]] = ObjS(s.cls, a)
                self.ev("setattr", node, f"{s.cls.name if s.cls else '?'}.{name}", cls=s.cls.name if s.cls else "?", attr=name, val=val)
                return
        if isinstance(v, CatV):
            c = self.fieldcell.get((v.a[0], name))
            self.ev("rebind", node, f"{v.a[0]}.{name}", field=f"{v.a[0]}.{name}")
            if c is not None:
                self.write_cell(c, self.num(val, st), st, node, mask=p.ONE, value=self.num(val, st))
            return
        if isinstance(v, CfgV):
            self.ev("cfgwrite", node, ".".join(map(str, v.a[0] + (name,))), path=v.a[0] + (name,))
            if self.track_cfg and self.pathcond[-1] == p.ONE:
                self.spec[v.a[0] + (name,)] = val.v if isinstance(val, PC) else "$sym"
            return
        if isinstance(v, Opq):
            self.ev("opqwrite", node, f"attribute {name} of {v.a[0]!r}"[:120], tag=v.a[0])

    # -------------------------------------------------------------- indexing
    def index_parts(self, sl, st):
        if isinstance(sl, ast.Tuple):
            out = []
            for e in sl.elts:
                if isinstance(e, ast.Starred):
                    v = self.expr(e.value, st)
                    if isinstance(v, Tup):
                        out += list(v.a[0])
                    else:
                        out.append(v)
                else:
                    out.append(self.index_part(e, st))
            return out
        return [self.index_part(sl, st)]

    def index_part(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: self.expr(x, st) if x is not None else None
            return SliceV(f(e.lower), f(e.upper), f(e.step))
        return self.expr(e, st)

    def full_slice(self, x):
        return isinstance(x, SliceV) and all(y is None or (isinstance(y, PC) and y.v is None) for y in x.a)

    def layer_key(self, x, n, st):
        """index value -> layer key poly, or None"""
        if isinstance(x, (PixNum, PixRow, PixCol)):
            return None
        if isinstance(x, PC) and isinstance(x.v, int) and not isinstance(x.v, bool):
            if x.v < 0:
                return p.add(n if isinstance(n, p.Poly) else p.sym("NLAY"), p.C(x.v))
            return p.C(x.v)
        if isinstance(x, (Num, Opq)) or self.is_arr(x, st):
            nn = self.num(x, st)
            if nn.sp == "S" and nn.lay is None and isinstance(nn.t, p.Poly):
                if nn.t.is_const() and nn.t.const() < 0:
                    return p.add(n if isinstance(n, p.Poly) else p.sym("NLAY"), nn.t)
                return nn.t
            if isinstance(x, Opq):
                return nn.t
        return None

    def slice_cond(self, x, n, st):
        """layer slice -> indicator in KAPPA"""
        lo, hi, step = x.a
        c = p.ONE
        if lo is not None and not (isinstance(lo, PC) and lo.v is None):
            k = self.layer_key(lo, n, st)
            if k is None:
                return None
            if not k.is_zero():
                c = p.mul(c, p.b_not(p.ind_gt(p.sub(k, KAPPA))))
        if hi is not None and not (isinstance(hi, PC) and hi.v is None):
            k = self.layer_key(hi, n, st)
            if k is None:
                return None
            if not (isinstance(n, p.Poly) and k == n):
                c = p.mul(c, p.ind_gt(p.sub(k, KAPPA)))
        return c

    def getitem(self, v, parts, st, node):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, Flat):
            if len(parts) == 1 and isinstance(parts[0], FlatIdx):
                n = self.num(v.a[0], st)
                return n.rep(sp=("P", parts[0].a[0]), out="val")
            return self.getitem(v.a[0], parts, st, node)
        if self.is_arr(v, st):
            return self.arr_get(v, parts, st, node)
        if isinstance(v, IdxPairs):
            x = parts[0]
            if isinstance(x, PixNum):
                if len(parts) == 1:
                    return Tup((PixRow(v.a[0]), PixCol(v.a[0])))
                if isinstance(parts[1], PC):
                    return PixRow(v.a[0]) if parts[1].v == 0 else PixCol(v.a[0])
            if len(parts) == 2 and self.full_slice(x) and isinstance(parts[1], PC):
                return Opq(("idxcol", v.a[0], parts[1].v))
            return Opq(("idxpairs", v.a[0], tuple(map(repr, parts))))
        if isinstance(v, FlatIdx):
            x = parts[0]
            n = self.num(x, st) if self.is_arr(x, st) else None
            if n is not None:
                if isinstance(n.sp, tuple) and n.sp[1] != v.a[0]:
                    self.ev("pixmix", node, f"index list of pixels {p.show(v.a[0])} filtered by a mask over {p.show(n.sp[1])}")
                return FlatIdx(p.mul(v.a[0], p.ind_bool(n.t)) if isinstance(n.t, p.Poly) else v.a[0])
            return Opq(("flatidx", v.a[0], repr(x)))
        if isinstance(v, ShapeV):
            x = parts[0]
            sp, lay = v.a
            dims = ([("L", lay)] if lay is not None else []) + ([("r",), ("c",)] if sp == "G" else [("p",)] if isinstance(sp, tuple) else [])
            if isinstance(x, PC) and isinstance(x.v, int) and -len(dims) <= x.v < len(dims):
                d = dims[x.v]
                if d[0] == "L":
                    return Num(lay, un.ANY) if isinstance(lay, p.Poly) else Opq(("nlay",))
                if d[0] == "p":
                    return Count(sp[1])
                return Count("Grows" if d[0] == "r" else "Gcols")
            if isinstance(x, SliceV):
                lo = x.a[0].v if isinstance(x.a[0], PC) else (0 if x.a[0] is None else None)
                if lo == 1 and lay is not None and x.a[1] is None:
                    return ShapeV(sp, None)
                if lo == 0 and lay is None and x.a[1] is None:
                    return v
            return Opq(("shape", repr(v), repr(x)))
        if isinstance(v, Tup):
            x = parts[0]
            if isinstance(x, PC) and isinstance(x.v, int) and -len(v.a[0]) <= x.v < len(v.a[0]):
                return v.a[0][x.v]
            if isinstance(x, SliceV) and all(y is None or isinstance(y, PC) for y in x.a):
                return Tup(v.a[0][slice(*[None if y is None else y.v for y in x.a])])
            return Opq(("item", v, repr(x)))
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            x = parts[0]
            if isinstance(s, ListS):
                if isinstance(x, PC) and isinstance(x.v, int) and s.gen is None and -len(s.items) <= x.v < len(s.items):
                    return s.items[x.v]
                if s.gen is not None:
                    return s.gen
                return Opq(("listitem", v.a[0], repr(x)))
            if isinstance(s, DictS):
                if isinstance(x, PC):
                    if x.v in s.items:
                        return s.items[x.v]
                    if s.gen is not None:
                        return s.gen[1]
                    self.ev("nokey", node, f"key {x.v!r} not in dict")
                    return Opq(("dictitem", v.a[0], x.v))
                if s.gen is not None:
                    return s.gen[1]
                if s.items:
                    return Opq(("dictitem", self.cellname.get(v.a[0], v.a[0]), repr(self.key(x, st))))
                return Opq(("dictitem", v.a[0], repr(self.key(x, st))))
            if isinstance(s, ObjS):
                if isinstance(x, PC) and isinstance(x.v, str):
                    return self.getattr(v, x.v, st, node)
                return Opq(("objitem", self.key(v, st), repr(self.key(x, st))))
        if isinstance(v, StateV):
            x = parts[0]
            if isinstance(x, PC) and isinstance(x.v, str):
                if "." in x.v:
                    a, b = x.v.split(".", 1)
                    return self.field(a, b, st, node)
                return self.getattr(v, x.v, st, node)
            return Opq(("stateitem", repr(self.key(x, st))))
        if isinstance(v, CatV):
            x = parts[0]
            if isinstance(x, PC) and isinstance(x.v, str):
                return self.field(v.a[0], x.v, st, node)
            return Num(p.sym(("fielddyn", v.a[0], repr(self.key(x, st)))), None, "G", out="any")
        if isinstance(v, CfgV):
            x = parts[0]
            if isinstance(x, PC):
                return self.cfg_get(v.a[0] + (x.v,), node)
            return self.cfg_get(v.a[0] + ("*",), node)
        if isinstance(v, Opq):
            if v.a[0][0] == "constdict" and isinstance(parts[0], PC):
                if self.intry and all(k != parts[0].v for k, x in v.a[0][1]):
                    raise Dead("KeyError")
                for k, x in v.a[0][1]:
                    if k == parts[0].v:
                        return x
            return Opq(("item", v.a[0], tuple(repr(self.key(x, st)) for x in parts)))
        if isinstance(v, PC) and len(parts) == 1 and isinstance(parts[0], PC):
            try:
                return PC(v.v[parts[0].v])
            except Exception:
                return self.opq(node)
        return Opq(("item", repr(v), tuple(repr(self.key(x, st)) for x in parts)))

    def arr_index(self, n, parts, st, node):
        """normalise the index of array n -> dict(layer=('all'|('key',k)|('cond',c)), mask=Poly|None, pix=bool, unk=bool)"""
        r = dict(layer="all", mask=None, pix=None, maskn=None, unk=False, mask3=None)
        parts = [x for x in parts if not (isinstance(x, PC) and (x.v is Ellipsis))]
        parts = list(parts)
        is3 = n.lay is not None
        # single boolean mask over the whole (possibly layered) array
        if len(parts) == 1 and self.is_arr(parts[0], st):
            m = self.num(parts[0], st)
            if is3 and m.lay is not None:
                r["mask3"] = m
                return r
            if not is3 or n.sp == "S":
                if is3 and n.sp == "S":
                    # layer vector indexed by array: unknown
                    r["unk"] = True
                    return r
                if isinstance(m.t, p.Poly) and p.is_boolean(m.t):
                    r["mask"], r["maskn"] = m.t, m
                    return r
                r["unk"] = True
                return r
        if is3 and parts:
            x = parts.pop(0)
            if self.full_slice(x):
                pass
            elif isinstance(x, SliceV):
                c = self.slice_cond(x, n.lay, st)
                if c is None:
                    r["unk"] = True
                else:
                    r["layer"] = ("cond", c)
            else:
                k = self.layer_key(x, n.lay, st)
                if k is None:
                    r["unk"] = True
                else:
                    r["layer"] = ("key", k)
        if not parts:
            return r
        if len(parts) == 1:
            x = parts[0]
            if self.full_slice(x):
                return r
            if isinstance(x, PC) and isinstance(x.v, slice):
                return r
            if self.is_arr(x, st) or isinstance(x, Num):
                m = self.num(x, st)
                if isinstance(m.t, p.Poly) and (p.is_boolean(m.t)) and m.lay is None and m.sp != "S":
                    r["mask"], r["maskn"] = m.t, m
                    return r
                if isinstance(m.t, Lay):
                    r["unk"] = True
                    return r
            if isinstance(x, FlatIdx) and isinstance(n.sp, tuple):
                r["unk"] = True
                return r
            if isinstance(x, PixNum) and isinstance(n.sp, tuple) and n.sp[1] == x.a[0]:
                r["pix"] = x.a[0]
                return r
            r["unk"] = True
            return r
        if len(parts) == 2:
            a, b = parts
            if isinstance(a, PixRow) and isinstance(b, PixCol):
                r["pix"] = a.a[0]
                return r
            if self.full_slice(a) and self.full_slice(b):
                return r
        r["unk"] = True
        return r

    def arr_get(self, v, parts, st, node):
        n = self.num(v, st)
        if n.sp == "?":
            return Num(lift(lambda x: p.fn("item", x, *[y if isinstance(y, p.Poly) else p.sym(repr(y)) for y in (self.key(q, st) for q in parts)]), n.t), n.u, "?", out="val")
        r = self.arr_index(n, parts, st, node)
        if r["unk"]:
            if isinstance(v, (Ref, View)) and self.cellname.get(v.a[0]):
                self.und(node, f"index {self.srcline(node)} not modelled")
            return Num(p.fn("item", n.t if isinstance(n.t, p.Poly) else p.sym(("lay", n.t)), *[y if isinstance(y, p.Poly) else p.sym(repr(y)) for y in (self.key(q, st) for q in parts)]), n.u, "?", out="val", src=None)
        t, lay, sp, out = n.t, n.lay, n.sp, n.out
        if r["mask3"] is not None:
            m = r["mask3"]
            return Num(t, n.u, ("P", p.sym(("m3", m.t))) if sp == "G" else ("P", p.sym(("m3", m.t))), lay, "val", src=self.srcof(v, st))
        if isinstance(r["layer"], tuple):
            if r["layer"][0] == "key":
                # basic indexing yields a view
                if isinstance(v, Ref) and r["mask"] is None and r["pix"] is None and sp != "S":
                    return View(v.a[0], r["layer"][1])
                t = t.get(r["layer"][1]) if isinstance(t, Lay) else t
                lay = None
            else:
                t = t if isinstance(t, Lay) else Lay(t)
                lay = p.fn("slicelen", r["layer"][1])
                hi = [x for x in parts if isinstance(x, SliceV)][0].a[1]
                if hi is not None:
                    k = self.layer_key(hi, n.lay, st)
                    lo = [x for x in parts if isinstance(x, SliceV)][0].a[0]
                    if k is not None and lo is None:
                        lay = k
        if r["mask"] is not None:
            m = r["maskn"]
            if isinstance(sp, tuple):
                self.space(sp, m.sp, node, "in mask indexing")
                sp = ("P", p.mul(sp[1], m.t))
            elif sp == "G":
                if isinstance(m.sp, tuple):
                    self.ev("pixmix", node, f"grid array indexed by a mask over {self.spname(m.sp)}")
                sp = ("P", m.t)
            if p.mul(m.t, ROI) == m.t or m.out in ("false", "nan", "zero"):
                out = "val"     # no pixel outside the region of interest is selected
        if r["pix"] is not None:
            sp, out = "S", "val"
        if t is n.t and r["mask"] is None and r["pix"] is None and isinstance(v, Ref) and sp == n.sp and not isinstance(r["layer"], tuple):
            return v  # full slice: view of same cell
        return Num(t, n.u, sp, lay, out, src=self.srcof(v, st) if not isinstance(v, View) else self.cellname.get(v.a[0]))

    def write_cell(self, cid, new, st, node, mask=None, value=None, layer=None):
        old = st.heap[cid]
        name = self.cellname.get(cid)
        if name == "grid.roi":
            # the region of interest is an arbitrary fixed mask for the analysis
            self.ev("write", node, name, field=name, old=old, new=new, mask=mask, value=value, layer=layer, cid=cid)
            return
        if self.shallow and name:
            self.ev("write", node, name, field=name, old=old, new=new, mask=mask, value=value, layer=layer, cid=cid)
            return
        st.heap[cid] = new
        if name:
            self.ev("write", node, name, field=name, old=old, new=new, mask=mask, value=value, layer=layer, cid=cid)

    def setitem(self, v, parts, val, st, node, aug=None):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, Flat):
            if len(parts) == 1 and isinstance(parts[0], FlatIdx):
                m = Num(parts[0].a[0], un.ONE, "G", out="false")
                return self.setitem(v.a[0], [m], val, st, node)
            v = v.a[0]
        if isinstance(v, View):
            return self.setitem(Ref(v.a[0]), [Num(v.a[1], un.ANY)] + list(parts), val, st, node)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), Num):
            return self.arr_set(v, parts, val, st, node)
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            x = parts[0]
            if isinstance(s, DictS):
                d = dict(s.items)
                if isinstance(x, PC):
                    d[x.v] = self.box(val, st)
                    st.heap[v.a[0]] = DictS(d, s.gen)
                else:
                    st.heap[v.a[0]] = DictS(d, (x, self.box(val, st)))
                nm = self.cellname.get(v.a[0])
                if nm:
                    self.ev("globalwrite", node, nm)
                return
            if isinstance(s, ListS):
                if isinstance(x, PC) and s.gen is None and isinstance(x.v, int) and -len(s.items) <= x.v < len(s.items):
                    its = list(s.items)
                    its[x.v] = val
                    st.heap[v.a[0]] = ListS(its)
                return
            if isinstance(s, ObjS) and isinstance(x, PC) and isinstance(x.v, str):
                return self.setattr(v, x.v, val, st, node)
        if isinstance(v, CatV):
            x = parts[0]
            if isinstance(x, PC):
                return self.setattr(v, x.v, val, st, node)
            self.und(node, f"dynamic field write {self.srcline(node)}")
            return
        if isinstance(v, Opq):
            self.ev("opqwrite", node, f"item of {str(v.a[0])[:80]}", tag=v.a[0])
            return
        if isinstance(v, Num):
            return  # write into an anonymous temporary
        self.und(node, f"store into {self.srcline(node)} not modelled")

    def nodata(self, name):
        f = self.fields.get(tuple(name.split(".", 1)))
        if f is None:
            return ("nan", "zero", "false")
        return ("nan",) if str(f.get("dtype", "float")).startswith("float") else ("zero", "false")

    def arr_set(self, v, parts, val, st, node):
        cid = v.a[0]
        old = st.heap[cid]
        x = self.num(val, st)
        r = self.arr_index(old, parts, st, node)
        name = self.cellname.get(cid)
        if old.sp == "?" or r["unk"]:
            if r["unk"] and name:
                self.und(node, f"store {self.srcline(node)} not modelled")
            t = p.fresh("sym", "hv")
            new = old.rep(t=Lay(p.fn("L", f"hv#{p._counter[0]}", 0, KAPPA)) if isinstance(old.t, Lay) else t, out=old.out if old.sp == "?" else "any")
            if name:
                new = new.rep(out=old.out)
            self.write_cell(cid, new, st, node, mask=None, value=x)
            return
        # units
        reuse = False
        if isinstance(old.u, un.Unit) and not old.u.soft and not un.compatible(old.u, x.u):
            reuse = not name        # a local work array may be reused for another quantity
        if name and isinstance(old.u, un.Unit) and not old.u.soft and not un.compatible(old.u, x.u):
            self.ev("unit", node, f"{name or 'array'} has unit {old.u} but is assigned {x.u} in '{self.srcline(node)}'", ua=old.u, ub=x.u, op="assign", field=name)
        if reuse:
            u = None
        elif old.u is None or old.u is un.ANY:
            u = x.u
        elif isinstance(old.u, un.Unit) and old.u.soft and isinstance(x.u, un.Unit):
            u = x.u
        else:
            u = old.u
        # pixel sets
        if r["mask3"] is not None:
            m = r["mask3"]
            if isinstance(x.sp, tuple) and x.sp[1] != p.sym(("m3", m.t)):
                self.ev("pixmix", node, f"value over {self.spname(x.sp)} stored through a different mask")
            cond = m.t
            ot = old.t if isinstance(old.t, Lay) else Lay(old.t)
            if isinstance(cond, Lay):
                t = lift(lambda c, a, b: p.ite(p.ind_bool(c), a, b), cond, x.t, ot)
                if not isinstance(t, Lay):
                    t = Lay(t)
            else:
                t = ot.set_where(cond, x.t)
            out = old.out if m.out in ("false", "nan") else ("any" if x.out != old.out else old.out)
            self.write_cell(cid, Num(t, u, old.sp, old.lay, out), st, node, mask=cond, value=x)
            return
        mask = r["mask"]
        target = old.sp
        if mask is not None:
            m = r["maskn"]
            if isinstance(old.sp, tuple):
                self.space(old.sp, m.sp, node, "in masked store")
                target = ("P", p.mul(old.sp[1], m.t))
            else:
                if isinstance(m.sp, tuple):
                    self.ev("pixmix", node, f"grid array stored through a mask over {self.spname(m.sp)}")
                target = ("P", m.t)
        if r["pix"] is not None:
            target = "S"
        if x.sp not in ("S", "?") and x.sp != target:
            if not (isinstance(target, tuple) and isinstance(x.sp, tuple) and target[1] == x.sp[1]):
                self.ev("pixmix", node, f"value over {self.spname(x.sp)} stored to {self.spname(target)} of {name or 'array'}", a=x.sp, b=target)
        # out-of-ROI content
        out = old.out
        if r["pix"] is not None:
            if r["pix"] != ROI and p.mul(r["pix"], ROI) != r["pix"]:
                out = "any"
        elif old.sp == "G":
            if mask is None:
                xo = x.out
                lyr = r["layer"]
                if isinstance(lyr, tuple):
                    out = old.out if xo == old.out or (xo == "val" and False) else ("nan" if xo == "nan" and old.out == "nan" else "any")
                else:
                    out = xo if xo != "val" else "any"
            else:
                m = r["maskn"]
                inside = m.out in ("false", "nan", "zero") or p.mul(mask, ROI) == mask
                if not inside and x.out != old.out:
                    out = "any"
        if x.sp == "?" and out == "any" and old.out != "any":
            if self.phase == "step":
                self.und(node, f"content of {self.srcline(node)} outside the region of interest unknown")
                out = old.out
        elif name and out != old.out and (out == "any" or out not in self.nodata(name)):
            self.ev("roileak", node, f"{name}: store reaches pixels outside the region of interest: '{self.srcline(node)}'", field=name)
        # value
        ocond = mask if mask is not None else p.ONE
        xt = x.t
        if isinstance(old.t, Lay):
            if r["layer"] == "all":
                t = old.t.set_where(ocond, xt) if not (ocond == p.ONE and not isinstance(xt, Lay)) else Lay(xt)
                if ocond == p.ONE and isinstance(xt, Lay):
                    t = xt
            elif r["layer"][0] == "key":
                k = r["layer"][1]
                xk = xt if not isinstance(xt, Lay) else xt.get(k)
                t = old.t.set(k, p.ite(ocond, xk, old.t.get(k)))
            else:
                t = old.t.set_where(p.mul(ocond, r["layer"][1]), xt)
        else:
            if isinstance(xt, Lay):
                xt = xt.base
            t = p.ite(ocond, xt, old.t)
        new = Num(t, u, old.sp, old.lay, out, old.src)
        self.write_cell(cid, new, st, node, mask=r["pix"] if r["pix"] is not None else ocond, value=x, layer=r["layer"])


class _PseudoFunc:
    def __init__(self, mod):
        self.mod = mod
        self.qual = mod.name + ":<module>"
        self.name = "<module>"
