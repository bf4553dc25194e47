"""Statement, expression, loop and library transfer functions (mixin of Engine)."""
import ast
from fractions import Fraction

from . import poly as p
from . import units as un
from .values import *
from .project import AnalysisBroken, land_cover_schema

BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.BitAnd: "and",
       ast.BitOr: "or", ast.BitXor: "xor", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.MatMult: "matmul"}
CMP = {ast.Gt: "gt", ast.Lt: "lt", ast.GtE: "ge", ast.LtE: "le", ast.Eq: "eq", ast.NotEq: "ne"}
TRIG = {"sin", "cos", "tan"}
ATRIG = {"arcsin", "arccos", "arctan", "arctan2"}
ELEM1 = {"exp", "log", "log10", "sqrt", "abs", "absolute", "fabs", "tanh", "sinh", "cosh", "floor", "ceil", "round", "sign",
         "around", "rint", "log1p", "expm1"} | TRIG | ATRIG


def comment_unit(cm, strict=False):
    if not cm:
        return None
    import re
    if strict:
        cm = cm.split(" # ")[0].strip()
        if un.parse(cm) is not None:
            return un.parse(cm)
        for c in reversed(re.findall(r"\(([^()]*)\)", cm)):
            if not re.fullmatch(r"[\d.,\s-]+", c) and un.parse(c) is not None:
                return un.parse(c)
        return None
    cands = re.findall(r"\(([^()]*)\)", cm)
    for c in reversed(cands):
        u = un.parse(c)
        if u is not None:
            return u
    c = cm.split("(")[0].split(",")[0].split(";")[0].strip()
    return un.parse(c)


MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort", "reverse", "update", "setdefault"}


class Interp:
    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> list of Out; at most one 'fall' and it is last"""
        outs = []
        cond = p.ONE  # condition of reaching the current point within this block
        for s in stmts:
            self.nstmts += 1
            self.visited.add(s)
            try:
                res = self.stmt(s, st)
            except Dead as d:
                outs.append(Out("raise", cond, st, d.what))
                return outs
            except (RecursionError, AnalysisBroken):
                raise
            except Exception as ex:
                if self.strict:
                    raise
                self.und(s, f"{type(s).__name__} not modelled ({type(ex).__name__}: {ex})")
                self.forget_targets(s, st)
                res = None
            if res is None:
                continue
            fall = None
            for o in res:
                if o.kind == "fall":
                    fall = o
                else:
                    outs.append(Out(o.kind, p.mul(cond, o.cond), o.st, o.val))
            if fall is None:
                return outs
            st = fall.st
            cond = p.mul(cond, fall.cond)
        outs.append(Out("fall", cond, st))
        return outs

    strict = False

    def forget_targets(self, s, st):
        """a statement the transfer functions cannot handle: everything it stores to becomes unknown"""
        self.quiet += 1
        try:
            for n in ast.walk(s):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                for t in ts:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(x, ast.Name):
                            st.loc[x.id] = self.opq(x, "unknown")
                            continue
                        while isinstance(x, ast.Subscript):
                            x = x.value
                        try:
                            v = self.expr(x, st)
                        except Exception:
                            continue
                        if isinstance(v, (Ref, View)) and isinstance(st.heap.get(v.a[0]), Num):
                            o = st.heap[v.a[0]]
                            h = p.fresh("sym", "hv")
                            st.heap[v.a[0]] = o.rep(t=Lay(p.fn("L", f"hv#{p._counter[0]}", 0, KAPPA)) if isinstance(o.t, Lay) else h)
        finally:
            self.quiet -= 1

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.und(s, f"statement {type(s).__name__} not modelled")
            return None
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        tmp = {}
        self.stack[-1].mod.add_import(s, tmp)
        for k, imp in tmp.items():
            r = self.pr.resolve_import(imp)
            st.loc[k] = self.resolved(r, k, st) if r else Opq(("import", k))

    s_ImportFrom = s_Import

    def s_Global(self, s, st):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                v = self.expr(t.value, st)
                d = st.heap.get(v.a[0]) if isinstance(v, Ref) else None
                k = self.expr(t.slice, st) if not isinstance(t.slice, ast.Slice) else None
                if isinstance(d, DictS) and isinstance(k, PC):
                    if self.cellname.get(v.a[0]):
                        self.ev("globalwrite", s, self.cellname[v.a[0]])
                    self.ev("listwrite", s, "del", cid=v.a[0])
                    st.heap[v.a[0]] = DictS({a: b for a, b in d.items.items() if a != k.v}, d.gen)
                elif isinstance(v, CfgV):
                    self.ev("cfgwrite", s, ".".join(map(str, v.a[0])), path=v.a[0])
                elif isinstance(v, Opq):
                    self.ev("opqwrite", s, f"deletion from {str(v.a[0])[:80]}", tag=v.a[0])
            elif isinstance(t, ast.Attribute):
                v = self.expr(t.value, st)
                if isinstance(v, Opq):
                    self.ev("opqwrite", s, f"deletion from {str(v.a[0])[:80]}", tag=v.a[0])

    def s_Assert(self, s, st):
        self.expr(s.test, st)

    def s_FunctionDef(self, s, st):
        from .project import Func
        f = Func(s, self.stack[-1].mod, None, self.stack[-1] if hasattr(self.stack[-1], "node") else None)
        clo = dict(st.loc)
        fv = FnV(f, None, _Closure(clo))
        st.loc[s.name] = fv
        clo[s.name] = fv

    def s_ClassDef(self, s, st):
        st.loc[s.name] = Opq(("localclass", s.name))

    def s_Return(self, s, st):
        v = self.expr(s.value, st) if s.value is not None else PC(None)
        return [Out("return", p.ONE, st, v)]

    def s_Raise(self, s, st):
        nm = None
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(e)
        self.ev("raise", s, nm or "reraise", exc=nm, cond=self.pathcond[-1])
        return [Out("raise", p.ONE, st, nm)]

    def s_Break(self, s, st):
        return [Out("break", p.ONE, st)]

    def s_Continue(self, s, st):
        return [Out("continue", p.ONE, st)]

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        v = self.comment_units(s, v, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.expr(s.value, st)
            self.assign(s.target, self.comment_units(s, v, st), st, s)

    def comment_units(self, s, v, st):
        """literal constants with a documented unit in a trailing comment"""
        if isinstance(v, PC) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool) or (isinstance(v, Num) and v.scalar and v.u in (un.ANY, None)):
            u = self.comment_unit(self.stack[-1].mod, s)
            if u is not None:
                return self.num(v, st).rep(u=u)
        elif isinstance(v, Num) and isinstance(v.u, un.Unit) and v.u.soft:
            u = self.comment_unit(self.stack[-1].mod, s)
            if u is not None:
                return v.rep(u=u)
        return v

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.loc[t.id] = self.box(v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, ShapeV) and len(t.elts) == 2 and v.a == ("G", None):
                vals = [Count("Grows"), Count("Gcols")]
            else:
                vals = self.unpack(v, len(t.elts), st, node)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            parts = self.index_parts(t.slice, st)
            self.setitem(o, parts, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, n, st, node):
        if isinstance(v, Unbound):
            v = v.v
        if isinstance(v, Tup) and len(v.a[0]) == n:
            return list(v.a[0])
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            if isinstance(s, ListS) and s.gen is None and len(s.items) == n:
                return list(s.items)
        if isinstance(v, Opq) and v.a[0][0] == "join":
            pass
        if self.is_arr(v, st):
            x = self.num(v, st)
            if isinstance(x.t, Lay):
                return [self.layer_of(x, p.C(i)) for i in range(n)]
            if x.sp == "?":
                return [Num(p.fn("unpack", x.t, p.C(i)), x.u, "?") for i in range(n)]
        return [Opq(("unpack", self.key(v, st), i)) for i in range(n)]

    def s_AugAssign(self, s, st):
        t = s.target
        op = BIN.get(type(s.op))
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, s)
            rhs = self.expr(s.value, st)
            if isinstance(cur, Ref) and isinstance(st.heap.get(cur.a[0]), Num):
                x = self.numop(op, cur, rhs, st, s)
                old = st.heap[cur.a[0]]
                xn = self.num(x, st)
                if xn.sp != old.sp and xn.sp not in ("S", "?") and old.sp != "?":
                    self.ev("pixmix", s, f"in-place {op} of value over {self.spname(xn.sp)} into {self.spname(old.sp)}")
                self.write_cell(cur.a[0], Num(xn.t, xn.u, old.sp, old.lay, xn.out, old.src), st, s, mask=p.ONE, value=xn)
                return
            if isinstance(cur, View):
                x = self.numop(op, cur, rhs, st, s)
                self.setitem(Ref(cur.a[0]), [Num(cur.a[1], un.ANY)], x, st, s)
                return
            st.loc[t.id] = self.box(self.numop(op, cur, rhs, st, s), st)
            return
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            cur = self.getattr(o, t.attr, st, s)
            rhs = self.expr(s.value, st)
            if isinstance(cur, Ref) and isinstance(st.heap.get(cur.a[0]), Num):
                x = self.num(self.numop(op, cur, rhs, st, s), st)
                self.arr_set(cur, [SliceV(None, None, None)], x, st, s)
                return
            self.setattr(o, t.attr, self.numop(op, cur, rhs, st, s), st, s)
            return
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            parts = self.index_parts(t.slice, st)
            cur = self.getitem(o, parts, st, s)
            rhs = self.expr(s.value, st)
            x = self.numop(op, cur, rhs, st, s)
            if isinstance(x, Num) and isinstance(cur, (Num, View)):
                # an in-place update keeps the unit of the target (checked by the operator)
                pass
            self.setitem(o, parts, x, st, s)

    def s_If(self, s, st):
        c = self.truth(self.expr(s.test, st), st, s.test)
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            self.chained.setdefault(s.orelse[0], self.chained.get(s, s))
        elif not s.orelse and s in self.chained and c == p.ZERO:
            d = self.dispatch_on(self.chained[s], st)
            if d is not None:
                self.ev("fallthrough", s, f"no branch of the dispatch matches '{d[0]}'", value=d[0], arms=d[1])
        if c == p.ONE:
            return self.branch(s.body, st, p.ONE)
        if c == p.ZERO:
            return self.branch(s.orelse, st, p.ONE)
        pc = self.pathcond[-1]
        if pc is not p.ONE and len(pc.m) * len(c.m) <= 400:
            pcc = p.mul(pc, c)
            if pcc == p.ZERO:      # excluded by the enclosing branches
                return self.branch(s.orelse, st, p.ONE)
            if pcc == pc:
                return self.branch(s.body, st, p.ONE)
        a = st.fork()
        b = st.fork()
        self.refine(s.test, a, st, True)
        oa = self.branch(s.body, a, c)
        ob = self.branch(s.orelse, b, p.b_not(c))
        return self.join_outs(c, oa, ob)

    def dispatch_on(self, head, st):
        """(value, literals) of an if/elif chain that compares one known string with literals"""
        subj, lits = None, []
        s = head
        while s is not None:
            t = s.test
            if subj is not None and isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
                t = next((x for x in t.values if isinstance(x, ast.Compare) and ast.dump(x.left) == ast.dump(subj)), t)
            elif subj is None and isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and isinstance(t.values[0], ast.Compare):
                t = t.values[0]
            if subj is not None and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" \
                    and ast.dump(t.args[0]) == ast.dump(subj):
                s = s.orelse[0] if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) else None
                continue
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In))):
                return None
            if subj is None:
                subj = t.left
            elif ast.dump(subj) != ast.dump(t.left):
                return None
            c = t.comparators[0]
            for x in c.elts if isinstance(c, (ast.Tuple, ast.List, ast.Set)) else [c]:
                if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
                    return None
                lits.append(x.value)
            s = s.orelse[0] if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) else None
        v = self.expr(subj, st)
        return (v.v, tuple(lits)) if isinstance(v, PC) and isinstance(v.v, str) else None

    def refine(self, test, a, st, pos):
        pass

    def branch(self, body, st, c):
        self.pathcond.append(p.mul(self.pathcond[-1], c))
        try:
            return self.block(body, st) if body else [Out("fall", p.ONE, st)]
        finally:
            self.pathcond.pop()

    def join_outs(self, c, oa, ob):
        outs = []
        fa = fb = None
        for o in oa:
            if o.kind == "fall":
                fa = o
            else:
                outs.append(Out(o.kind, p.mul(c, o.cond), o.st, o.val))
        nc = p.b_not(c)
        for o in ob:
            if o.kind == "fall":
                fb = o
            else:
                outs.append(Out(o.kind, p.mul(nc, o.cond), o.st, o.val))
        if fa is not None and fb is not None:
            st = self.merge(c, fa.st, fb.st)
            outs.append(Out("fall", p.ite(c, fa.cond, fb.cond), st))
        elif fa is not None:
            outs.append(Out("fall", p.mul(c, fa.cond), fa.st))
        elif fb is not None:
            outs.append(Out("fall", p.mul(nc, fb.cond), fb.st))
        return outs

    def s_With(self, s, st):
        for it in s.items:
            v = self.expr(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    def never_raises(self, s, st):
        """the protected block only looks up keys which are present in a literal mapping"""
        for b in s.body:
            if not (isinstance(b, ast.Assign) and isinstance(b.value, ast.Subscript) and isinstance(b.value.value, ast.Name) and isinstance(b.value.slice, ast.Constant)):
                return False
            v = st.loc.get(b.value.value.id)
            if not (isinstance(v, Opq) and v.a[0][0] == "constdict" and any(k == b.value.slice.value for k, _ in v.a[0][1])):
                return False
        return True

    def s_Try(self, s, st):
        pre = st.fork()
        sure = self.never_raises(s, st)
        self.intry += 1
        try:
            outs = self.block(s.body, st)
        finally:
            self.intry -= 1
        c = p.ind("opq", ("exc", self.stack[-1].qual, s.lineno))
        for h in s.handlers if not sure else ():
            hs = pre.fork()
            if h.name:
                hs.loc[h.name] = Opq(("exc", s.lineno))
            self.quiet_unbound = True
            ho = self.block(h.body, hs)
            live = [o for o in ho if o.kind != "raise"]
            norm = [o for o in outs if o.kind != "raise"]
            if not norm:
                outs = ho
            elif live:
                outs = self.join_outs(c, ho, outs)
        res = []
        for o in outs:
            if o.kind == "fall" and s.orelse:
                res += self.block(s.orelse, o.st)
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                fo = self.block(s.finalbody, o.st)
                for f in fo:
                    if f.kind == "fall":
                        fin.append(Out(o.kind, o.cond, f.st, o.val))
                    else:
                        fin.append(f)
            res = fin
        # keep at most one fall at the end
        falls = [o for o in res if o.kind == "fall"]
        rest = [o for o in res if o.kind != "fall"]
        if len(falls) > 1:
            acc = falls[-1]
            for o in reversed(falls[:-1]):
                acc = Out("fall", p.ONE, self.merge(o.cond, o.st, acc.st))
            falls = [acc]
        return rest + falls

    # ----------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.expr(s.iter, st)
        return self.for_over(s, it, st)

    def loop_items(self, it, st):
        """-> list of concrete items, or None"""
        if isinstance(it, Unbound):
            it = it.v
        if isinstance(it, Tup):
            return list(it.a[0])
        if isinstance(it, Ref):
            x = st.heap.get(it.a[0])
            if isinstance(x, ListS) and x.gen is None:
                return list(x.items)
            if isinstance(x, DictS) and x.gen is None:
                return [PC(k) for k in x.items]
        if isinstance(it, DictItems):
            x = st.heap.get(it.a[0])
            if isinstance(x, DictS) and x.gen is None:
                return [self._ditem(it.a[1], PC(k), v) for k, v in x.items.items()]
        if isinstance(it, RangeV):
            vs = [self.num(x, st).t for x in it.a]
            if all(isinstance(x, p.Poly) and x.is_const() for x in vs):
                r = list(range(*[int(x.const()) for x in vs]))
                if len(r) <= 16:
                    return [PC(i) for i in r]
        if isinstance(it, PC) and isinstance(it.v, (list, tuple, str)):
            return [PC(x) for x in it.v]
        return None

    def _ditem(self, mode, k, v):
        return Tup((k, v)) if mode == "items" else k if mode == "keys" else v

    def for_over(self, s, it, st):
        items = self.loop_items(it, st)
        if items is not None and len(items) <= 64:
            return self.unroll(s, items, st)
        pix = self.pixel_loop(it, st)
        if pix is not None:
            return self.run_pixel_loop(s, it, pix, st)
        gen = self.generic_item(it, st)
        if gen is not None:
            # generic element, executed once (per class); effects are guarded by its own mask
            outs = self.unroll(s, [gen], st, generic=True)
            return outs
        return self.symbolic_loop(s, it, st)

    def generic_item(self, it, st):
        if isinstance(it, Unbound):
            it = it.v
        if isinstance(it, Ref):
            x = st.heap.get(it.a[0])
            if isinstance(x, ListS):
                return x.gen
            if isinstance(x, DictS):
                return x.gen[0]
            if isinstance(x, Num) and x.sp == "?":
                return Num(p.fn("elem", x.t) if isinstance(x.t, p.Poly) else p.fresh("sym", "elem"), x.u)
        if isinstance(it, DictItems):
            x = st.heap.get(it.a[0])
            if isinstance(x, DictS) and x.gen is not None:
                return self._ditem(it.a[1], x.gen[0], x.gen[1])
        if isinstance(it, Opq):
            return Opq(("elem", it.a[0]))
        if isinstance(it, Num) and it.sp == "?":
            return Num(p.fn("elem", it.t) if isinstance(it.t, p.Poly) else p.fresh("sym", "elem"), it.u)
        if isinstance(it, CfgV):
            return Opq(("elem", it))
        if isinstance(it, BoundM):
            return Opq(("elem", repr(it)))
        return None

    def pixel_loop(self, it, st):
        if isinstance(it, RangeV):
            lo, hi, step = it.a
            if isinstance(hi, Count) and isinstance(hi.a[0], p.Poly) and isinstance(lo, PC) and lo.v == 0:
                return hi.a[0]
        if isinstance(it, IdxPairs):
            return it.a[0]
        return None

    def run_pixel_loop(self, s, it, mask, st):
        """every pixel of the mask once, independently: transfer the body for a generic pixel"""
        a = st.fork()
        if isinstance(it, IdxPairs):
            self.assign(s.target, Tup((PixRow(mask), PixCol(mask))), a, s)
        else:
            self.assign(s.target, PixNum(mask), a, s)
        self.pixel_depth += 1
        try:
            outs = self.block(s.body, a)
        finally:
            self.pixel_depth -= 1
        acc = None
        for o in reversed(outs):
            if o.kind in ("fall", "continue"):
                acc = o.st if acc is None else self.merge(o.cond, o.st, acc)
        if acc is None:
            return None
        m = self.merge(mask, acc, st)
        # locals of the loop body do not survive with a defined value
        loc = dict(st.loc)
        for k, v in m.loc.items():
            if k not in loc:
                loc[k] = v
        for k in st.loc:
            if acc.loc.get(k) is not st.loc[k] and acc.loc.get(k) != st.loc[k]:
                loc[k] = Opq(("afterloop", k, s.lineno))
        m.loc = loc
        return [Out("fall", p.ONE, m)]

    def unroll(self, s, items, st, generic=False, guards=None, test=None):
        """items in order; break/continue/return handled by guarded merging"""
        outs = []
        done = []      # (cond, state) of break exits
        cond = p.ONE   # condition that the loop is still running
        cur = st
        for n, x in enumerate(items):
            skip, g = None, p.ONE
            if guards is not None:
                g = guards[n] if test is None else self.truth(self.expr(test, cur), cur, test)
                if g == p.ZERO:
                    break
                if g != p.ONE:
                    skip = cur.fork()
            if x is not None:
                self.assign(s.target, x, cur, s)
            res = self.block(s.body, cur)
            acc = None
            acccond = p.ZERO
            for o in reversed(res):
                if o.kind in ("fall", "continue"):
                    acc = o.st if acc is None else self.merge(o.cond, o.st, acc)
                    acccond = p.add(acccond, o.cond)
                elif o.kind == "break":
                    done.append((p.mul(p.mul(cond, g), o.cond), o.st))
                else:
                    outs.append(Out(o.kind, p.mul(p.mul(cond, g), o.cond), o.st, o.val))
            if acc is None and skip is None:
                cur = None
                break
            if skip is not None:
                acccond = p.add(p.mul(g, acccond), p.b_not(g))
                for k in skip.loc.keys() ^ (acc.loc.keys() if acc is not None else set()):
                    skip.loc.pop(k, None)
                acc = skip if acc is None else self.merge(g, acc, skip)
            cond = p.mul(cond, acccond)
            cur = acc
        if cur is not None and s.orelse:
            res = self.block(s.orelse, cur)
            cur = None
            for o in res:
                if o.kind == "fall":
                    cur = o.st
                else:
                    outs.append(Out(o.kind, p.mul(cond, o.cond), o.st, o.val))
        for c, x in reversed(done):
            cur = x if cur is None else self.merge(c, x, cur)
        if cur is None:
            return outs
        return outs + [Out("fall", p.ONE, cur)]

    def modified(self, a, b):
        """locations changed between states a (before) and b (after)"""
        ml = {k for k in b.loc if k not in a.loc or (b.loc[k] is not a.loc[k] and b.loc[k] != a.loc[k])}
        mh = {c for c in a.heap if b.heap.get(c) is not a.heap[c] and b.heap.get(c) != a.heap[c]}
        return ml, mh

    unroll_sym = 0     # >0: loops over a symbolic number of layers are unrolled this often
    pixel_depth = 0

    def bounded(self, s, it, st):
        lo, hi, stp = [self.num(x, st).t for x in it.a]
        if not (isinstance(lo, p.Poly) and isinstance(hi, p.Poly) and stp.is_const() and abs(stp.const()) == 1):
            return None
        K = self.unroll_sym
        if stp.const() == 1 and lo.is_const() and lo.const() >= 0:
            l = int(lo.const())
            items = [PC(l + i) for i in range(max(K - l, 0))]
            gs = [p.ind_gt(p.sub(hi, p.C(l + i))) for i in range(len(items))]
            self.trunc.append(p.ind_gt(p.sub(hi, p.C(K))))
        elif stp.const() == -1 and hi.is_const():
            h = int(hi.const())
            items = [PC(i) for i in range(K - 1, h, -1)]
            gs = [p.b_not(p.ind_gt(p.sub(p.C(i), lo))) for i in range(K - 1, h, -1)]
            self.trunc.append(p.ind_gt(p.sub(lo, p.C(K - 1))))
        else:
            return None
        return self.unroll(s, items, st, guards=gs)

    def symbolic_loop(self, s, it, st):
        """for k in range(lo, hi): body transferred once for a generic k"""
        if self.unroll_sym and self.pixel_depth and isinstance(it, RangeV):
            r = self.bounded(s, it, st)
            if r is not None:
                return r
        lo = hi = None
        kvar = p.P(p.atom("sym", ("k", self.stack[-1].qual, s.lineno, len(self.layer_loop))))
        item = None
        desc = False
        if isinstance(it, RangeV):
            lo, hi = self.num(it.a[0], st).t, self.num(it.a[1], st).t
            stp = self.num(it.a[2], st).t
            if stp.is_const() and stp.const() < 0:
                desc = True
            item = Num(kvar, un.ANY)
        elif isinstance(it, BoundM):
            return None
        else:
            v = self.num(it, st)
            item = Num(p.fn("elem", v.t if isinstance(v.t, p.Poly) else p.sym(("lay", v.t))), v.u)
        return self.summarise(s, st, item, kvar, lo, hi, desc)

    def s_While(self, s, st):
        if self.unroll_sym and self.pixel_depth:
            return self.unroll(s, [None] * (self.unroll_sym + 1), st, guards=True, test=s.test)
        return self.summarise(s, st, None, None, None, None, False, test=s.test)

    def summarise(self, s, st, item, kvar, lo, hi, desc, test=None):
        self.layer_loop.append(kvar)
        try:
            return self._summarise(s, st, item, kvar, lo, hi, desc, test)
        finally:
            self.layer_loop.pop()

    def _summarise(self, s, st, item, kvar, lo, hi, desc, test):
        tag = (self.stack[-1].qual, s.lineno)

        def body(a, quiet):
            if quiet:
                self.quiet += 1
            try:
                if item is not None:
                    self.assign(s.target, item, a, s)
                pre = a.fork()
                ex = []
                c = p.ONE
                if test is not None:
                    c = self.truth(self.expr(test, a), a, test)
                outs = self.block(s.body, a)
                return pre, outs, c
            finally:
                if quiet:
                    self.quiet -= 1

        def nextstate(outs):
            acc, tot = None, p.ZERO
            for o in reversed(outs):
                if o.kind in ("fall", "continue"):
                    acc = o.st if acc is None else self.merge(o.cond, o.st, acc)
            return acc

        # 1. find modified locations (fixpoint over dry runs)
        ml, mh = set(), set()
        hav = None
        keyed = {}
        grp = {}   # pixel set before the loop -> generic pixel set of one iteration
        for _ in range(6):
            a = st.fork()
            hav = self.havoc(a, ml, mh, tag, kvar, keyed, grp)
            pre, outs, c = body(a, True)
            g2 = dict(grp)
            for o in outs:
                if o.kind not in ("fall", "continue"):
                    continue
                for k in ml:
                    m0, m1 = self.pixset(st.loc.get(k), st), self.pixset(o.st.loc.get(k), o.st)
                    mp = self.pixset(pre.loc.get(k), pre)
                    if m0 is not None and m1 is not None and m1 != mp and m0 not in g2:
                        g2[m0] = p.ind("hvm", tag, len(g2))
            gchg = g2 != grp
            grp = g2
            l2, h2 = set(ml), set(mh)
            for o in outs:
                if o.kind == "raise":
                    continue
                x, y = self.modified(pre, o.st)
                l2 |= {k for k in x if k in st.loc}
                h2 |= {k for k in y if k in st.heap}
            # array cells written only at the loop key keep their content elsewhere
            nk = {}
            for cid in h2:
                v0 = pre.heap.get(cid)
                ok = kvar is not None and isinstance(v0, Num) and isinstance(v0.t, Lay)
                for o in outs:
                    if not ok or o.kind == "raise":
                        continue
                    v1 = o.st.heap.get(cid)
                    if v1 is None or v1 is v0:
                        continue
                    if not isinstance(v1.t, Lay) or v1.t.base != v0.t.base:
                        ok = False
                        break
                    ov0 = dict(v0.t.ov)
                    for k, t in v1.t.ov:
                        if k != kvar and ov0.get(k) != t:
                            ok = False
                nk[cid] = ok
            if l2 == ml and h2 == mh and nk == keyed and not gchg:
                break
            ml, mh, keyed = l2, h2, nk
        # 2. recorded run
        a = st.fork()
        hav = self.havoc(a, ml, mh, tag, kvar, keyed, grp)
        pre, outs, c = body(a, False)
        nxt = nextstate(outs)
        breaks = [o for o in outs if o.kind == "break"]
        # 3. relations
        post = self.loop_exit(s, st, pre, nxt, outs, ml, mh, tag, kvar, lo, hi, keyed, hav, test, grp)
        res = [Out(o.kind, o.cond, o.st, o.val) for o in outs if o.kind == "return"]
        if test is not None and c == p.ONE and not breaks:
            return res
        if s.orelse:
            return res + self.block(s.orelse, post)
        return res + [Out("fall", p.ONE, post)]

    def pixset(self, v, st):
        """mask polynomial of the pixel set a value ranges over, or None"""
        if isinstance(v, (FlatIdx, IdxPairs)):
            return v.a[0]
        if isinstance(v, Count) and isinstance(v.a[0], p.Poly):
            return v.a[0]
        if v is not None and self.is_arr(v, st):
            n = self.num(v, st)
            if isinstance(n.sp, tuple):
                return n.sp[1]
        return None

    def havoc(self, a, ml, mh, tag, kvar, keyed, grp={}):
        """replace modified locations by fresh symbols; returns map loc->symbol poly"""
        hav = {}
        for k in ml:
            v = a.loc.get(k)
            if isinstance(v, (FlatIdx, IdxPairs, Count)):
                a.loc[k] = type(v)(grp.get(v.a[0], v.a[0]))
                continue
            x = self.num(v, a) if v is not None and (isinstance(v, (Num, PC)) or self.is_arr(v, a)) else None
            if x is None:
                a.loc[k] = Opq(("hv", tag, k))
                continue
            f = p.sym(("hv", tag, k))
            u = x.u if x.u is not un.ANY else None
            if isinstance(v, PC) and isinstance(v.v, bool):
                f = p.ind("hv", tag, k)
            t = Lay(p.fn("L", str(("hv", tag, k)), 0, KAPPA)) if isinstance(x.t, Lay) else f
            if isinstance(x.t, p.Poly) and x.t in grp and x.sp == "G":
                t = grp[x.t]
            n = Num(t, u, x.sp if not isinstance(x.sp, tuple) else ("P", grp.get(x.sp[1], x.sp[1])), x.lay, x.out)
            hav[("l", k)] = t
            a.loc[k] = n if n.scalar else self.alloc(a, n)
        for c in mh:
            v = a.heap.get(c)
            if not isinstance(v, Num):
                if isinstance(v, ObjS):
                    continue
                continue
            nm = self.cellname.get(c, c)
            if isinstance(v.t, Lay):
                fam = p.fn("L", str(("hv", tag, nm)), 0, KAPPA)
                if keyed.get(c) and kvar is not None:
                    # content at the current key is still the one before the loop
                    t = Lay(fam, [(kvar, v.t.get(kvar))])
                else:
                    t = Lay(fam)
            else:
                t = p.sym(("hv", tag, nm)) if not p.is_boolean(v.t) else p.ind("hv", tag, nm)
                if v.t in grp and v.sp == "G":
                    t = grp[v.t]
            hav[("h", c)] = t
            a.heap[c] = v.rep(t=t, sp=v.sp if not isinstance(v.sp, tuple) else ("P", grp.get(v.sp[1], v.sp[1])))
        return hav

    def loop_exit(self, s, st, pre, nxt, outs, ml, mh, tag, kvar, lo, hi, keyed, hav, test, grp={}):
        """state after the loop, with linear relations between accumulated changes as rewrite facts"""
        post = st.fork()
        breaks = [o for o in outs if o.kind == "break"]
        ends = ([nxt] if nxt is not None else []) + [o.st for o in breaks]
        rng = p.ONE
        if kvar is not None and hi is not None:
            rng = p.ind_gt(p.sub(hi, KAPPA))
            if lo is not None and not lo.is_zero():
                rng = p.mul(rng, p.b_not(p.ind_gt(p.sub(lo, KAPPA))))
        carried = set()
        for key, t in hav.items():
            for x in ([t.base] if isinstance(t, Lay) else [t]):
                carried |= x.atoms() if not isinstance(t, Lay) else set()
        # symbols that stand for loop-carried values
        carr_atoms = set()
        for key, t in hav.items():
            if isinstance(t, Lay):
                carr_atoms |= {("fam", a) for a in ()}
            else:
                carr_atoms |= t.atoms()
        fam_names = {x.base for x in hav.values() if isinstance(x, Lay)}

        def carried_in(t):
            def pred(a):
                if a.id in carr_atoms:
                    return True
                if a.kind == "fn" and a.key[0] == "L" and any(P2.key and False for P2 in ()):
                    return True
                if a.kind == "fn" and a.key[0] == "L" and isinstance(a.key[1], str) and a.key[1].startswith("('hv', " + repr(tag)):
                    return True
                return False
            return p.contains(t, pred)

        deltas = []   # (desc, post SUM/atom poly, pre poly, delta poly)
        for c in sorted(mh):
            v0 = st.heap[c]
            if not isinstance(v0, Num):
                if isinstance(v0, (ListS, DictS)):
                    ve = ends[0].heap.get(c) if ends else v0
                    if isinstance(ve, ListS):
                        gen = ve.gen if ve.gen is not None else (ve.items[-1] if ve.items else None)
                        post.heap[c] = ListS((), gen) if gen is not None else ve
                    else:
                        post.heap[c] = ve
                elif isinstance(v0, ObjS) and ends:
                    ve = ends[0].heap.get(c)
                    attrs = dict(ve.attrs)
                    for k in attrs:
                        if k not in v0.attrs or attrs[k] != v0.attrs[k]:
                            attrs[k] = Opq(("afterloop", tag, k))
                    post.heap[c] = ObjS(v0.cls, attrs)
                continue
            nm = self.cellname.get(c, c)
            if isinstance(v0.t, Lay):
                if keyed.get(c) and nxt is not None and not breaks:
                    newt = nxt.heap[c].t.get(kvar)
                    if not carried_in(newt):
                        # independent iterations: closed form
                        g = p.subst(newt, lambda a: KAPPA if a.id in kvar.atoms() else None)
                        post.heap[c] = v0.rep(t=v0.t.set_where(rng, g), out=nxt.heap[c].out, u=nxt.heap[c].u)
                        continue
                fam = p.fn("L", str(("post", tag, nm)), self._ver(tag, nm), KAPPA)
                new = Lay(p.ite(rng, fam, v0.t.base) if keyed.get(c) else fam)
                if keyed.get(c) and v0.t.ov:
                    new = v0.t.set_where(rng, fam)
                e = ends[0].heap[c] if ends else v0
                post.heap[c] = v0.rep(t=new, out=e.out, u=e.u)
                ds = []
                for x in ends:
                    ds.append(self.lay_delta(pre.heap[c].t, x.heap[c].t))
                if all(d is not None for d in ds):
                    deltas.append((("h", c), post.heap[c].t.sum(v0.lay if isinstance(v0.lay, p.Poly) else None), v0.t.sum(v0.lay if isinstance(v0.lay, p.Poly) else None), ds))
            else:
                f = p.fn("post", str((tag, nm)), p.C(self._ver(tag, nm))) if not p.is_boolean(v0.t) else p.ind("post", (tag, nm), self._ver(tag, nm))
                if v0.t in grp and v0.sp == "G":
                    f = p.ind("postm", tag, grp[v0.t])
                e = ends[0].heap[c] if ends else v0
                post.heap[c] = v0.rep(t=f, out=e.out, u=un.join(v0.u, e.u))
                if p.is_boolean(v0.t):
                    continue
                deltas.append((("h", c), f, v0.t, [p.sub(x.heap[c].t, pre.heap[c].t) for x in ends]))
        for k in sorted(ml):
            v0 = st.loc[k]
            isnum = isinstance(v0, (Num, PC)) or self.is_arr(v0, st)
            e = ends[0].loc.get(k) if ends else None
            if isinstance(v0, (FlatIdx, IdxPairs, Count)) and v0.a[0] in grp:
                post.loc[k] = type(v0)(p.ind("postm", tag, grp[v0.a[0]]))
                continue
            if isnum and e is not None and self.is_arr(v0, st):
                m0 = self.pixset(v0, st)
                if m0 is not None and m0 in grp and not isinstance(self.num(v0, st).t, Lay):
                    x0 = self.num(v0, st)
                    post.loc[k] = self.box(Num(p.fn("post", str((tag, k)), p.C(self._ver(tag, k))), x0.u, ("P", p.ind("postm", tag, grp[m0])), x0.lay, x0.out), post)
                    continue
            if not isnum or e is None or isinstance(e, (Opq, Unbound)):
                post.loc[k] = Opq(("afterloop", tag, k, self._ver(tag, k)))
                continue
            x0 = self.num(v0, st)
            e0 = self.num(e, ends[0])
            if isinstance(x0.t, Lay) or isinstance(e0.t, Lay):
                post.loc[k] = self.box(Num(Lay(p.fn("L", str(("post", tag, k)), self._ver(tag, k), KAPPA)), un.join(x0.u, e0.u), e0.sp, e0.lay if e0.lay is not None else x0.lay, e0.out), post)
                continue
            f = p.fn("post", str((tag, k)), p.C(self._ver(tag, k)))
            u = un.join(x0.u if x0.u is not un.ANY else None, e0.u) if x0.u is not un.ANY else e0.u
            post.loc[k] = self.box(Num(f, u, x0.sp if isinstance(x0.sp, tuple) else e0.sp if not isinstance(e0.sp, tuple) else ("P", p.ind("postm", tag, k)), e0.lay, e0.out), post)
            try:
                deltas.append((("l", k), f, x0.t, [p.sub(self.num(x.loc[k], x).t, self.num(pre.loc[k], pre).t) for x in ends]))
            except Exception:
                pass
        if self.want_facts and not self.quiet:
            self.infer(deltas, kvar, rng, tag, carried_in)
        for k in list(nxt.loc if nxt is not None else ()):
            if k not in post.loc:
                v = nxt.loc[k]
                post.loc[k] = Opq(("afterloop", tag, k)) if not isinstance(v, (PC, FnV, ModV, ClsV)) else v
        return post

    _vers = None

    def _ver(self, tag, nm):
        if self._vers is None:
            self._vers = {}
        if self.quiet:
            return 0
        k = (tag, nm, self.loopctx())
        # one summary symbol per (loop, location, context)
        d = self._vers.setdefault((tag, nm), {})
        if k[2] not in d:
            d[k[2]] = len(d) + 1
        return d[k[2]]

    def loopctx(self):
        return (tuple(f.qual for f in self.stack), tuple(getattr(n, "lineno", 0) for n in self.callnodes), self.ctxcount)

    ctxcount = 0

    def lay_delta(self, a, b):
        """sum over layers of (b-a) where they differ only by keyed overrides"""
        if a is b or a == b:
            return p.ZERO
        if not isinstance(a, Lay) or not isinstance(b, Lay):
            return None
        if a.base != b.base:
            return p.sub(b.sum(), a.sum())
        keys = [k for k, _ in b.ov]
        for k, _ in a.ov:
            if k not in keys:
                keys.append(k)
        # differing keys must be pairwise distinct or identical
        diff = []
        for k in keys:
            x, y = dict(a.ov).get(k), dict(b.ov).get(k)
            if x is not None and y is not None and x == y:
                continue
            diff.append(k)
        if len(diff) == 0:
            return p.ZERO
        if len(diff) == 1:
            k = diff[0]
            return p.sub(dict(b.ov).get(k, at_layer(b.base, k)), a.get(k))
        tot = p.ZERO
        for i, k in enumerate(diff):
            for j in diff[:i]:
                if not p.sub(k, j).is_const():
                    return None
            tot = p.add(tot, p.sub(b.get(k), a.get(k)))
        return tot

    def infer(self, deltas, kvar, rng, tag, carried_in):
        """linear relations sum(l_i * delta_i) = 0 on every way through the body -> facts"""
        if self.quiet or not deltas:
            return
        n = len(deltas)
        ways = len(deltas[0][3])
        # closed-form accumulators first
        done = set()
        for i, (loc, postp, prep, ds) in enumerate(deltas):
            if ways == 1 and kvar is not None and not carried_in(ds[0]):
                g = p.subst(ds[0], lambda a: KAPPA if a.id in kvar.atoms() else None)
                self.add_fact(postp, p.add(prep, sumb(p.mul(rng, g))))
                done.add(i)
        monos = {}
        rows = [dict() for _ in range(n)]
        for i, (loc, postp, prep, ds) in enumerate(deltas):
            for w, d in enumerate(ds):
                d = expand_big(d)
                if d is None:
                    rows[i] = None
                    break
                for m, c in d.m.items():
                    rows[i][(w, m)] = c
        idx = [i for i in range(n) if rows[i] is not None and i not in done]
        # nullspace of the row combination: track combinations
        basis = []  # (row dict, comb dict)
        for i in idx:
            r = dict(rows[i])
            comb = {i: Fraction(1)}
            for br, bc, piv in basis:
                f = r.get(piv)
                if f:
                    f = f / br[piv]
                    for k, v in br.items():
                        x = r.get(k, 0) - f * v
                        if x:
                            r[k] = x
                        else:
                            r.pop(k, None)
                    for k, v in bc.items():
                        x = comb.get(k, 0) - f * v
                        if x:
                            comb[k] = x
                        else:
                            comb.pop(k, None)
            if r:
                piv = next(iter(r))
                basis.append((r, comb, piv))
            else:
                # sum comb_i * delta_i = 0  -> sum comb_i*(post-pre) = 0 ; solve for post of i
                postp = deltas[i][1]
                rhs = deltas[i][2]
                for j, cf in comb.items():
                    if j == i:
                        continue
                    rhs = p.sub(rhs, p.scale(p.sub(deltas[j][1], deltas[j][2]), cf / comb[i]))
                self.add_fact(postp, rhs)

    def add_fact(self, lhs, rhs):
        """lhs == rhs, where lhs is linear in a fresh post-loop symbol; store as rewrite of that symbol"""
        # find a fresh atom in lhs
        for mono, c in lhs.m.items():
            if len(mono) == 1 and mono[0][1] == 1:
                a = p.get_atom(mono[0][0])
                if (a.kind == "fn" and a.key[0] in ("SUM", "post")):
                    ispost = a.key[0] == "post" or p.contains(p.P(a), lambda q: q.kind == "fn" and q.key[0] == "L" and str(q.key[1]).startswith("('post'"))
                    if not ispost:
                        continue
                    rest = p.sub(lhs, p.Poly({mono: c}))
                    if p.contains(rest, lambda q: q is a) or p.contains(rhs, lambda q: q is a):
                        continue
                    self.facts.append((a, p.scale(p.sub(rhs, rest), 1 / c)))
                    return True
        return False

    # ------------------------------------------------------------ expressions
    def expr(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Opq(("expr", self.stack[-1].qual, ast.unparse(e)))
        return m(e, st)

    def e_Constant(self, e, st):
        return PC(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Attribute(self, e, st):
        return self.getattr(self.expr(e.value, st), e.attr, st, e)

    def e_Subscript(self, e, st):
        v = self.expr(e.value, st)
        return self.getitem(v, self.index_parts(e.slice, st), st, e)

    def e_Slice(self, e, st):
        return self.index_part(e, st)

    def e_Starred(self, e, st):
        return self.expr(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            v = self.expr(x, st)
            if isinstance(x, ast.Starred):
                its = self.loop_items(v, st)
                if its is not None:
                    out += its
                    continue
                if isinstance(v, ShapeV):
                    out.append(v)
                    continue
            out.append(v)
        return Tup(tuple(self.box(x, st) for x in out))

    def e_List(self, e, st):
        t = self.e_Tuple(e, st)
        return self.alloc(st, ListS(t.a[0]))

    def e_Set(self, e, st):
        return self.e_Tuple(e, st)

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            vv = self.expr(v, st)
            if k is None:
                continue
            kk = self.expr(k, st)
            if isinstance(kk, PC):
                try:
                    d[kk.v] = self.box(vv, st)
                except TypeError:
                    pass
        return self.alloc(st, DictS(d))

    def e_JoinedStr(self, e, st):
        s = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                s += str(x.value)
            else:
                v = self.expr(x.value, st)
                if isinstance(v, PC) and x.format_spec is None:
                    s += str(v.v)
                else:
                    return Opq(("fstr", ast.unparse(e), repr(self.key(v, st))[:200]))
        return PC(s)

    def e_FormattedValue(self, e, st):
        return self.expr(e.value, st)

    def e_Lambda(self, e, st):
        return LamV(e, self.stack[-1].mod, _Closure(dict(st.loc)))

    def e_IfExp(self, e, st):
        c = self.truth(self.expr(e.test, st), st, e.test)
        if c == p.ONE:
            return self.expr(e.body, st)
        if c == p.ZERO:
            return self.expr(e.orelse, st)
        a, b = st.fork(), st.fork()
        va, vb = self.expr(e.body, a), self.expr(e.orelse, b)
        a.loc["$x"], b.loc["$x"] = va, vb
        m = self.merge(c, a, b)
        st.heap = m.heap
        return m.loc["$x"]

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        acc = None
        for x in e.values:
            v = self.expr(x, st)
            c = self.truth(v, st, x)
            if c == (p.ZERO if isand else p.ONE):
                if acc is None or True:
                    return v if acc is None or not isinstance(v, PC) else PC(not isand)
            if c == (p.ONE if isand else p.ZERO):
                last = v
                if acc is None and x is e.values[-1]:
                    return v
                continue
            acc = c if acc is None else (p.b_and(acc, c) if isand else p.b_or(acc, c))
        if acc is None:
            return PC(isand)
        return Num(acc, un.ONE)

    def e_UnaryOp(self, e, st):
        v = self.expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            c = self.truth(v, st, e)
            if c == p.ONE:
                return PC(False)
            if c == p.ZERO:
                return PC(True)
            return Num(p.b_not(c), un.ONE)
        if isinstance(v, PC) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            if isinstance(e.op, ast.USub):
                return PC(-v.v)
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(v, Opq):
            return Opq(("unary", type(e.op).__name__, v.a[0]))
        n = self.num(v, st)
        if isinstance(e.op, ast.USub):
            return self.neg(n)
        if isinstance(e.op, ast.Invert):
            return self.b_not(n)
        return n

    def numop(self, op, a, b, st, node):
        if isinstance(a, Unbound):
            a = a.v
        if isinstance(b, Unbound):
            b = b.v
        if isinstance(a, PC) and isinstance(b, PC):
            try:
                import operator as o
                f = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "pow": o.pow, "and": o.and_, "or": o.or_, "floordiv": o.floordiv, "mod": o.mod}[op]
                r = f(a.v, b.v)
                if isinstance(r, float) and op == "div":
                    return Num(p.C(Fraction(repr(a.v)) / Fraction(repr(b.v))) if not isinstance(a.v, bool) and a.v == a.v and b.v == b.v else p.C(r), un.ANY)
                return PC(r)
            except Exception:
                return self.opq(node)
        for x in (a, b):
            if isinstance(x, PC) and x.v is None:
                self.ev("nonearith", node, "arithmetic with None")
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "add":
            return Tup(a.a[0] + b.a[0])
        isn = lambda v: isinstance(v, (Num, Count, PixNum, CfgV)) or self.is_arr(v, st) or (isinstance(v, PC) and isinstance(v.v, (int, float)))
        if isn(a) and isn(b) or ((isn(a) or isinstance(a, Opq)) and (isn(b) or isinstance(b, Opq)) and not (isinstance(a, Opq) and isinstance(b, Opq))):
            return self.binop(op, self.num(a, st), self.num(b, st), st, node)
        return Opq(("binop", op, repr(self.key(a, st)), repr(self.key(b, st))))

    def e_BinOp(self, e, st):
        a = self.expr(e.left, st)
        b = self.expr(e.right, st)
        return self.numop(BIN[type(e.op)], a, b, st, e)

    def e_Compare(self, e, st):
        left = self.expr(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, st)
            v = self.cmp(op, left, right, st, e)
            if res is None:
                res = v
            else:
                a, b = self.truthnum(res, st, e), self.truthnum(v, st, e)
                res = self.binop("and", a, b, st, e)
            left = right
        return res

    def truthnum(self, v, st, node):
        if isinstance(v, Num):
            return v
        return Num(self.truth(v, st, node), un.ONE)

    def cmp(self, op, a, b, st, node):
        if isinstance(a, Unbound):
            a = a.v
        if isinstance(b, Unbound):
            b = b.v
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if isinstance(b, PC) and b.v is None:
                if isinstance(a, PC):
                    return PC((a.v is None) != neg)
                if isinstance(a, Opq):
                    return Opq(("isnone", neg, a.a[0]))
                return PC(neg)
            if isinstance(a, PC) and isinstance(b, PC):
                return PC((a.v is b.v) != neg)
            return Opq(("is", neg, repr(self.key(a, st)), repr(self.key(b, st))))
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            r = self.contains(a, b, st, node)
            if isinstance(r, bool):
                return PC(r != neg)
            return Num(p.b_not(r) if neg else r, un.ONE)
        o = CMP[type(op)]
        if isinstance(a, PC) and isinstance(b, PC):
            try:
                import operator
                return PC(bool({"gt": operator.gt, "lt": operator.lt, "ge": operator.ge, "le": operator.le, "eq": operator.eq, "ne": operator.ne}[o](a.v, b.v)))
            except Exception:
                return self.opq(node)
        if o in ("eq", "ne") and isinstance(a, (ClsV, FnV)) and isinstance(b, (ClsV, FnV)):
            return PC((a == b) == (o == "eq"))
        strish = lambda v: isinstance(v, PC) and (isinstance(v.v, str) or v.v is None)
        if strish(a) or strish(b):
            other = b if strish(a) else a
            if isinstance(other, Opq):
                c = self.choice_is(other, (a if strish(a) else b).v)
                return Num(c if o == "eq" else p.b_not(c), un.ONE)
            if o in ("eq", "ne"):
                if isinstance(other, (Num, Count)) or self.is_arr(other, st):
                    return PC(o == "ne")
                return PC(o == "ne") if not isinstance(other, CfgV) else self.opq(node)
        isn = lambda v: isinstance(v, (Num, Count, PixNum)) or self.is_arr(v, st) or (isinstance(v, PC) and isinstance(v.v, (int, float)))
        if (isn(a) or isinstance(a, (Opq, CfgV))) and (isn(b) or isinstance(b, (Opq, CfgV))):
            if isinstance(a, Opq) and isinstance(b, Opq):
                return Num(p.ind("opq", ("cmp", o, a.a[0], b.a[0])), un.ONE)
            if isinstance(a, Count) and isinstance(b, Count) and a == b and o in ("eq", "ne"):
                return PC(o == "eq")
            if isinstance(a, Count) and isinstance(b, Count) and o in ("eq", "ne"):
                return Opq(("countcmp", o, repr(a), repr(b)))
            return self.compare(o, self.num(a, st), self.num(b, st), st, node)
        return Opq(("cmp", o, repr(self.key(a, st)), repr(self.key(b, st))))

    def contains(self, a, b, st, node):
        if isinstance(b, Ref):
            s = st.heap.get(b.a[0])
            if isinstance(s, ListS) and s.gen is None:
                b = Tup(s.items)
            elif isinstance(s, DictS) and s.gen is None and isinstance(a, PC):
                return a.v in s.items
        if isinstance(b, Tup):
            acc = p.ZERO
            for x in b.a[0]:
                r = self.cmp(ast.Eq(), a, x, st, node)
                c = self.truth(r, st, node)
                if c == p.ONE:
                    return True
                acc = p.b_or(acc, c)
            return False if acc == p.ZERO else acc
        if isinstance(b, CatV) and isinstance(a, PC):
            return (b.a[0], a.v) in self.fields
        if isinstance(b, StateV) and isinstance(a, PC):
            return a.v in self.cats
        if isinstance(b, Opq) and b.a[0][0] == "constdict" and isinstance(a, PC):
            return any(k == a.v for k, _ in b.a[0][1])
        if isinstance(b, CfgV) and isinstance(a, PC):
            n = self.schema_node(b.a[0] + (a.v,))
            if n is not None and ("default" in n or n.get("required")):
                return True
        if isinstance(a, PC) and isinstance(b, PC):
            try:
                return a.v in b.v
            except Exception:
                pass
        return p.ind("opq", ("in", repr(self.key(a, st)), repr(self.key(b, st))))

    def choice_is(self, other, v):
        """an unknown string equals v; the accepted values of an enumerated class parameter exclude each other"""
        one = lambda x: p.ind("opq", ("streq", other.a[0], x))
        k = other.a[0]
        if k in self.joins:
            c, a, b = self.joins[k]
            f = lambda x: (p.ONE if x.v == v else p.ZERO) if isinstance(x, PC) else self.choice_is(x, v)
            return p.ite(c, f(a), f(b))
        if k[0] == "cfg" and len(k[1]) > 3 and k[1][:2] == ("land_cover", "classes"):
            n = land_cover_schema(self.pr).get(k[1][3]) or {}
            al = n.get("allowed")
            if al and len(k[1]) == 4:
                if v not in al:
                    return p.ZERO
                r = p.ONE if v == al[-1] else one(v)
                for x in al[:al.index(v)]:
                    r = p.mul(r, p.b_not(one(x)))
                return r
        return one(v)

    def comp(self, e, st, elts):
        """comprehension over one generator; returns (items|None, gen)"""
        saved = dict(st.loc)
        g = e.generators[0]
        it = self.expr(g.iter, st)
        items = self.loop_items(it, st)
        res = []
        if items is not None and len(items) <= 64 and len(e.generators) == 1:
            for x in items:
                self.assign(g.target, x, st, e)
                keep = p.ONE
                for c in g.ifs:
                    keep = p.mul(keep, self.truth(self.expr(c, st), st, c))
                if keep == p.ZERO:
                    continue
                res.append(tuple(self.box(self.expr(y, st), st) for y in elts))
            out = (res, None)
        else:
            gen = self.generic_item(it, st)
            if gen is None:
                gen = Opq(("elem", repr(self.key(it, st))[:300]))
            self.assign(g.target, gen, st, e)
            for g2 in e.generators[1:]:
                it2 = self.expr(g2.iter, st)
                gg = self.generic_item(it2, st)
                if gg is None:
                    its = self.loop_items(it2, st)
                    gg = its[0] if its else Opq(("elem", repr(self.key(it2, st))[:300]))
                self.assign(g2.target, gg, st, e)
            for c in g.ifs:
                self.expr(c, st)
            out = (None, tuple(self.box(self.expr(y, st), st) for y in elts))
        for k in list(st.loc):
            if k not in saved:
                del st.loc[k]
            else:
                st.loc[k] = saved[k]
        return out

    def e_ListComp(self, e, st):
        res, gen = self.comp(e, st, [e.elt])
        if res is not None:
            return self.alloc(st, ListS([x[0] for x in res]))
        return self.alloc(st, ListS((), gen[0]))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        res, gen = self.comp(e, st, [e.key, e.value])
        if res is not None and all(isinstance(x[0], PC) for x in res):
            return self.alloc(st, DictS({x[0].v: x[1] for x in res}))
        if res is not None:
            return self.alloc(st, DictS({}, res[-1] if res else None))
        return self.alloc(st, DictS({}, gen))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.expr(e.func, st)
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                if isinstance(v, Tup):
                    args += list(v.a[0])
                elif isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), ListS) and st.heap[v.a[0]].gen is None:
                    args += list(st.heap[v.a[0]].items)
                else:
                    star = True
                    args.append(Opq(("star", repr(self.key(v, st)))))
            else:
                args.append(self.expr(a, st))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), DictS):
                    for kk, vv in st.heap[v.a[0]].items.items():
                        kw[kk] = vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, node):
        if isinstance(f, Unbound):
            f = f.v
        if isinstance(f, FnV):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, ClsV):
            return self.instantiate(f.a[0], args, kw, st, node)
        if isinstance(f, LamV):
            lam, mod, clo = f.a
            loc = dict(clo.d)
            for a, v in zip(lam.args.args, args):
                loc[a.arg] = v
            s2 = State(loc, st.heap)
            self.stack.append(_modfunc(mod, self.stack[-1]))
            try:
                r = self.expr(lam.body, s2)
            finally:
                self.stack.pop()
            st.heap = s2.heap
            return r
        if isinstance(f, Ext):
            return self.ext_call(f.a[0], args, kw, st, node)
        if isinstance(f, BoundM):
            return self.method(f.a[0], f.a[1], args, kw, st, node)
        if isinstance(f, Opq) and isinstance(f.a[0], tuple) and f.a[0][0] == "attr" and f.a[0][-1] == "total_seconds":
            return Num(p.sym(("seconds", f.a[0][1])), un.parse("s"))
        if isinstance(f, Opq):
            self.ev("opqcall", node, str(f.a[0])[:120], args=args, tag=f.a[0])
            for a in list(args) + list(kw.values()):
                if a == self.model_ref:
                    self.ev("callback", node, "model handed to caller-supplied callback")
            return Opq(("call", f.a[0], tuple(repr(self.key(a, st))[:400] for a in args), tuple(sorted((k, repr(self.key(v, st))[:400]) for k, v in kw.items()))))
        return self.opq(node, "call")

    def instantiate(self, cls, args, kw, st, node):
        self.ev("new", node, cls.qual, cls=cls.qual)
        if cls.name == "StateVariableManager":
            return StateV()
        if cls.name in ("PointOutputManager", "GriddedOutputManager", "LiveView") or any(cls.mod.name.startswith(m) for m in self.OPAQUE_MODULES):
            return Opq(("inst", cls.qual))
        r = self.alloc(st, ObjS(cls, {}))
        if cls.name == "ModelGrid":
            roi = self.alloc(st, Num(ROI, un.ONE, "G", out="false"), "grid.roi")
            ext = self.alloc(st, ObjS(None, {}))
            st.heap[r.a[0]] = ObjS(cls, {"roi": roi, "extended_grid": Opq(("extended_grid",))})
            return r
        init = self.pr.find_method(cls, "__init__")
        if init is not None:
            self.call_func(FnV(init, r), args, kw, st, node)
        else:
            # dataclass-like: annotated fields in order
            names = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            attrs = {}
            for n, v in zip(names, args):
                attrs[n] = self.box(v, st)
            for k, v in kw.items():
                attrs[k] = self.box(v, st)
            for x in cls.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id not in attrs and isinstance(x.value, ast.Constant):
                    attrs[x.target.id] = PC(x.value.value)
            st.heap[r.a[0]] = ObjS(cls, attrs)
            post = self.pr.find_method(cls, "__post_init__")
            if post is not None:
                self.call_func(FnV(post, r), [], {}, st, node)
        return r

    # --------------------------------------------------- methods on values
    def method(self, o, name, args, kw, st, node):
        if isinstance(o, StateV):
            if name == "add_category":
                if args and isinstance(args[0], PC):
                    if args[0].v in self.cats:
                        self.ev("dupcat", node, args[0].v)
                    self.cats.add(args[0].v)
                    return CatV(args[0].v)
            if name == "initialize":
                self.allocate_fields(st)
                return PC(None)
            if name == "reset":
                self.ev("reset", node, "state.reset()")
                return PC(None)
            return Opq(("state", name, tuple(repr(a) for a in args)))
        if isinstance(o, CatV):
            if name == "add_variable":
                return self.add_variable(o.a[0], args, kw, st, node)
            return Opq(("cat", o.a[0], name))
        if isinstance(o, CfgV):
            if name == "get" and args and isinstance(args[0], PC):
                q = o.a[0] + (args[0].v,)
                if self.schema_node(q) is None and q not in self.spec and q[:2] != ("land_cover", "classes"):
                    self.ev("cfgabsent", node, ".".join(map(str, q)), path=q)
                    return args[1] if len(args) > 1 else PC(None)      # not an option: never present
                self.softread += 1
                try:
                    return self.cfg_get(q, node)
                finally:
                    self.softread -= 1
            if name in ("keys",):
                return Opq(("cfgkeys", o.a[0]))
            if name == "items":
                return Opq(("cfgitems", o.a[0]))
            if name in MUTATORS:
                self.ev("cfgwrite", node, ".".join(map(str, o.a[0] + tuple(a.v for a in args[:1] if isinstance(a, PC)))), path=o.a[0])
            return Opq(("cfgm", o.a[0], name))
        if isinstance(o, Tup) and name in MUTATORS:
            self.ev("cfgwrite", node, f"list {self.srcline(node)}", path=None)
            return PC(None)
        if isinstance(o, SuperV):
            return PC(None)
        if isinstance(o, Opq) and name == "noop":
            self.ev("gridcall", node, o.a[0][1])
            return PC(None)
        if isinstance(o, Ref):
            s = st.heap.get(o.a[0])
            if isinstance(s, ListS):
                if name == "append":
                    if self.cellname.get(o.a[0]):
                        self.ev("globalwrite", node, self.cellname[o.a[0]])
                    v = self.box(args[0], st)
                    if s.gen is not None or isinstance(v, (Opq, Num)) and len(self.pathcond) > 1 and False:
                        st.heap[o.a[0]] = ListS(s.items, s.gen if s.gen is not None else v)
                    elif isinstance(v, (PC,)):
                        st.heap[o.a[0]] = ListS(s.items + (v,), s.gen)
                    else:
                        st.heap[o.a[0]] = ListS(s.items + (v,), s.gen)
                    return PC(None)
                if name in ("extend", "sort", "insert", "reverse", "clear", "remove"):
                    nm = self.cellname.get(o.a[0])
                    if nm:
                        self.ev("globalwrite", node, nm)
                    self.ev("listwrite", node, name, cid=o.a[0])
                    if name == "extend" and args and s.gen is None:
                        its = self.loop_items(args[0], st)
                        g = self.generic_item(args[0], st) if its is None else None
                        if its is not None:
                            st.heap[o.a[0]] = ListS(s.items + tuple(self.box(x, st) for x in its))
                        elif g is not None:
                            st.heap[o.a[0]] = ListS(s.items, g)
                    return PC(None)
                if name == "copy":
                    return self.alloc(st, s)
                return Opq(("listm", name, o.a[0]))
            if isinstance(s, DictS):
                if name in ("items", "keys", "values"):
                    return DictItems(o.a[0], name)
                if name == "get":
                    if isinstance(args[0], PC):
                        if args[0].v in s.items:
                            return s.items[args[0].v]
                        if s.gen is None:
                            return args[1] if len(args) > 1 else PC(None)
                    if s.gen is not None:
                        return s.gen[1]
                    return Opq(("dictget", o.a[0], repr(args[0])))
                if name == "copy":
                    return self.alloc(st, s)
                if name in ("update", "pop", "setdefault", "clear"):
                    self.ev("listwrite", node, name, cid=o.a[0])
                    nm = self.cellname.get(o.a[0])
                    if nm:
                        self.ev("globalwrite", node, nm)
                    if name == "pop" and args and isinstance(args[0], PC) and s.gen is None:
                        r = s.items.get(args[0].v, args[1] if len(args) > 1 else Opq(("dictm", name, o.a[0])))
                        st.heap[o.a[0]] = DictS({a: b for a, b in s.items.items() if a != args[0].v}, s.gen)
                        return r
                    if name == "update" and s.gen is None:
                        src = st.heap.get(args[0].a[0]) if args and isinstance(args[0], Ref) else None
                        if (not args or isinstance(src, DictS) and src.gen is None) and None not in kw:
                            st.heap[o.a[0]] = DictS({**s.items, **(src.items if src else {}), **{k: self.box(v, st) for k, v in kw.items()}}, s.gen)
                            return PC(None)
                    return Opq(("dictm", name, o.a[0]))
            if isinstance(s, Num):
                return self.arr_method(o, name, args, kw, st, node)
            return Opq(("objm", self.key(o, st), name, tuple(repr(self.key(a, st)) for a in args)))
        if isinstance(o, (Num, View, Flat)):
            return self.arr_method(o, name, args, kw, st, node)
        if isinstance(o, PC):
            try:
                if all(isinstance(a, PC) for a in args) and not kw:
                    return PC(getattr(o.v, name)(*[a.v for a in args]))
            except Exception:
                pass
            return Opq(("pcm", repr(o.v), name, tuple(repr(self.key(a, st)) for a in args)))
        if isinstance(o, Opq) and o.a[0][0] == "constdict":
            if name == "get" and isinstance(args[0], PC):
                for k, v in o.a[0][1]:
                    if k == args[0].v:
                        return v
                return args[1] if len(args) > 1 else PC(None)
        return Opq(("method", repr(o)[:200], name, tuple(repr(self.key(a, st))[:300] for a in args)))

    def add_variable(self, cat, args, kw, st, node):
        names = ["name", "units", "long_name", "standard_name", "dtype", "dim3", "retain"]
        d = dict(zip(names, args))
        d.update(kw)
        nm = d.get("name")
        if not (isinstance(nm, PC) and isinstance(nm.v, str)):
            self.und(node, "dynamic field name in add_variable")
            return PC(None)
        if self.state_ready:
            self.ev("latefield", node, f"{cat}.{nm.v} is registered after the fields have been allocated", field=f"{cat}.{nm.v}")
        us = d.get("units")
        dim3 = d.get("dim3")
        lay = None
        if dim3 is not None and not (isinstance(dim3, PC) and dim3.v == 0):
            lay = self.num(dim3, st).t
        ret = d.get("retain")
        dt = d.get("dtype")
        dts = "float"
        if isinstance(dt, Ext):
            dts = dt.a[0].split(".")[-1]
        f = self.stack[-1]
        self.fields[(cat, nm.v)] = dict(
            units=us.v if isinstance(us, PC) else None,
            retain=(isinstance(ret, PC) and bool(ret.v)),
            dtype=dts, lay=lay, where=f"{f.mod.rel}:{node.lineno}", func=f.qual)
        return PC(None)

    def allocate_fields(self, st):
        self.state_ready = True
        for (cat, nm), m in self.fields.items():
            u = un.parse(m["units"]) if m["units"] else None
            init = NANT if m["dtype"].startswith("float") else p.ZERO
            out = "nan" if m["dtype"].startswith("float") else "zero"
            t = Lay(init) if m["lay"] is not None else init
            r = self.alloc(st, Num(t, u, "G", m["lay"], out), f"{cat}.{nm}")
            self.fieldcell[(cat, nm)] = r.a[0]
            self.alloc_init[(cat, nm)] = t

    def symbolic_fields(self, st, stale=True):
        """generic pre-step state: every field an unknown value"""
        for (cat, nm), c in self.fieldcell.items():
            m = self.fields[(cat, nm)]
            kind = "stale" if stale and not m["retain"] else "fld"
            name = f"{cat}.{nm}" if kind == "fld" else f"old:{cat}.{nm}"
            old = st.heap[c]
            t = Lay(p.fn("L", name, 0, KAPPA)) if m["lay"] is not None else p.sym(name)
            if m["dtype"].startswith("bool") and m["lay"] is None:
                t = p.ind("fld", name)
            st.heap[c] = Num(t, un.parse(m["units"]) if m["units"] else None, "G", m["lay"],
                             "any" if getattr(old, "out", None) == "any" else "nan" if m["dtype"].startswith("float") else "zero")

    # ------------------------------------------------------------ ndarray methods
    def arr_method(self, o, name, args, kw, st, node):
        n = self.num(o, st)
        if name in ("view", "squeeze") and self.is_arr(o, st):
            return o
        if name == "astype" and self.is_arr(o, st) and isinstance(kw.get("copy"), PC) and not kw["copy"].v and args and \
                (isinstance(args[0], Ext) and "float" in args[0].a[0] or isinstance(args[0], PC) and "float" in str(args[0].v)) and not (isinstance(n.t, p.Poly) and p.is_boolean(n.t)):
            return o          # no copy for a floating-point array
        if name in ("copy", "astype", "squeeze", "view", "item"):
            r = Num(n.t, n.u, n.sp, n.lay, n.out, self.srcof(o, st) if name == "copy" else n.src)
            if name == "astype" and args and isinstance(args[0], Ext) and args[0].a[0].endswith("int") and not (isinstance(n.t, p.Poly) and p.is_boolean(n.t)):
                r = r.rep(t=lift(lambda x: p.fn("int", x), n.t))
            if name == "astype" and args and isinstance(args[0], Ext) and args[0].a[0].endswith("bool"):
                r = r.rep(t=lift(p.ind_bool, n.t), u=un.ONE)
            return r
        if name == "fill":
            x = args[0]
            self.setitem(o, [SliceV(None, None, None)], x, st, node)
            return PC(None)
        if name == "clip":
            lo = args[0] if len(args) > 0 else kw.get("min", kw.get("a_min"))
            hi = args[1] if len(args) > 1 else kw.get("max", kw.get("a_max"))
            r = n
            if lo is not None and not (isinstance(lo, PC) and lo.v is None):
                r = self.binop("max", r, self.num(lo, st), st, node)
            if hi is not None and not (isinstance(hi, PC) and hi.v is None):
                r = self.binop("min", r, self.num(hi, st), st, node)
            r = r.rep(out=n.out)
            if "out" in kw:
                self.setitem(kw["out"], [SliceV(None, None, None)], r, st, node)
            return r
        if name in ("sum", "any", "all", "min", "max", "mean", "std", "nansum", "nanmin", "nanmax", "nanmean", "prod", "argmax", "argmin", "cumsum", "median", "nanmedian", "ptp"):
            ax = kw.get("axis", args[0] if args else None)
            return self.reduce(o, n, name, ax, st, node)
        if name in ("ravel", "flatten", "reshape", "transpose"):
            if n.sp == "S" and n.lay is None:
                return n
            return n.rep(sp="?", out="val")
        if name == "tolist":
            return o
        if name == "to_numpy":
            return o
        if name in ("sort", "partition"):
            if self.is_arr(o, st):
                self.setitem(o, [SliceV(None, None, None)], n.rep(t=lift(lambda x: p.fn("sorted", x), n.t)), st, node)
            return PC(None)
        if name in ("put", "itemset", "setfield", "byteswap") and self.is_arr(o, st):
            self.setitem(o, [SliceV(None, None, None)], n.rep(t=lift(lambda x: p.fn("put", x), n.t)), st, node)
            return PC(None)
        return Opq(("arrm", name, n.t if isinstance(n.t, p.Poly) else repr(n.t)[:200], tuple(repr(self.key(a, st))[:200] for a in args)))

    def reduce(self, o, n, name, ax, st, node):
        axv = ax.v if isinstance(ax, PC) else None
        if n.lay is not None and axv == 0:
            lay = n.lay if isinstance(n.lay, p.Poly) else None
            t = n.t if isinstance(n.t, Lay) else Lay(n.t)
            base = name.replace("nan", "")
            if base == "sum":
                out = n.out if not name.startswith("nan") else "zero"
                if out == "false":
                    out = "zero"
                return Num(t.sum(lay), n.u, n.sp, None, out)
            if base in ("any", "all"):
                return Num(p.ind("lay" + base, t.base, *[x for kv in t.ov for x in kv]), un.ONE, n.sp, None, "false" if n.out in ("nan", "false") and base == "any" else "any")
            return Num(p.fn("lay" + base, t.base, *[x for kv in t.ov for x in kv]), n.u, n.sp, None, n.out)
        if n.sp == "S" and n.lay is not None:
            t = n.t if isinstance(n.t, Lay) else Lay(n.t)
            if name == "sum":
                return Num(t.sum(n.lay if isinstance(n.lay, p.Poly) else None), n.u)
            return Num(p.fn("lay" + name, t.base, *[x for kv in t.ov for x in kv]), n.u)
        if name == "any":
            # guard of a masked block: the block is a no-op where the mask is false
            if isinstance(n.t, p.Poly):
                if n.t == p.ZERO:
                    return PC(False)
                return PC(True)
            return PC(True)
        if name == "sum" and isinstance(n.t, p.Poly) and p.is_boolean(n.t):
            m = p.mul(n.sp[1], n.t) if isinstance(n.sp, tuple) else n.t
            return Count(m)
        if n.sp in ("G",) or isinstance(n.sp, tuple):
            self.ev("spatial", node, f"{name}() over pixels", op=name, val=n.t)
        if n.sp == "?":
            return Num(p.fn("red_" + name, n.t if isinstance(n.t, p.Poly) else p.sym(("l", n.t)), p.sym(repr(ax))), n.u if name not in ("any", "all", "argmax", "argmin") else un.ONE, "?" if ax is not None else "S")
        return Num(p.fn("red_" + name, n.t if isinstance(n.t, p.Poly) else p.sym(("l", n.t)), n.sp[1] if isinstance(n.sp, tuple) else p.ONE), n.u)

    # ----------------------------------------------------- external functions
    def ext_call(self, name, args, kw, st, node):
        short = name.split(".")[-1]
        if name.startswith("numpy.") or name.startswith("math."):
            r = self.np_call(name[name.index(".") + 1:], args, kw, st, node)
            if r is not None:
                return r
        elif name.startswith("builtins."):
            r = self.builtin(short, args, kw, st, node)
            if r is not None:
                return r
        elif name in ("numba.prange",):
            return self.builtin("range", args, kw, st, node)
        elif name in ("numba.set_num_threads", "numba.get_num_threads"):
            self.ev("threads", node, short)
            return Opq(("numba", short))
        elif name.startswith("logging.") or name.startswith("warnings."):
            return Opq((name,))
        # unknown external: pure by assumption
        self.ev("ext", node, name, args=args, kw=kw)
        return Opq(("ext", name, tuple(repr(self.key(a, st))[:400] for a in args), tuple(sorted((k, repr(self.key(v, st))[:400]) for k, v in kw.items()))))

    def builtin(self, name, args, kw, st, node):
        if name == "len":
            v = args[0]
            if isinstance(v, (FlatIdx, IdxPairs)):
                return Count(v.a[0])
            if isinstance(v, Tup):
                return PC(len(v.a[0]))
            if isinstance(v, PC):
                try:
                    return PC(len(v.v))
                except Exception:
                    return self.opq(node)
            if isinstance(v, Ref):
                s = st.heap.get(v.a[0])
                if isinstance(s, ListS) and s.gen is None:
                    return PC(len(s.items))
                if isinstance(s, DictS) and s.gen is None:
                    return PC(len(s.items))
                if isinstance(s, ListS):
                    return Num(p.sym(("len", v.a[0])), un.ANY)
            if self.is_arr(v, st):
                n = self.num(v, st)
                if n.lay is not None:
                    return Num(n.lay, un.ANY) if isinstance(n.lay, p.Poly) else Num(p.sym("NLAY"), un.ANY)
                if isinstance(n.sp, tuple):
                    return Count(n.sp[1])
            return Opq(("len", repr(self.key(v, st))[:300]))
        if name == "range" or name == "prange":
            a = list(args)
            if len(a) == 1:
                return RangeV(PC(0), a[0], PC(1))
            if len(a) == 2:
                return RangeV(a[0], a[1], PC(1))
            return RangeV(*a[:3])
        if name == "enumerate":
            its = self.loop_items(args[0], st)
            if its is not None:
                return Tup(tuple(Tup((PC(i), x)) for i, x in enumerate(its)))
            g = self.generic_item(args[0], st)
            if g is not None:
                return self.alloc(st, ListS((), Tup((self.opq(node, "idx"), g))))
            pm = args[0]
            return Opq(("enumerate", repr(self.key(args[0], st))[:200]))
        if name == "reversed":
            its = self.loop_items(args[0], st)
            if its is not None:
                return Tup(tuple(reversed(its)))
            if isinstance(args[0], RangeV):
                return args[0]
        if name in ("zip",):
            its = [self.loop_items(a, st) for a in args]
            if all(i is not None for i in its):
                return Tup(tuple(Tup(tuple(x)) for x in zip(*its)))
            n = min((len(i) for i in its if i is not None), default=None)
            if n is not None and n <= 16:
                # the other iterables are assumed to be at least as long
                cols = []
                for a, i in zip(args, its):
                    if i is not None:
                        cols.append(i[:n])
                    elif isinstance(a, Opq):
                        cols.append([Opq(("item", a.a[0], (repr(PC(k)),))) for k in range(n)])
                    else:
                        break
                else:
                    return Tup(tuple(Tup(tuple(x)) for x in zip(*cols)))
        if name in ("list", "tuple", "sorted", "set"):
            if not args:
                return self.alloc(st, ListS()) if name in ("list", "set") else Tup(())
            its = self.loop_items(args[0], st)
            if its is not None:
                if name == "sorted" and all(isinstance(x, PC) for x in its):
                    its = sorted(its, key=lambda x: x.v)
                return self.alloc(st, ListS(its)) if name in ("list", "sorted") else Tup(tuple(its))
            g = self.generic_item(args[0], st)
            if g is not None:
                return self.alloc(st, ListS((), g))
            return args[0]
        if name == "dict":
            if not args:
                return self.alloc(st, DictS({k: self.box(v, st) for k, v in kw.items()}))
            if isinstance(args[0], Ref) and isinstance(st.heap.get(args[0].a[0]), DictS):
                d = st.heap[args[0].a[0]]
                return self.alloc(st, DictS({**d.items, **{k: self.box(v, st) for k, v in kw.items()}}, d.gen))
            return args[0]
        if name in ("min", "max"):
            if len(args) >= 2:
                if all(isinstance(a, PC) for a in args):
                    return PC((min if name == "min" else max)(a.v for a in args))
                r = self.num(args[0], st)
                for a in args[1:]:
                    r = self.binop(name, r, self.num(a, st), st, node)
                return r
            v = args[0]
            its = self.loop_items(v, st)
            if its:
                return self.builtin(name, its, {}, st, node) if len(its) > 1 else its[0]
            if self.is_arr(v, st):
                return self.reduce(v, self.num(v, st), name, None, st, node)
            return Opq((name, repr(self.key(v, st))[:300]))
        if name == "abs":
            return self.np_call("abs", args, kw, st, node)
        if name == "round":
            return self.np_call("round", args[:1], kw, st, node)
        if name in ("int", "float", "bool"):
            v = args[0]
            if isinstance(v, PC):
                try:
                    return PC({"int": int, "float": float, "bool": bool}[name](v.v))
                except Exception:
                    return self.opq(node)
            if name == "float":
                return v
            n = self.num(v, st)
            if name == "bool":
                return n.rep(t=lift(p.ind_bool, n.t), u=un.ONE)
            return n.rep(t=lift(lambda x: p.fn("int", x), n.t))
        if name == "isinstance":
            v, c = args
            if isinstance(v, PC) and isinstance(c, Ext):
                t = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.list": list, "builtins.dict": dict, "builtins.bool": bool}.get(c.a[0])
                if t:
                    return PC(isinstance(v.v, t))
            if isinstance(c, Ext) and c.a[0] in ("builtins.str",) and (isinstance(v, Num) or self.is_arr(v, st)):
                return PC(False)
            return Opq(("isinstance", repr(self.key(v, st))[:300], repr(c)))
        if name == "sum":
            its = self.loop_items(args[0], st)
            if its:
                r = self.num(its[0], st)
                for x in its[1:]:
                    r = self.binop("add", r, self.num(x, st), st, node)
                return r
            if self.is_arr(args[0], st):
                return self.reduce(args[0], self.num(args[0], st), "sum", None, st, node)
        if name in ("any", "all"):
            if self.is_arr(args[0], st):
                return self.reduce(args[0], self.num(args[0], st), name, None, st, node)
        if name == "slice":
            a = list(args)
            if len(a) == 1 and isinstance(a[0], PC) and a[0].v is None:
                return SliceV(None, None, None)
            if len(a) == 1:
                return SliceV(None, a[0], None)
            return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
        if name == "super":
            return SuperV()
        if name == "getattr":
            if isinstance(args[1], PC):
                return self.getattr(args[0], args[1].v, st, node)
            return Opq(("getattr", repr(self.key(args[0], st)), repr(self.key(args[1], st))))
        if name == "setattr":
            if isinstance(args[1], PC):
                self.setattr(args[0], args[1].v, args[2], st, node)
            return PC(None)
        if name == "hasattr":
            return Opq(("hasattr", repr(self.key(args[0], st)), repr(args[1])))
        if name in ("print", "callable", "id", "repr", "str", "type", "map", "filter"):
            if name == "str" and args and isinstance(args[0], PC):
                return PC(str(args[0].v))
            return Opq((name, tuple(repr(self.key(a, st))[:200] for a in args)))
        return None

    def shape_arg(self, v, st):
        """-> (sp, lay) for np.zeros(shape) etc., or None"""
        if isinstance(v, ShapeV):
            return v.a
        if isinstance(v, Count):
            if isinstance(v.a[0], p.Poly):
                return (("P", v.a[0]), None)
            return None
        if isinstance(v, (PC, Num)):
            n = self.num(v, st)
            if n.scalar and isinstance(n.t, p.Poly):
                return ("S", n.t)
        if isinstance(v, Ref):
            s = st.heap.get(v.a[0])
            if isinstance(s, ListS) and s.gen is None:
                v = Tup(s.items)
        if isinstance(v, Tup):
            its = list(v.a[0])
            lay = None
            if len(its) == 3 and isinstance(its[1], Count) and isinstance(its[2], Count):
                lay = self.num(its[0], st).t
                its = its[1:]
            if len(its) == 2 and isinstance(its[1], ShapeV):
                lay = self.num(its[0], st).t
                return (its[1].a[0], lay)
            if len(its) == 2 and all(isinstance(x, Count) for x in its):
                if its[0].a[0] == "Grows" and its[1].a[0] == "Gcols":
                    return ("G", lay)
            if len(its) == 2 and isinstance(its[1], Count) and isinstance(its[1].a[0], p.Poly):
                return (("P", its[1].a[0]), self.num(its[0], st).t)
            if len(its) == 1:
                return self.shape_arg(its[0], st)
        return None

    UFUNC2 = {"minimum", "maximum", "fmin", "fmax", "add", "subtract", "multiply", "divide", "true_divide", "power", "greater", "less", "logical_and", "logical_or", "bitwise_and", "bitwise_or"}
    UFUNC1 = {"negative", "sqrt", "exp", "log", "abs", "absolute", "logical_not", "invert", "isnan", "sin", "cos", "tan"}

    def np_call(self, name, args, kw, st, node):
        """numpy function, including the ways it can write to one of its arguments"""
        short = name.split(".")[-1]
        ALL = [SliceV(None, None, None)]
        if short in ("copyto", "putmask", "place") and len(args) >= 2 and self.is_arr(args[0], st):
            dst = args[0]
            src, cond = (args[1], kw.get("where", args[2] if len(args) > 2 else None)) if short == "copyto" else (args[2] if len(args) > 2 else kw.get("values", kw.get("vals")), args[1])
            if src is None or not (isinstance(src, (Num, PC)) or self.is_arr(src, st)):
                return None
            v = self.num(src, st)
            if cond is not None and not (isinstance(cond, PC) and cond.v is True):
                v = self.where(self.num(cond, st), v, self.num(dst, st), st, node)
            self.setitem(dst, ALL, v, st, node)
            return PC(None)
        n = 2 if short in self.UFUNC2 else 1 if short in self.UFUNC1 else None
        if n is not None and len(args) == n + 1 and "out" not in kw:
            args, kw = args[:n], {**kw, "out": args[n]}
        out = kw.get("out")
        if isinstance(out, Tup) and len(out.a[0]) == 1:
            out = out.a[0][0]
        cond = kw.get("where")
        r = self._np_call(name, args, {k: v for k, v in kw.items() if k != "out" and not (k == "where" and out is not None)}, st, node)
        if short == "nan_to_num" and r is not None and isinstance(kw.get("copy", args[1] if len(args) > 1 else None), PC) and not kw.get("copy", args[1] if len(args) > 1 else None).v and self.is_arr(args[0], st):
            self.setitem(args[0], ALL, r, st, node)
            return args[0]
        if out is not None and not (isinstance(out, PC) and out.v is None) and r is not None and self.is_arr(out, st):
            if cond is not None and not (isinstance(cond, PC) and cond.v is True):
                r = self.where(self.num(cond, st), self.num(r, st), self.num(out, st), st, node)
            self.setitem(out, ALL, r, st, node)
            return out
        return r

    def _np_call(self, name, args, kw, st, node):
        N = lambda v: self.num(v, st)
        short = name.split(".")[-1]
        if short in ("minimum", "maximum", "fmin", "fmax"):
            op = "min" if "min" in short else "max"
            r = self.binop(op, N(args[0]), N(args[1]), st, node)
            if short in ("fmin", "fmax") and r.out == "nan":
                a, b = N(args[0]), N(args[1])
                r = r.rep(out=b.out if a.out == "nan" else a.out)
            return r
        if short in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
            op = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow"}[short]
            return self.binop(op, N(args[0]), N(args[1]), st, node)
        if short == "negative":
            return self.neg(N(args[0]))
        if short in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal"):
            return self.compare({"greater": "gt", "less": "lt", "greater_equal": "ge", "less_equal": "le", "equal": "eq", "not_equal": "ne"}[short], N(args[0]), N(args[1]), st, node)
        if short in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
            return self.binop("and" if "and" in short else "or", N(args[0]), N(args[1]), st, node)
        if short in ("logical_not", "invert"):
            return self.b_not(N(args[0]))
        if name in ("logical_or.reduce", "logical_and.reduce"):
            its = self.loop_items(args[0], st)
            if its is None:
                g = self.generic_item(args[0], st)
                its = [g] if g is not None else None
            if its:
                r = N(its[0])
                for x in its[1:]:
                    r = self.binop("or" if "or" in name else "and", r, N(x), st, node)
                return r
            return None
        if short == "where":
            if len(args) == 1:
                n = N(args[0])
                if isinstance(n.t, p.Poly) and n.sp != "?":
                    b = p.ind_bool(n.t)
                    if isinstance(args[0], Flat) or isinstance(n.sp, tuple):
                        return Tup((FlatIdx(b),))
                    return Tup((Opq(("rows", b)), Opq(("cols", b))))
                return None
            return self.where(N(args[0]), N(args[1]), N(args[2]), st, node)
        if short == "flatnonzero":
            n = N(args[0])
            if isinstance(n.t, p.Poly):
                return FlatIdx(p.ind_bool(n.t))
            return None
        if short == "clip":
            return self.arr_method(args[0], "clip", args[1:], kw, st, node) if self.is_arr(args[0], st) or isinstance(args[0], Num) else self.arr_method(N(args[0]), "clip", args[1:], kw, st, node)
        if short in ("isnan",):
            n = N(args[0])
            return Num(lift(lambda x: p.ONE if x == NANT else p.ZERO, n.t) if not (isinstance(args[0], PC)) else p.ONE, un.ONE, n.sp, n.lay, "any" if n.out == "nan" else "false") if not self.nan_mode else \
                Num(lift(lambda x: p.ind("isnan", x), n.t), un.ONE, n.sp, n.lay, "any" if n.out == "nan" else "false")
        if short == "isfinite":
            n = N(args[0])
            return Num(lift(lambda x: p.ONE, n.t), un.ONE, n.sp, n.lay, "false" if n.out == "nan" else "any") if not self.nan_mode else \
                Num(lift(lambda x: p.b_not(p.ind("isnan", x)), n.t), un.ONE, n.sp, n.lay, "false" if n.out == "nan" else "any")
        if short == "nan_to_num":
            n = N(args[0])
            fill = kw.get("nan", PC(0.0))
            fz = isinstance(fill, PC) and fill.v == 0
            return n.rep(out=("zero" if fz else "any") if n.out == "nan" else n.out)
        if short in ("array", "asarray", "atleast_1d", "atleast_2d", "ascontiguousarray", "copy", "float64", "float32", "squeeze"):
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), ListS):
                s = st.heap[v.a[0]]
                if s.gen is None:
                    if short == "atleast_2d":
                        return self.num(Tup(s.items), st)
                    return self.num(Tup(s.items), st)
                return None
            if isinstance(v, Tup):
                return self.num(v, st)
            if self.is_arr(v, st) or isinstance(v, (Num, PC)):
                n = N(v)
                if short == "atleast_2d" and n.lay is None and n.sp != "G":
                    return n.rep(t=Lay(p.sym("novalue"), [(p.C(0), n.t)]), lay=p.C(1), src=None)
                return n.rep(src=n.src or self.srcof(v, st)) if short != "asarray" else v
            return None
        if short in ("zeros", "ones", "full", "empty"):
            sh = self.shape_arg(args[0] if args else kw.get("shape"), st)
            if sh is None:
                return None
            dt = kw.get("dtype")
            isb = isinstance(dt, Ext) and dt.a[0].endswith("bool")
            if short == "full":
                v = N(args[1] if len(args) > 1 else kw.get("fill_value"))
                t, u, o = v.t, v.u, v.out
                if u is un.ANY:
                    u = None if not (isinstance(v.t, p.Poly) and v.t == NANT) else un.ANY
            elif short == "empty":
                t, u, o = p.sym("uninit"), un.ANY, "any"
            else:
                t, u, o = (p.ZERO, un.ANY, "zero") if short == "zeros" else (p.ONE, un.ANY, "any")
            if isb:
                u = un.ONE
                if short == "zeros":
                    o = "false"
            if o == "val" and sh[0] == "G":
                o = "any"
            return Num(Lay(t) if sh[1] is not None else t, u, sh[0], sh[1], o)
        if short in ("zeros_like", "ones_like", "full_like", "empty_like"):
            n = N(args[0])
            if short == "full_like":
                v = N(args[1])
                t, u, o = v.t, v.u, v.out
            elif short == "empty_like":
                t, u, o = p.sym("uninit"), un.ANY, "any"
            else:
                t, u, o = (p.ZERO, un.ANY, "zero") if short == "zeros_like" else (p.ONE, un.ANY, "any")
            dt = kw.get("dtype")
            if isinstance(dt, Ext) and dt.a[0].endswith("bool"):
                u, o = un.ONE, "false" if short == "zeros_like" else o
            if o == "val" and n.sp == "G":
                o = "any"
            return Num(Lay(t) if n.lay is not None else t, u, n.sp, n.lay, o)
        if short in ("deg2rad", "radians"):
            n = N(args[0])
            if isinstance(n.u, un.Unit) and not n.u.soft and n.u != un.parse("deg"):
                self.ev("unit", node, f"{short} of a value in {n.u}: '{self.srcline(node)}'")
            return Num(lift(lambda x: p.mul(x, p.sym("deg2rad")), n.t), un.ONE, n.sp, n.lay, n.out)
        if short in ("rad2deg", "degrees"):
            n = N(args[0])
            if isinstance(n.u, un.Unit) and not n.u.soft and n.u != un.ONE:
                self.ev("unit", node, f"{short} of a value in {n.u}: '{self.srcline(node)}'")
            return Num(lift(lambda x: p.mul(x, p.inv(p.sym("deg2rad"))), n.t), un.parse("deg"), n.sp, n.lay, n.out)
        if short in ELEM1:
            n = N(args[0])
            m = N(args[1]) if short == "arctan2" and len(args) > 1 else None
            u = None
            if short in ("sqrt",):
                u = un.power(n.u, Fraction(1, 2)) if n.u is not None else None
            elif short in ("abs", "absolute", "fabs", "floor", "ceil", "round", "around", "rint"):
                u = n.u
            elif short in TRIG:
                if isinstance(n.u, un.Unit) and not n.u.soft and n.u != un.ONE:
                    self.ev("unit", node, f"{short} of a value in {n.u}: '{self.srcline(node)}'")
                u = un.ONE
            elif short in ("exp", "log", "log10", "tanh", "sinh", "cosh", "log1p", "expm1"):
                if isinstance(n.u, un.Unit) and not n.u.soft and n.u != un.ONE:
                    self.ev("unit", node, f"{short} of a value in {n.u}: '{self.srcline(node)}'")
                u = un.ONE
            elif short in ATRIG:
                u = un.ONE
            fname = {"absolute": "abs", "fabs": "abs", "around": "round"}.get(short, short)
            if m is not None:
                sp = self.space(n.sp, m.sp, node)
                return Num(lift(lambda x, y: p.fn(fname, x, y), n.t, m.t), u, sp, n.lay, self.out2("add", n, m))
            return Num(lift(lambda x: fold1(fname, x), n.t), u, n.sp, n.lay, n.out)
        if short in ("sum", "any", "all", "min", "max", "mean", "nansum", "nanmin", "nanmax", "nanmean", "median", "nanmedian", "amin", "amax", "std", "nanstd", "count_nonzero", "percentile"):
            short = {"amin": "min", "amax": "max"}.get(short, short)
            v = args[0]
            if self.is_arr(v, st) or isinstance(v, Num):
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                return self.reduce(v, N(v), short, ax, st, node)
            return None
        if short in ("interp",):
            ns = [N(a) for a in args if self.is_arr(a, st) or isinstance(a, (Num, PC))]
            x = ns[0]
            return Num(lift(lambda y: p.fn("interp", y, *[z.t if isinstance(z.t, p.Poly) else p.sym(("l", z.t)) for z in ns[1:]]), x.t), ns[2].u if len(ns) > 2 else None, x.sp, x.lay, x.out)
        if short == "cumsum":
            v = args[0]
            if self.is_arr(v, st):
                n = N(v)
                return n.rep(t=lift(lambda x: p.fn("cumsum", x), n.t))
            return None
        if short == "count_nonzero":
            return None
        return None

    nan_mode = False
    want_facts = False


class _Closure:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]

    def __len__(self):
        return len(self.d)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class _ModFunc:
    def __init__(self, mod, f):
        self.mod = mod
        self.qual = f.qual
        self.name = getattr(f, "name", "?")


def _modfunc(mod, f):
    return _ModFunc(mod, f)


def fold1(name, x):
    if name == "abs" and x.is_const():
        return p.C(abs(x.const()))
    if name == "exp" and x.is_zero():
        return p.ONE
    return p.fn(name, x)


def expand_big(t, limit=6000):
    """expand let-bound (size-limited) sub-polynomials"""
    for _ in range(12):
        if not any(p.get_atom(i).kind == "big" or (p.get_atom(i).kind == "fn" and p.get_atom(i).key[0] == "ite") for i in t.atoms()):
            return t
        old = p.MAX_MONO
        p.MAX_MONO = limit
        try:
            acc = p.ZERO
            for mono, c in t.m.items():
                x = p.C(c) if c != 1 else p.ONE
                for i, e in mono:
                    a = p.get_atom(i)
                    if a.kind == "big":
                        y = a.key[0]
                    elif a.kind == "fn" and a.key[0] == "ite":
                        y = p.add(a.key[3], p.mul(a.key[1], p.sub(a.key[2], a.key[3])))
                    else:
                        y = p.P(a)
                    x = p.mul(x, p.power(y, e) if e != 1 else y)
                acc = p.add(acc, x)
            t = acc
        finally:
            p.MAX_MONO = old
        if len(t.m) > limit // 2:
            return None
    return t
