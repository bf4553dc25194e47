"""P13 results do not depend on thread count, randomness or wall-clock time."""
import ast

from oasa.project import AnalysisBroken
from .common import short

RULES = {
    "parallel-write": "an element written inside a parallel loop is indexed by that iteration's own pixel, so no two iterations write it",
    "parallel-read": "an array written inside a parallel loop is only read at the iteration's own pixel",
    "loop-carried": "no variable carries a value from one parallel iteration to another (floating-point reductions depend on the thread count)",
    "escaping-scalar": "no variable assigned inside a parallel loop is used after the loop",
    "nondeterminism": "random numbers, clocks, process state, thread counts and directory order reach only log messages and the thread setting",
    "unseeded": "library routines that draw random numbers are given a fixed seed",
    "set-order": "no order-sensitive computation iterates over a set",
}
SAFE_ATTR = {"shape", "ndim", "size", "dtype"}
REDUCE = {"max", "min"}
SOURCES = ("random.", "numpy.random.", "time.", "uuid.", "secrets.", "os.getpid", "os.environ", "os.getenv", "os.cpu_count", "os.urandom",
           "os.listdir", "os.scandir", "glob.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today",
           "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow", "numba.get_num_threads", "numba.get_thread_id", "numba.np.ufunc.parallel",
           "multiprocessing.", "threading.", "socket.", "platform.", "psutil.", "getpass.", "tempfile.")
BUILTIN_SOURCES = {"hash", "id"}
METHOD_SOURCES = {"glob", "rglob", "iterdir"}
LOG = {"debug", "info", "warning", "error", "critical", "exception", "log", "trace", "success"}


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr = ctx.project
    loops = stores = 0
    for m in pr.modules.values():
        for f in every(m):
            jit = parallel(f.node, m)
            for lp in [n for n in ast.walk(f.node) if isinstance(n, ast.For) and is_prange(n.iter, m)]:
                if any(lp is not o and contains(o, lp) and is_prange(o.iter, m) for o in ast.walk(f.node) if isinstance(o, ast.For)):
                    continue        # an inner parallel loop runs sequentially
                if jit is None:
                    continue        # plain function: an ordinary loop
                loops += 1
                stores += Loop(ctx, pr, m, f, lp).check()
                ctx.sample(f"{m.rel}:{lp.lineno} {f.node.name}")
    nsrc = sources(ctx, pr)
    nset = sets(ctx, pr)
    nseed = seeds(ctx, pr)
    ctx.cov["stochastic_library_calls"] = nseed
    ctx.cov["parallel_loops_analysed"] = loops
    ctx.cov["array_accesses_in_parallel_loops"] = stores
    ctx.cov["nondeterministic_sources_traced"] = nsrc
    ctx.cov["set_iterations_examined"] = nset
    if not pr.modules:
        raise AnalysisBroken("no module found")


def every(m):
    for f in m.funcs.values():
        yield f
    for c in m.classes.values():
        yield from c.methods.values()


def contains(a, b):
    return any(x is b for x in ast.walk(a))


def dotted(n, m, local=None):
    """fully qualified name of an expression, following the module's imports"""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    imp = {**m.imports, **(local or {})}
    base = imp.get(n.id)
    b = ".".join(x for x in base[1:] if x) if isinstance(base, (tuple, list)) else base
    return ".".join([b or n.id] + parts[::-1])


def is_prange(it, m):
    return isinstance(it, ast.Call) and (dotted(it.func, m) or "").split(".")[-1] == "prange"


def parallel(fn, m):
    for d in fn.decorator_list:
        c = d if isinstance(d, ast.Call) else None
        nm = (dotted(c.func if c else d, m) or "").split(".")[-1]
        if nm in ("njit", "jit", "vectorize", "guvectorize"):
            if c and any(k.arg == "parallel" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in c.keywords):
                return True
    return None


class Loop:
    def __init__(self, ctx, pr, m, f, lp):
        self.ctx, self.pr, self.m, self.f, self.lp = ctx, pr, m, f, lp
        self.v = lp.target.id if isinstance(lp.target, ast.Name) else None
        self.params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]

    def viol(self, rule, node, construct, msg):
        self.ctx.violate(rule, self.m.rel, node.lineno, self.f.node.name, construct, msg)

    def check(self):
        lp = self.lp
        if self.v is None:
            return 0
        import copy
        orig = lp
        lp = copy.deepcopy(lp)
        lp.body = Inliner(self.pr, self.m).block(lp.body, self.m)
        self.body = lp.body
        body = ast.Module(lp.body, [])
        parent = {c: p for p in ast.walk(body) for c in ast.iter_child_nodes(p)}
        # names that identify the iteration
        keys = [frozenset([self.v])]
        assigned = {}
        for s in ast.walk(body):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            assigned.setdefault(x.id, []).append(s)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)) and isinstance(s.target, ast.Name):
                assigned.setdefault(s.target.id, []).append(s)
            elif isinstance(s, ast.For):
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(s)
        single = {}
        for nm, ss in assigned.items():
            if len(ss) == 1 and isinstance(ss[0], ast.Assign):
                single[nm] = ss[0]
        # canonical names of the iteration's coordinates: rows[v][0] and rows[v, 0] are "rows#0", ii[v] with ii, jj = np.nonzero(..) is "coords#ii"
        self.canon, self.rows = {}, {}
        for _ in range(4):
            for nm, s in single.items():
                t, x = s.targets[0], s.value
                if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                    r = self.rowname(x)
                    if r:
                        for d, e in enumerate(t.elts):
                            self.canon[e.id] = f"{r}#{d}"
                    elif isinstance(x, ast.Tuple) and len(x.elts) == len(t.elts):
                        for e, y in zip(t.elts, x.elts):
                            c = self.component(y)
                            if c:
                                self.canon[e.id] = c
                elif isinstance(t, ast.Name):
                    c = self.component(x)
                    r = self.rowname(x)
                    if c:
                        self.canon[nm] = c
                    elif r:
                        self.rows[nm] = r
        for c in set(self.canon.values()) | {self.component(x) for x in ast.walk(body) if isinstance(x, ast.Subscript)} - {None}:
            if "#" in c:
                keys.append(frozenset([c]))
        fam = {}
        for k in keys[1:]:
            c = next(iter(k))
            fam.setdefault(c.split("#")[0], set()).add(c)
        keys = keys[:1] + [frozenset(x) for x in fam.values() if len(x) >= 2]
        private = set()
        for _ in range(4):
            private |= {n for n, ss in assigned.items() if all(isinstance(s, ast.Assign) and self.fresh(s, private) for s in ss)}
        views = {}
        for nm, ss in assigned.items():
            vs = [s for s in ss if not (isinstance(s, ast.Assign) and self.fresh(s, private))]
            if vs and all(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name)
                          and any(isinstance(z, ast.Slice) for z in ast.walk(s.value.slice)) for s in vs) and len({ast.dump(s.value) for s in vs}) == 1:
                views[nm] = vs[0].value
        self.keys = keys
        acc = {}      # array -> [(kind, node, keyed?)]

        def note(name, kind, node, keyed, val=None):
            acc.setdefault(self.group.get(name, name), []).append((kind, node, keyed, val))
        self.group = self.aliases()
        for nm, s in single.items():
            if isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and nm not in private and s.value.id not in assigned:
                self.group[nm] = self.group.get(s.value.id, s.value.id)
        for n in ast.walk(body):
            if not (isinstance(n, ast.Name) and n.id not in (self.v,)):
                continue
            par = parent.get(n)
            if isinstance(par, ast.Attribute) and par.attr in SAFE_ATTR:
                continue
            if isinstance(par, ast.Call) and n in par.args and isinstance(par.func, ast.Name) and par.func.id == "len":
                continue
            if isinstance(par, ast.Subscript) and par.value is n:
                if n.id in private:
                    continue
                top, keyed = par, self.keyed(par)
                if n.id in views:
                    keyed = self.keyed(views[n.id])
                    note(views[n.id].value.id, "w" if isinstance(par.ctx, ast.Store) else "r", par, keyed)
                    continue
                while isinstance(parent.get(top), ast.Subscript) and parent[top].value is top:
                    top = parent[top]
                    keyed = keyed or self.keyed(top)
                st = parent.get(top)
                if isinstance(top.ctx, ast.Store):
                    val = st.value if isinstance(st, ast.Assign) and len(st.targets) == 1 and st.targets[0] is top else None
                    note(n.id, "w", top, keyed, val)
                    if isinstance(st, ast.AugAssign):
                        note(n.id, "r", top, keyed)
                else:
                    note(n.id, "r", top, keyed)
                    if isinstance(st, ast.Call) and (top in st.args or any(k.value is top for k in st.keywords)) and any(isinstance(z, ast.Slice) for z in ast.walk(top.slice)):
                        if self.callee_writes(st, top):
                            note(n.id, "w", top, keyed)
            elif n.id in private or n.id in views:
                continue
            elif isinstance(n.ctx, ast.Load) and n.id not in assigned:
                note(n.id, "R", n, False)
                if isinstance(par, ast.Call) and self.callee_writes(par, n):
                    note(n.id, "w", n, False)
                if isinstance(par, ast.Attribute) and isinstance(parent.get(par), ast.Call) and par.attr in ("fill", "sort", "put", "resize", "itemset"):
                    note(n.id, "w", n, False)
        total = 0
        for nm, xs in sorted(acc.items()):
            total += len(xs)
            w = [x for x in xs if x[0] == "w"]
            if not w:
                continue
            reads = [x for x in xs if x[0] in "rR"]
            bad = [x for x in w if not x[2]]
            if bad:
                consts = {ast.dump(x[3]) if isinstance(x[3], ast.Constant) else None for x in w}
                if len(consts) == 1 and None not in consts and not reads:
                    pass        # every iteration stores the same constant and none looks at the array
                else:
                    n = bad[0][1]
                    self.viol("parallel-write", n, nm, f"'{ast.unparse(n)}' is written in the parallel loop without this iteration's own index: iterations can write the same element")
                    continue
            if len({x[2] for x in w if x[2]}) > 1:
                n = w[-1][1]
                self.viol("parallel-write", n, nm, f"'{nm}' is written at different offsets ({', '.join(sorted({ast.unparse(x[1]) for x in w}))}) in one parallel loop")
                continue
            k0 = next((x[2] for x in w if x[2]), None)
            for x in reads:
                if x[0] == "R" or x[2] != k0:
                    if k0 is None:
                        continue
                    self.viol("parallel-read", x[1], nm, f"'{ast.unparse(x[1])}' reads elements of '{nm}' that other iterations of the parallel loop write")
                    break
        self.scalars(assigned, private, views, {n for n, xs in acc.items()})
        return total

    def rowname(self, x):
        """name of the table whose row this iteration uses"""
        if isinstance(x, ast.Name):
            return self.rows.get(x.id)
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
            ix = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
            if self.component(ix[0]) == self.v and (len(ix) == 1 or (len(ix) == 2 and isinstance(ix[1], ast.Slice) and ix[1].lower is None and ix[1].upper is None)) \
                    and self.coords(x.value.id) is None:
                return x.value.id
        return None

    def component(self, x):
        """canonical name of an index expression that is the loop variable or one coordinate of this iteration's row"""
        if isinstance(x, ast.Name):
            return x.id if x.id == self.v else self.canon.get(x.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "int" and len(x.args) == 1:
            return self.component(x.args[0])
        if isinstance(x, ast.Subscript):
            ix = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
            if len(ix) == 1 and isinstance(ix[0], ast.Constant):
                r = self.rowname(x.value)
                return f"{r}#{ix[0].value}" if r else None
            if isinstance(x.value, ast.Name) and self.component(ix[0]) == self.v:
                if len(ix) == 2 and isinstance(ix[1], ast.Constant):
                    return f"{x.value.id}#{ix[1].value}"
                g = self.coords(x.value.id) if len(ix) == 1 else None
                if g:
                    return f"{g[0]}{g[1]}#{x.value.id}"
        return None

    def canonical(self, x):
        """the index expression with coordinates replaced by their canonical names"""
        me = self

        class R(ast.NodeTransformer):
            def generic_visit(self, n):
                c = me.component(n) if isinstance(n, (ast.Name, ast.Subscript, ast.Call)) else None
                if c:
                    return ast.copy_location(ast.Name(c, ast.Load()), n)
                return super().generic_visit(n)
        import copy
        return R().visit(copy.deepcopy(x))

    def coords(self, name):
        """group of names unpacked together from np.nonzero/where"""
        for s in ast.walk(self.f.node):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) \
                    and (dotted(s.value.func, self.m) or "").split(".")[-1] in ("nonzero", "where"):
                nms = [e.id for e in s.targets[0].elts if isinstance(e, ast.Name)]
                if name in nms:
                    return ("coords", s.lineno)
        return None

    def keyed(self, sub):
        """the dimensions of this index that identify the iteration, or None"""
        ix = sub.slice.elts if isinstance(sub.slice, ast.Tuple) else [sub.slice]
        pos = {}
        for d, x in enumerate(ix):
            x = self.canonical(x)
            names = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
            for k in self.keys:
                if names & k:
                    pos.setdefault(k, {})[len(ix) - d] = x
        for k, p in pos.items():
            if all(any((isinstance(v, ast.Name) and v.id == nm) or shifted(v, nm) for v in p.values()) for nm in k):
                return (tuple(sorted(k)), tuple(sorted((d, ast.unparse(v)) for d, v in p.items())))
        return None

    def fresh(self, s, private=()):
        """the assigned value is an object of this iteration's own"""
        v = s.value
        if isinstance(v, ast.Name) or isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name):
            return (v.id if isinstance(v, ast.Name) else v.value.id) in private
        if isinstance(v, ast.IfExp):
            return False
        if isinstance(v, ast.Call):
            nm = (dotted(v.func, self.m) or "").split(".")[-1]
            if nm in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "array", "copy", "arange", "linspace"):
                return True
            return nm not in ("asarray", "ravel", "reshape", "atleast_1d")
        return isinstance(v, (ast.BinOp, ast.Constant, ast.UnaryOp, ast.Compare, ast.List))

    def aliases(self):
        """parameters that a call site binds to the same array"""
        g = {}
        for m in self.pr.modules.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Call) and (dotted(c.func, m) or "").split(".")[-1] == self.f.node.name:
                    b = {}
                    for p, a in list(zip(self.params, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg]:
                        if isinstance(a, (ast.Attribute, ast.Name)):
                            b.setdefault(ast.dump(a), []).append(p)
                    for ps in b.values():
                        for p in ps[1:]:
                            g[p] = g.get(ps[0], ps[0])
        return g

    def callee_writes(self, call, arg):
        nm = (dotted(call.func, self.m) or "").split(".")
        for m in self.pr.modules.values():
            fn = m.funcs.get(nm[-1])
            if fn is None or (len(nm) > 1 and m.name.split(".")[-1] != nm[-2] and m is not self.m and nm[-2] not in m.name):
                continue
            ps = [a.arg for a in fn.node.args.args]
            p = None
            for q, a in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords]:
                if a is arg:
                    p = q
            if p is None:
                return False
            re = any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets) for s in ast.walk(fn.node))
            return not re and any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == p for n in ast.walk(fn.node))
        return False

    # --------------------------------------------------------------- scalars
    def scalars(self, assigned, private, views, arrays):
        before = set(self.params)
        for s in self.f.node.body:
            if s is self.lp:
                break
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    before.add(n.id)
        self.reported = set()
        self.definite(self.body, {self.v}, set(assigned), before)
        after = False
        for s in self.f.node.body:
            if after:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        assigned.pop(n.id, None)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in assigned and n.id not in self.reported and \
                            not all(self.exact(x, n.id) for x in assigned[n.id]):
                        self.reported.add(n.id)
                        self.viol("escaping-scalar", n, n.id, f"'{n.id}' is assigned in the parallel loop and used after it: which iteration comes last depends on the threads")
            if contains(s, self.lp):
                after = True

    def exact(self, s, nm):
        """updates whose result does not depend on the order"""
        if isinstance(s, ast.AugAssign):
            return isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and isinstance(s.op, (ast.Add, ast.Sub)) \
                or isinstance(s.op, (ast.BitOr, ast.BitAnd))
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in REDUCE:
            return any(isinstance(a, ast.Name) and a.id == nm for a in s.value.args)
        return False

    def use(self, node, have, inloop, before, stmt=None):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in inloop and n.id not in have and n.id in before and n.id not in self.reported:
                if stmt is not None and self.exact(stmt, n.id):
                    continue
                self.reported.add(n.id)
                self.viol("loop-carried", n, n.id, f"'{n.id}' is read in the parallel loop before this iteration has assigned it: its value comes from outside or from another iteration")

    def definite(self, body, have, inloop, before):
        """-> names definitely assigned after the body (None when it never completes)"""
        have = set(have)
        for s in body:
            if isinstance(s, ast.Assign):
                self.use(s.value, have, inloop, before, s)
                for t in s.targets:
                    if isinstance(t, ast.Name) and self.exact(s, t.id) and t.id not in have:
                        continue
                    if not isinstance(t, (ast.Name, ast.Tuple)):
                        self.use(t, have, inloop, before)
                    have |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(s, ast.AugAssign):
                self.use(s.value, have, inloop, before)
                if isinstance(s.target, ast.Name):
                    if s.target.id not in have and s.target.id in before and not self.exact(s, s.target.id) and s.target.id not in self.reported:
                        self.reported.add(s.target.id)
                        self.viol("loop-carried", s, s.target.id, f"'{s.target.id}' accumulates over the iterations of the parallel loop: the order of the floating-point sum depends on the thread count")
                else:
                    self.use(s.target, have, inloop, before)
            elif isinstance(s, ast.If):
                self.use(s.test, have, inloop, before)
                a = self.definite(s.body, have, inloop, before)
                b = self.definite(s.orelse, have, inloop, before)
                if a is None and b is None:
                    return None
                have = b if a is None else a if b is None else a & b
            elif isinstance(s, ast.For):
                self.use(s.iter, have, inloop, before)
                h = have | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                self.definite(s.body, h, inloop, before)
            elif isinstance(s, ast.While):
                self.use(s.test, have, inloop, before)
                r = self.definite(s.body, have, inloop, before)
                if isinstance(s.test, ast.Constant) and s.test.value and r is not None:
                    have |= set()
            elif isinstance(s, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
                return None
            elif isinstance(s, ast.With):
                r = self.definite(s.body, have, inloop, before)
                if r is None:
                    return None
                have = r
            else:
                self.use(s, have, inloop, before)
        return have


def shifted(t, nm):
    """index expressions such as i + 1 that still differ between iterations"""
    return isinstance(t, ast.BinOp) and isinstance(t.op, (ast.Add, ast.Sub)) and isinstance(t.left, ast.Name) and t.left.id == nm and isinstance(t.right, ast.Constant)


# ------------------------------------------------------------------ inlining of package functions
class Inliner:
    """replaces calls of package functions inside a loop body by the statements of the callee"""

    def __init__(self, pr, m):
        self.pr, self.m, self.k = pr, m, 0

    def callee(self, call, m):
        d = dotted(call.func, m)
        if not d:
            return None
        parts = d.split(".")
        if len(parts) == 1:
            return (m, m.funcs[d]) if d in m.funcs else None
        for x in self.pr.modules.values():
            if x.name == ".".join(parts[:-1]) and parts[-1] in x.funcs:
                return x, x.funcs[parts[-1]]
        return None

    def block(self, body, m, depth=0):
        out = []
        for s in body:
            pre = []
            if depth < 5:
                heads = [s.test] if isinstance(s, (ast.If, ast.While)) else [s.iter] if isinstance(s, ast.For) else \
                    [] if isinstance(s, (ast.With, ast.Try)) else [s]
                for h in heads:
                    me = self

                    class R(ast.NodeTransformer):
                        def visit_Call(self, c):
                            self.generic_visit(c)
                            got = me.callee(c, m)
                            if got is None:
                                return c
                            r = me.expand(c, got, depth)
                            if r is None:
                                return c
                            pre.extend(r[0])
                            return ast.copy_location(ast.Name(r[1], ast.Load()), c)
                    h2 = R().visit(h)
                    if isinstance(s, (ast.If, ast.While)):
                        s.test = h2
                    elif isinstance(s, ast.For):
                        s.iter = h2
                    else:
                        s = h2
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, fld, None), list) and not isinstance(s, (ast.FunctionDef, ast.Lambda)):
                    setattr(s, fld, self.block(getattr(s, fld), m, depth))
            out += pre + [s]
        return out

    def expand(self, call, got, depth):
        import copy
        m, f = got
        a = f.node.args
        if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        ps = [x.arg for x in a.posonlyargs + a.args]
        bind = dict(zip(ps, call.args))
        bind.update({k.arg: k.value for k in call.keywords})
        for q, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            bind.setdefault(q, d)
        for q, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                bind.setdefault(q.arg, d)
        self.k += 1
        pre = f"_in{self.k}_"
        stored = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        sub, head = {}, []
        for q, x in bind.items():
            if isinstance(x, (ast.Name, ast.Constant)) and q not in stored:
                sub[q] = x
            else:
                sub[q] = ast.Name(pre + q, ast.Load())
                head.append(ast.copy_location(ast.Assign([ast.Name(pre + q, ast.Store())], x), call))
        res = pre + "result"
        line = call.lineno

        class S(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in sub:
                    r = sub[n.id]
                    return ast.copy_location(ast.Constant(r.value) if isinstance(r, ast.Constant) else ast.Name(r.id, n.ctx), n)
                if n.id in stored:
                    return ast.copy_location(ast.Name(pre + n.id, n.ctx), n)
                return n

            def visit_Return(self, n):
                self.generic_visit(n)
                return ast.copy_location(ast.Assign([ast.Name(res, ast.Store())], n.value or ast.Constant(None)), n)
        body = [S().visit(copy.deepcopy(x)) for x in f.node.body]
        body = [x for x in body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        body = self.block(body, m, depth + 1)
        head = [ast.copy_location(ast.Assign([ast.Name(res, ast.Store())], ast.Constant(None)), call)] + head if not any(
            isinstance(n, ast.Return) for n in ast.walk(f.node)) else head
        out = head + body
        for x in out:
            ast.fix_missing_locations(x)
            for n in ast.walk(x):
                if hasattr(n, "lineno"):
                    n.lineno, n.end_lineno = line, line
        return out, res


# ------------------------------------------------------------------ nondeterministic sources
def local_imports(fn):
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def is_source(n, m, loc):
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id in BUILTIN_SOURCES and n.func.id not in m.funcs:
            return n.func.id
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHOD_SOURCES:
            return "." + n.func.attr
    if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
        if isinstance(n, ast.Name) and n.id not in m.imports and n.id not in loc:
            return None
        d = dotted(n, m, loc)
        if d and any(d == s.rstrip(".") or d.startswith(s) if s.endswith(".") else d == s or d.startswith(s + ".") for s in SOURCES):
            return d
    return None


def logging_call(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LOG and isinstance(n.func.value, (ast.Name, ast.Attribute)) \
        and "log" in ast.unparse(n.func.value).lower()


def sources(ctx, pr):
    """every use of a nondeterministic source must end in a log message, the thread setting, or a sorted() listing"""
    n = 0
    attrs = {}
    work = []
    for m in pr.modules.values():
        for f in every(m):
            work.append((m, f))
    # attributes that hold such values
    for rnd in range(3):
        found = 0
        for m, f in work:
            t = Taint(ctx, pr, m, f, attrs)
            t.scan()
            found += len(t.new)
            for a in t.new:
                attrs[a] = (m, f)
        if not found:
            break
    for m, f in work:
        t = Taint(ctx, pr, m, f, attrs)
        t.scan()
        n += t.nsrc
        for node, src, how in t.bad:
            ctx.violate("nondeterminism", m.rel, node.lineno, short(f.qual), f"{src} -> {how}", f"{src} influences {how}")
    for m in pr.modules.values():      # module level
        for s in m.tree.body:
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                continue
            for x in ast.walk(s):
                d = is_source(x, m, {})
                if d and not m.name.endswith(("_version",)):
                    n += 1
                    ctx.violate("nondeterminism", m.rel, x.lineno, "<module>", d, f"{d} is evaluated at import")
    return n


class Taint:
    def __init__(self, ctx, pr, m, f, attrs):
        self.ctx, self.pr, self.m, self.f, self.attrs = ctx, pr, m, f, attrs
        self.loc = local_imports(f.node)
        self.names = {}
        self.new, self.bad, self.nsrc = set(), [], 0

    def src(self, e):
        """source an expression depends on, ignoring what sorted() hides"""
        if e is None:
            return None
        if isinstance(e, ast.Call):
            fn = (dotted(e.func, self.m, self.loc) or "")
            if fn in ("sorted", "builtins.sorted", "len", "set", "any", "all") and e.args:
                inner = self.src(e.args[0])
                return None if inner and inner.split(".")[-1] in ("glob", "rglob", "iterdir", "listdir", "scandir") else inner
        d = is_source(e, self.m, self.loc)
        if d:
            return d
        if isinstance(e, ast.Name) and e.id in self.names:
            return self.names[e.id]
        if isinstance(e, ast.Attribute) and e.attr in self.attrs and isinstance(e.value, ast.Name) and e.value.id in ("self", "model"):
            return "." + e.attr
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension)):
                r = self.src(c)
                if r:
                    return r
        return None

    def scan(self):
        for n in ast.walk(self.f.node):
            if is_source(n, self.m, self.loc):
                self.nsrc += 1
        for _ in range(2):
            self.bad.clear()
            self.block(self.f.node.body)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            d = self.src(s.value)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if d:
                for t in ts:
                    self.store(t, d, s)
            else:
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Subscript):
                            q = self.src(x.slice)
                            if q:
                                self.bad.append((s, q, ast.unparse(t)))
        elif isinstance(s, ast.Expr):
            self.call(s.value)
        elif isinstance(s, ast.Return):
            d = self.src(s.value)
            if d:
                self.bad.append((s, d, f"the result of {self.f.node.name}()"))
        elif isinstance(s, (ast.If, ast.While)):
            d = self.src(s.test)
            if d:
                for x in s.body + s.orelse:
                    self.guarded(x, d)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.For):
            d = self.src(s.iter)
            if d:
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name):
                        self.names[x.id] = d
                if any(isinstance(x, (ast.Assign, ast.AugAssign, ast.Call)) and not logging_call(x) for b in s.body for x in ast.walk(b)):
                    self.bad.append((s, d, "a loop"))
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            self.block(s.body)
        elif isinstance(s, ast.Raise):
            pass

    def store(self, t, d, s):
        if isinstance(t, ast.Name):
            self.names[t.id] = d
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, d, s)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            if t.attr not in self.attrs:
                self.new.add(t.attr)
        else:
            self.bad.append((s, d, ast.unparse(t)))

    def sink(self, c):
        if logging_call(c):
            return True
        nm = (dotted(c.func, self.m, self.loc) or "")
        return nm.split(".")[-1] in ("set_num_threads", "print", "warn") or nm.startswith("warnings.")

    def call(self, e):
        if isinstance(e, ast.Call) and not self.sink(e):
            for a in list(e.args) + [k.value for k in e.keywords]:
                d = self.src(a)
                if d:
                    self.bad.append((e, d, f"the call {ast.unparse(e.func)}()"))
                    return
            if isinstance(e.func, ast.Attribute):
                d = self.src(e.func.value)
                if d and not is_source(e.func, self.m, self.loc):
                    self.bad.append((e, d, f"the call {ast.unparse(e.func)}()"))

    def guarded(self, s, d):
        """statements executed depending on a nondeterministic value"""
        if isinstance(s, (ast.Pass, ast.Raise, ast.Return)) and getattr(s, "value", None) is None:
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            if self.sink(s.value) or self.harmless(s.value):
                return
        if isinstance(s, (ast.If,)):
            for x in s.body + s.orelse:
                self.guarded(x, d)
            return
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.store(t, d, s)
            return
        self.bad.append((s, d, ast.unparse(s).splitlines()[0][:60]))

    def harmless(self, c):
        """a call that only configures logging"""
        nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        for m, f in ((m, f) for m in self.pr.modules.values() for f in every(m)):
            if f.node.name == nm:
                return not any(isinstance(x, ast.Attribute) and x.attr in ("state", "meteo", "grid") for x in ast.walk(f.node))
        return "log" in ast.unparse(c.func).lower()


# ------------------------------------------------------------------ stochastic library routines
STOCHASTIC = {"scipy.optimize.differential_evolution", "scipy.optimize.dual_annealing", "scipy.optimize.basinhopping", "scipy.optimize.shgo"}
STOCH_OBJ = {"pwlf.PiecewiseLinFit": ("fit", "fitfast", "fit_guess")}
SEED_KW = ("seed", "rng", "random_state")


def seeds(ctx, pr):
    n = 0
    for m in pr.modules.values():
        for f in every(m):
            loc = local_imports(f.node)
            objs = {}       # local name -> (class, seeded at construction)
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                    d = dotted(s.value.func, m, loc)
                    if d in STOCH_OBJ:
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                objs[t.id] = (d, seeded(s.value, f, m))
            for c in ast.walk(f.node):
                if not isinstance(c, ast.Call):
                    continue
                d = dotted(c.func, m, loc)
                if d in STOCHASTIC:
                    n += 1
                    ok = seeded(c, f, m)
                elif isinstance(c.func, ast.Attribute):
                    v = c.func.value
                    if isinstance(v, ast.Name) and v.id in objs:
                        cls, ok = objs[v.id]
                    elif isinstance(v, ast.Call) and dotted(v.func, m, loc) in STOCH_OBJ:
                        cls, ok = dotted(v.func, m, loc), seeded(v, f, m)
                    else:
                        continue
                    if c.func.attr not in STOCH_OBJ[cls]:
                        continue
                    n += 1
                    ok = ok or (c.func.attr == "fit" and seeded(c, f, m))
                else:
                    continue
                if not ok:
                    ctx.violate("unseeded", m.rel, c.lineno, short(f.qual), ast.unparse(c.func), f"{ast.unparse(c.func)}() draws random numbers but is not given a fixed seed")
    return n


def seeded(c, f, m):
    for k in c.keywords:
        if k.arg in SEED_KW:
            return not (isinstance(k.value, ast.Constant) and k.value.value is None)
        if k.arg is None:       # **options: look for a seed in the dictionaries they come from
            if isinstance(k.value, ast.Name):
                for s in [x for x in ast.walk(f.node)] + m.tree.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k.value.id for t in s.targets):
                        txt = {x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)} \
                            | {w.arg for x in ast.walk(s.value) if isinstance(x, ast.Call) for w in x.keywords}
                        return bool(txt & set(SEED_KW))
            return True
    return False


# ------------------------------------------------------------------ sets
def sets(ctx, pr):
    n = 0
    for m in pr.modules.values():
        for f in every(m):
            known = set()
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and is_set(s.value, known):
                    known |= {t.id for t in s.targets if isinstance(t, ast.Name)}
            for s in ast.walk(f.node):      # a name that is also rebound to something ordered is not a set
                if isinstance(s, ast.Assign) and not is_set(s.value, known):
                    known -= {t.id for t in s.targets if isinstance(t, ast.Name) and not mixed(f.node, t.id, known)}
            for s in ast.walk(f.node):
                if isinstance(s, ast.For) and is_set(s.iter, known):
                    n += 1
                    why = ordered_effect(s)
                    if why:
                        ctx.violate("set-order", m.rel, s.lineno, short(f.qual), ast.unparse(s.iter), f"loops over the set '{ast.unparse(s.iter)}' and {why}, so the result depends on the iteration order")
                elif isinstance(s, (ast.ListComp, ast.GeneratorExp)) and is_set(s.generators[0].iter, known):
                    n += 1
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("sum", "next") and s.args and is_set(s.args[0], known):
                    n += 1
                    ctx.violate("set-order", m.rel, s.lineno, short(f.qual), ast.unparse(s), f"'{ast.unparse(s)}' depends on the iteration order of a set")
    return n


def mixed(fn, nm, known):
    """the last assignment in the source wins"""
    last = None
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in s.targets):
            if last is None or s.lineno > last.lineno:
                last = s
    return last is not None and is_set(last.value, known)


def is_set(e, known):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "enumerate", "iter", "reversed") and e.args:
        return is_set(e.args[0], known)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference"):
        return is_set(e.func.value, known)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return is_set(e.left, known) and is_set(e.right, known) or (is_set(e.left, known) and isinstance(e.op, ast.Sub))
    return isinstance(e, ast.Name) and e.id in known


def ordered_effect(lp):
    v = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
    local = {x.id for b in lp.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
             and not any(isinstance(s, ast.AugAssign) and s.target is x for s in ast.walk(lp))}
    once = set()         # statements run for one particular element only
    for i in ast.walk(lp):
        if isinstance(i, ast.If) and isinstance(i.test, ast.Compare) and len(i.test.ops) == 1 and isinstance(i.test.ops[0], ast.Eq) \
                and any(isinstance(x, ast.Name) and x.id in v for x in (i.test.left, i.test.comparators[0])) \
                and any(isinstance(x, ast.Constant) for x in (i.test.left, i.test.comparators[0])):
            once |= {id(x) for b in i.body for x in ast.walk(b)}
    for b in lp.body:
        for s in ast.walk(b):
            if isinstance(s, ast.AugAssign):
                if id(s) in once:
                    continue
                if isinstance(s.target, ast.Name) and s.target.id not in local:
                    if not (isinstance(s.value, ast.Constant) and isinstance(s.value.value, int)) and not isinstance(s.op, (ast.BitAnd, ast.BitOr)):
                        return f"accumulates '{s.target.id}'"
                elif isinstance(s.target, ast.Subscript) and not ({x.id for x in ast.walk(s.target.slice) if isinstance(x, ast.Name)} & (v | local)):
                    return f"accumulates '{ast.unparse(s.target)}'"
            elif isinstance(s, ast.Break):
                return "stops at the first match"
            elif isinstance(s, ast.Return) and s.value is not None and {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & (v | local):
                return "returns the first match"
    return None
