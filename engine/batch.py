"""Contracts of the batch entry points: interp, interpn, interpn_alloc."""
from terms import *
import terms
import exec as X
from exec import Agg, En, Ptr, PIte, Base, St, UMAX, IMAX, LMAX, TOP, VecV
import inputs
import oblig
import solver
import verify
from values import Fail
from verify import Out, new_exec, feasible, infeasible

MAXD = {"mlreg": 8, "mlrect": 8, "mlregrec": 8, "mlrectrec": 8, "mcreg": 8, "mcrect": 8, "mcregrec": 8, "mcrectrec": 8,
        "nreg": 6, "nrect": 6}


class Args:
    """arguments of a batch call: the grid list has L entries (or symbolically many),
    every slice has its own symbolic length"""

    def __init__(self, key, L, mode, symlist=None):
        self.key, self.L, self.mode = key, L, mode
        self.kind, self.method, self.rec, self.mn, _ = inputs.KINDS[key]
        num = lambda nm: var(nm, False)
        self.nvals = var("nvals", True, 0, LMAX)
        self.nobs = var("nobs", True, 0, LMAX)
        self.nout = var("nout", True, 0, LMAX)
        self.nst = var("nstarts", True, 0, LMAX)
        self.nsp = var("nsteps", True, 0, LMAX)
        self.lin = bvar("lin")
        self.sym = L is None
        hi = LMAX if self.kind == "rect" else UMAX
        if self.sym:
            self.nl = var("nlist", True, symlist, LMAX)
            self.dims = None
        else:
            self.nl = K(L)
            self.dims = [var("d%d" % d, True, 0, hi) for d in range(L)]

    def state(self, pre=()):
        return St({}, tuple(x for x in pre if x is not TRUE))

    def sl(self, st, cell, arr):
        st.m[cell] = arr
        return Ptr(cell, (), (ZERO, arr.n if not isinstance(arr, Agg) else K(len(arr.f))))

    def grid_args(self, st):
        vals = self.sl(st, ("vals", 0), Base("v", (), "T", self.nvals, True))
        if self.kind == "reg":
            if self.sym:
                d = self.sl(st, ("dims", 0), Base("dims", (), "U", self.nl))
            else:
                d = self.sl(st, ("dims", 0), Agg(tuple(self.dims)))
            a = [d, self.sl(st, ("starts", 0), Base("s", (), "T", self.nst)),
                 self.sl(st, ("steps", 0), Base("h", (), "T", self.nsp)), vals]
        else:
            if self.sym:
                gl = self.sl(st, ("grids", 0), Base("gs", (), ("S", "T"), self.nl))
            else:
                ps = []
                for d in range(self.L):
                    ps.append(self.sl(st, ("grid", d), Base("g", (K(d),), "T", self.dims[d])))
                gl = self.sl(st, ("grids", 0), Agg(tuple(ps)))
            a = [gl, vals]
        if self.method == "cubic":
            a.append(self.lin)
        return a

    def obs_arg(self, st):
        return self.sl(st, ("obs", 0), Base("obs", (), ("S", "T"), self.nobs))

    def out_arg(self, st):
        return self.sl(st, ("out", 0), Base("out0", (), "T", self.nout))

    def obslen(self, j):
        return sel("obs.len", (j,), True, 0, LMAX)

    def obsval(self, j, k):
        return sel("obs", (j, k), False)

    def total(self):
        t = ONE
        for d in self.dims:
            t = t * d
        return t

    def wellformed(self):
        """[(name, condition)] of the grid arguments; step and grid order in real mode only"""
        c = []
        if self.sym:
            return [("number of dimensions", FALSE)]
        c.append(("number of dimensions", bconst(1 <= self.L <= MAXD[self.key])))
        if self.kind == "reg":
            c.append(("starts length", eq(self.nst, self.nl)))
            c.append(("steps length", eq(self.nsp, self.nl)))
        for d in range(self.L):
            c.append(("size of dimension %d" % d, le(K(self.mn), self.dims[d])))
        c.append(("number of values", eq(self.nvals, self.total())))
        if self.mode == "real":
            for d in range(self.L):
                if self.kind == "reg":
                    c.append(("step %d" % d, lt(ZERO, sel("h", (K(d),), False))))
                else:
                    c.append(("grid %d" % d, lt(sel("g", (K(d), ZERO), False), sel("g", (K(d), ONE), False))))
        return c

    def obs_wf(self, alloc):
        c = [("number of coordinates", eq(self.nobs, self.nl))]
        n = self.obslen(ZERO) if alloc else self.nout
        if not self.sym:
            for j in range(self.L):
                c.append(("length of coordinate %d" % j, eq(self.obslen(K(j)), n)))
        return c


# ------------------------------------------------------------------ point contract
def slice_id(ex, st, p):
    a = ex.load(st, p.cell, p.path)
    if isinstance(a, Base):
        return a.name + "".join("_%s" % (x,) for x in a.pre), p.sl[0]
    raise Unsupported("slice of %r" % (a,))


class Points:
    """interp_one as an arbitrary function of the constructor arguments and the
    point, with an arbitrary domain on which it succeeds"""

    def __init__(self, ex):
        self.ex = ex
        self.reg = []        # (struct value, canonical arguments)
        ex.contracts.append((lambda f: f.krate == "interpn" and f.name.endswith("::new") and "interpn::" in f.name
                             and f.body is not None, self.new))
        ex.contracts.append((lambda f: f.krate == "interpn" and f.name.endswith("::interp_one"), self.one))
        self.calls = 0

    def canon(self, st, v):
        """(names, numbers) identifying an argument"""
        if isinstance(v, Poly):
            return (), (v,)
        if isinstance(v, B):
            return (), (terms.ite(v, ONE, ZERO),)
        if isinstance(v, Agg):
            nm, ps = (), ()
            for x in v.f:
                a, b = self.canon(st, x)
                nm += a
                ps += b
            return nm, ps
        if isinstance(v, Ptr) and v.sl is None:
            return self.canon(st, self.ex.load(st, v.cell, v.path))
        if isinstance(v, Ptr):
            n = v.sl[1].const()
            a = self.ex.load(st, v.cell, v.path)
            if n is None:
                for l in st.pc:
                    # length known to be the (constant) number of dimensions
                    if l.k == "eq":
                        for s in (1, -1):
                            d = (v.sl[1] + l.a.scale(s)).const()
                            if d is not None and 0 <= d <= 16 and "vals" not in str(v.cell):
                                n = d
            if n is not None and n <= 16 and not (isinstance(a, Base) and a.data):
                nm, ps = (), ()
                for i in range(n):
                    x, y = self.canon(st, self.ex.load(st, v.cell, v.path + (v.sl[0] + K(i),)))
                    nm += x
                    ps += y
                return nm, ps
            x, o = slice_id(self.ex, st, v)
            return (x,), (o, v.sl[1])
        raise Unsupported("canonical form of %r" % (v,))

    def tyname(self, fn):
        """method and grid kind, independent of the number of dimensions and of recursion"""
        for m in ("Multilinear", "Multicubic", "Nearest"):
            if m in fn.name:
                return m + ("Regular" if "Regular" in fn.name else "Rectilinear")
        return None

    def new(self, ex, fn, args, st, fr, span):
        t = self.tyname(fn)
        if t is None:
            return None
        if ex.mode == "havoc":
            outs = ex.run(fn, args, st, fr, None)
            for s, r in outs:
                if isinstance(r, En) and r.d.const() == 0:
                    self.reg.append((r.v[0][0], (t,), ()))
            return outs
        nm, ps = (), ()
        for a in args:
            x, y = self.canon(st, a)
            nm += x
            ps += y
        outs = ex.run(fn, args, st, fr, None)
        for s, r in outs:
            if isinstance(r, En) and r.d.const() == 0:
                # lengths may only be known after the checks of the constructor
                nm, ps = (), ()
                for a in args:
                    x, y = self.canon(s, a)
                    nm += x
                    ps += y
                self.reg.append((r.v[0][0], (t,) + nm, ps))
        return outs

    def one(self, ex, fn, args, st, fr, span):
        sv = ex.load(st, args[0].cell, args[0].path)
        for v, nm, ps in self.reg:
            if X.vsame(v, sv):
                break
        else:
            raise Unsupported("interp_one of an interpolator that was not made by its constructor")
        if nm[0] != self.tyname(fn):
            raise Unsupported("interp_one of another type")
        self.calls += 1
        if ex.mode == "havoc":
            # proved for every constructed interpolator and every point (C08)
            c = bfresh("ok")
            return [(st.cond(c), En(K(0), {0: (TOP,)})), (st.cond(Not(c)), En(K(1), {1: (X.ANYSTR,)}))]
        _, xs = self.canon(st, args[1])
        okc, val = self.spec(nm, ps, xs)
        res = []
        s1 = st.cond(okc)
        if s1 is not None:
            res.append((s1, En(K(0), {0: (val,)})))
        s2 = st.cond(Not(okc))
        if s2 is not None:
            res.append((s2, En(K(1), {1: (X.ANYSTR,)})))
        return res

    def spec(self, nm, ps, xs):
        key = "|".join(nm) + "|%d" % len(xs)
        return ufb("ok:" + key, tuple(ps) + tuple(xs)), uf("at:" + key, tuple(ps) + tuple(xs), False)


# ------------------------------------------------------------------ tasks
def holds(ex, s, c, name, out, assume=()):
    r = solver.prove(list(s.pc) + list(assume) + solver.relevant(ex.facts, s.pc), c)
    out.obl += 1
    if r != "valid":
        raise Fail(name, "%s does not follow from %s (%s)" % (showb(c)[:300], [showb(h)[:120] for h in s.pc][:14], r))
    out.ok += 1
    out.back["z3"] = out.back.get("z3", 0) + 1


def outcome(ex, s, r):
    c = r.d.const()
    if c is None:
        raise Unsupported("result not separated into Ok and Err")
    return c


def batch(prog, key, L, entry, n=None):
    """entry 'interp' (method of a constructed interpolator with const parameter n),
    'interpn' or 'alloc': equals pointwise interp_one; Err only when it must"""
    out = Out()
    ex = new_exec(prog, "real")
    pts = Points(ex)
    A = Args(key, L, "real")
    pre = [c for _, c in A.wellformed()] + [le(A.total(), K(LMAX))]
    st = A.state(pre)
    ga = A.grid_args(st)
    obs = A.obs_arg(st)
    xs = lambda k: [A.obsval(K(j), k) for j in range(L)]
    alloc = entry == "alloc"
    runs = []
    if entry == "interp":
        g = inputs.Grid(key, n, "real", nd=L, free=False, valid=True)
        st = g.state()
        obs = A.obs_arg(st)
        oks, errs = inputs.construct(ex, prog, g, st)
        for s, _ in errs:
            infeasible(ex, s, [], "constructor rejects a valid grid", out)
        for s, v in oks:
            s.m[("self", 0)] = v
            if A.rec:
                o = obs
            else:
                for j in range(L):
                    s.m[("obsj", j)] = Base("obs", (K(j),), "T", A.obslen(K(j)))
                s.m[("obs", 0)] = Agg(tuple(Ptr(("obsj", j), (), (ZERO, A.obslen(K(j)))) for j in range(L)))
                o = Ptr(("obs", 0))
                s.pc = s.pc + (eq(A.nobs, K(L)),)
            runs.append((s, "root_interp_%s_%d" % (key, n), [Ptr(("self", 0)), o, A.out_arg(s)], pts.reg[-1]))
    else:
        a = ga + [obs] + ([] if alloc else [A.out_arg(st)])
        runs.append((st, "root_%s_%s" % (entry, key), a, None))
    got = 0
    for s0, root, args, reg in runs:
        feasible(s0.pc, out)
        wf = A.obs_wf(alloc)
        cnt = A.obslen(ZERO) if alloc else A.nout
        for s, r in ex.call(prog.root(root), args, s0):
            if reg is None:
                # every point must be evaluated with the interpolator of these arguments
                nm, ps = expect(pts, key, A, s)
            else:
                nm, ps = reg[1], reg[2]
            okk = lambda k: pts.spec(nm, ps, xs(k))
            bad = Any(cnt, bsubst(Not(okk(bound(0))[0]), {}, {}), 0)
            if outcome(ex, s, r) == 0:
                got += 1
                for nme, c in wf:
                    holds(ex, s, c, "Ok implies " + nme, out)
                holds(ex, s, Not(bad), "Ok implies that every point succeeded", out)
                q = fresh("q", True, 0, IMAX)
                if alloc:
                    v = r.v[0][0]
                    arr = s.m[v.cell] if isinstance(v, VecV) else None
                    if arr is None:
                        raise Unsupported("result of interpn_alloc")
                    holds(ex, s, eq(arr.n, cnt), "length of the result", out)
                else:
                    arr = s.m[("out", 0)]
                s2 = s.cond(lt(q, cnt))
                v = ex.sget(s2, arr, q)
                e = okk(q)[1]
                feasible(list(s.pc) + solver.relevant(ex.facts, s.pc), out)
                if not (isinstance(v, Poly) and v == e):
                    holds(ex, s2, eq(v, e), "every output element is the value at its point", out)
                else:
                    out.add(1, "syntactic")
            else:
                infeasible(ex, s, [c for _, c in wf] + [Not(bad)], "Err although every point can be evaluated", out)
    if not got:
        raise Fail("vacuous", "no successful evaluation")
    if not pts.calls:
        raise Unsupported("no point evaluation reached")
    out.take(ex)
    return out


def expect(pts, key, A, s):
    """names and numbers of the interpolator documented for these arguments"""
    t = {"linear": "Multilinear", "cubic": "Multicubic", "nearest": "Nearest"}[A.method] + \
        ("Regular" if A.kind == "reg" else "Rectilinear")
    nm, ps = (t,), ()
    L = A.L
    if A.kind == "reg":
        ps += tuple(A.dims) + tuple(sel("s", (K(d),), False) for d in range(L)) + \
            tuple(sel("h", (K(d),), False) for d in range(L))
    else:
        for d in range(L):
            nm += ("g_%s" % (K(d),),)
            ps += (ZERO, A.dims[d])
    nm += ("v",)
    ps += (ZERO, A.nvals)
    if A.method == "cubic":
        ps += (terms.ite(A.lin, ONE, ZERO),)
    return nm, ps


def malformed(prog, key, L, entry):
    """Ok is returned only for well-formed arguments (everything else is an error)"""
    out = Out()
    ex = new_exec(prog, "real")
    pts = Points(ex)
    A = Args(key, L, "real", symlist=MAXD[key] + 1)
    st = A.state()
    alloc = entry == "alloc"
    a = A.grid_args(st) + [A.obs_arg(st)] + ([] if alloc else [A.out_arg(st)])
    feasible(st.pc, out)
    for s, r in ex.call(prog.root("root_%s_%s" % (entry, key)), a, st):
        if outcome(ex, s, r) == 0:
            for nm, c in A.wellformed() + A.obs_wf(alloc):
                holds(ex, s, c, "Ok implies valid " + nm, out)
        else:
            out.add(0)
    out.take(ex)
    return out


def panics(prog, key, L, entry):
    """no panic, overflow or out-of-bounds access for any arguments"""
    out = Out()
    col = oblig.Collector()
    ex = new_exec(prog, "havoc", col)
    pts = Points(ex)
    A = Args(key, L, "havoc", symlist=MAXD[key] + 1)
    st = A.state()
    a = A.grid_args(st) + [A.obs_arg(st)] + ([] if entry == "alloc" else [A.out_arg(st)])
    feasible(st.pc, out)
    n = len(ex.call(prog.root("root_%s_%s" % (entry, key)), a, st))
    if not n:
        raise Fail("vacuous", "the function never returns")
    verify.finish(ex, col, [d.single_atom().id for d in A.dims or ()], out)
    return out


def bounds_args(A, st):
    a = A.grid_args(st)[:1] if A.kind == "rect" else A.grid_args(st)[:3]
    atol = var("atol", False) if A.mode == "real" else TOP
    ob = A.sl(st, ("bout", 0), Base("bout0", (), "B", A.nout))
    return a + [A.obs_arg(st), atol, ob]


def bounds(prog, key):
    """check_bounds: flags and Ok condition, for any number of dimensions"""
    out = Out()
    ex = new_exec(prog, "real")
    A = Args(key, None, "real", symlist=0)
    st = A.state()
    a = bounds_args(A, st)
    n = A.nl
    atol = var("atol", False)
    size = (lambda d: sel("dims", (d,), True, 0, UMAX)) if A.kind == "reg" else (lambda d: sel("gs.len", (d,), True, 0, LMAX))
    lens = [("observations", eq(A.nobs, n)), ("flags", eq(A.nout, n))]
    if A.kind == "reg":
        lens += [("starts", eq(A.nst, n)), ("steps", eq(A.nsp, n))]
    empty = Any(n, le(size(bound(0)), ZERO), 0)
    got = 0
    for s, r in ex.call(prog.root("root_bounds_" + key), a, st):
        if outcome(ex, s, r) == 0:
            got += 1
            feasible(list(s.pc) + solver.relevant(ex.facts, s.pc), out)
            for nm, c in lens:
                holds(ex, s, c, "Ok implies one entry per dimension: " + nm, out)
            holds(ex, s, Not(empty), "Ok implies non-empty grids", out)
            q = fresh("q", True, 0, IMAX)
            s2 = s.cond(lt(q, n))
            flag = ex.sget(s2, s2.m[("bout", 0)], q)
            if A.kind == "reg":
                lo = sel("s", (q,), False)
                hi = lo + sel("h", (q,), False) * (size(q) - ONE)
                lo, hi = terms.imin(lo, hi), terms.imax(lo, hi)
            else:
                lo, hi = sel("gs", (q, ZERO), False), sel("gs", (q, size(q) - ONE), False)
            lev = 7
            x = sel("obs", (q, bound(lev)), False)
            outside = Any(A.obslen(q), Or(lt(x, lo - atol), gt(x, hi + atol)), lev)
            notin = Any(A.obslen(q), Not(And(lt(lo - atol, x), lt(x, hi + atol))), lev)
            holds(ex, s2, flag, "flag set when a coordinate is outside", out, [outside])
            holds(ex, s2, Not(flag), "flag clear when every coordinate is inside", out, [Not(notin)])
        else:
            infeasible(ex, s, [c for _, c in lens] + [Not(empty)], "Err for matching arguments", out)
    if not got:
        raise Fail("vacuous", "no successful result")
    out.take(ex)
    return out


def bounds_panics(prog, key):
    out = Out()
    col = oblig.Collector()
    ex = new_exec(prog, "havoc", col)
    A = Args(key, None, "havoc", symlist=0)
    st = A.state()
    n = len(ex.call(prog.root("root_bounds_" + key), bounds_args(A, st), st))
    if not n:
        raise Fail("vacuous", "the function never returns")
    verify.finish(ex, col, [], out)
    return out


def direct_panics(prog, key, n, nd):
    """interp (and interp_one of the recursive forms) of a constructed interpolator with
    coordinate and output slices of any lengths: no panic; Ok only when the lengths agree"""
    out = Out()
    col = oblig.Collector()
    ex = new_exec(prog, "havoc", col)
    pts = Points(ex)
    g = inputs.Grid(key, n, "havoc", nd=nd, free=True, valid=False)
    A = Args(key, nd, "havoc")
    oks, _ = inputs.construct(ex, prog, g, g.state())
    del col.items[:]
    if not oks:
        raise Fail("constructor", "no successful construction")
    for s, v in oks:
        s.m[("self", 0)] = v
        o, wf = interp_obs(A, s, nd)
        for s2, r in ex.call(prog.root("root_interp_%s_%d" % (key, n)), [Ptr(("self", 0)), o, A.out_arg(s)], s.copy()):
            if outcome(ex, s2, r) == 0:
                for nm, c in wf:
                    holds(ex, s2, c, "Ok implies matching " + nm, out)
        if A.rec:
            nx = var("nx", True, 0, LMAX)
            s = s.copy()
            xa = A.sl(s, ("x", 0), Base("x", (), "T", nx))
            # the real body up to the length check; the evaluation itself is proved separately
            s = s.cond(Not(eq(nx, K(nd))))
            c, ex.contracts = ex.contracts, []
            try:
                for s2, r in ex.call(prog.root("root_one_%s_%d" % (key, n)), [Ptr(("self", 0)), xa], s):
                    if outcome(ex, s2, r) == 0:
                        infeasible(ex, s2, [], "Ok for a point of the wrong dimension", out)
            finally:
                ex.contracts = c
    verify.finish(ex, col, g.dimids, out)
    return out


def interp_obs(A, s, nd):
    """coordinate argument of interp"""
    wf = [("length of coordinate %d" % j, eq(A.obslen(K(j)), A.nout)) for j in range(nd)]
    if A.rec:
        return A.obs_arg(s), wf + [("number of coordinates", eq(A.nobs, K(nd)))]
    for j in range(nd):
        s.m[("obsj", j)] = Base("obs", (K(j),), "T", A.obslen(K(j)))
    s.m[("obs", 0)] = Agg(tuple(Ptr(("obsj", j), (), (ZERO, A.obslen(K(j)))) for j in range(nd)))
    return Ptr(("obs", 0)), wf


def ctor_args(A, st, n):
    """constructor arguments: fixed arrays for the flattened forms, slices otherwise"""
    if A.rec:
        return A.grid_args(st)
    L = A.L
    a = A.grid_args(st)
    if A.kind == "reg":
        num = (lambda nm, d: TOP) if A.mode == "havoc" else (lambda nm, d: sel(nm, (K(d),), False))
        a = [Agg(tuple(A.dims)), Agg(tuple(num("s", d) for d in range(L))), Agg(tuple(num("h", d) for d in range(L)))] + a[3:]
    else:
        a = [Ptr(("grids", 0))] + a[1:]
    return a


def ctor(prog, key, n, L):
    """the constructor returns Ok exactly for valid grids"""
    out = Out()
    ex = new_exec(prog, "real")
    A = Args(key, L, "real", symlist=n + 1)
    st = A.state()
    a = ctor_args(A, st, n)
    wf = [c for nm, c in A.wellformed() if nm != "number of dimensions" and (A.rec or "length" not in nm)]
    if A.sym or not 1 <= A.L <= n:
        wf.append(FALSE)
    got = 0
    for s, r in ex.call(prog.root("root_new_%s_%d" % (key, n)), a, st):
        if outcome(ex, s, r) == 0:
            got += 1
            feasible(list(s.pc) + solver.relevant(ex.facts, s.pc), out)
            for c in wf:
                holds(ex, s, c, "constructor accepts an invalid grid", out)
        else:
            infeasible(ex, s, wf, "constructor rejects a valid grid", out)
    if not got and And(*wf) is not FALSE:
        raise Fail("vacuous", "no successful construction")
    out.take(ex)
    return out


def ctor_panics(prog, key, n, L):
    out = Out()
    col = oblig.Collector()
    ex = new_exec(prog, "havoc", col)
    A = Args(key, L, "havoc", symlist=n + 1)
    st = A.state()
    if not ex.call(prog.root("root_new_%s_%d" % (key, n)), ctor_args(A, st, n), st):
        raise Fail("vacuous", "the constructor never returns")
    verify.finish(ex, col, [d.single_atom().id for d in A.dims or ()], out)
    return out
