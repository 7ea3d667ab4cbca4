"""Contracts of the one-dimensional interpolators and linspace."""
from terms import *
import terms
import exec as X
from exec import Agg, En, Ptr, Base, St, UMAX, IMAX, LMAX, TOP, VecV
import oblig
import solver
import verify
import values
from values import Fail, Spec, leaves, denominators_ok
from solver import prove, ratzero, cn
from verify import Out, new_exec, feasible, infeasible
from batch import holds, outcome
from fractions import Fraction

HALF = Fraction(1, 2)


class G1:
    def __init__(self, kind, mode, valid=True):
        self.kind, self.mode = kind, mode
        num = (lambda nm: TOP) if mode == "havoc" else (lambda nm: var(nm, False))
        self.n = var("n", True, 2 if valid else 0, LMAX)
        self.ng = self.n if valid else var("ng", True, 0, LMAX)
        self.x = num("x")
        self.s = num("s")
        self.h = TOP if mode == "havoc" else P(terms._atom("var", "h", ("h",), False, 0, None))
        self.pre = []
        if valid:
            solver.SORTED.add("g")
            if mode == "real" and kind == "reg":
                self.pre.append(lt(ZERO, self.h))

    def state(self):
        st = St({}, tuple(self.pre))
        st.m[("vals", 0)] = Base("v", (), "T", self.n, True)
        st.m[("g", 0)] = Base("g", (ZERO,), "T", self.ng)
        return st

    def new_args(self):
        vals = Ptr(("vals", 0), (), (ZERO, self.n))
        if self.kind == "reg":
            return [self.s, self.h, vals]
        return [Ptr(("g", 0), (), (ZERO, self.ng)), vals]

    def grids(self, ex, prog, out, valid=True):
        st = self.state()
        res = []
        for s, r in ex.call(prog.root("root_g1new_" + self.kind), self.new_args(), st):
            if outcome(ex, s, r) == 0:
                res.append((s, r.v[0][0]))
                feasible(s.pc, out)
            elif valid:
                infeasible(ex, s, [], "grid constructor rejects a valid grid", out)
        if not res:
            raise Fail("constructor", "no successful construction")
        return res


def scaled(hy, x, s, h):
    """the same hypotheses in the cell coordinate U = (x-s)/h, given 0 < h"""
    U = var("U", False)
    env = {x.single_atom().id: s + h * U, terms.div(x - s, h).single_atom().id: U}
    hid = h.single_atom().id

    def tr(b):
        if b.k in ("le", "lt", "eq"):
            p = cn(subst(b.a, env))
            while p.t and all(hid in m for m in p.t):
                p = Poly({_drop(m, hid): c for m, c in p.t.items()})
            return terms._cmp(b.k, p)
        if b.k == "not":
            return Not(tr(b.a))
        if b.k == "and":
            return And(*[tr(c) for c in b.a])
        if b.k == "or":
            return Or(*[tr(c) for c in b.a])
        return bsubst(b, env)
    return tr, [b if b == lt(ZERO, h) else tr(b) for b in hy]


def _drop(m, i):
    k = m.index(i)
    return m[:k] + m[k + 1:]


def v(i):
    return sel("v", (i,), False, None, None, True)


def pieces(method, sp, idx):
    """documented (name, region, value) with the data index idx as the anchor"""
    n = sp.n
    i = idx
    z, last = eq(i), eq(i, n - ONE)
    inr = And(le(ZERO, i), le(i, n - ONE))
    node_eq = lambda j: And(sp.ge(j), sp.le(j), le(ZERO, j), le(j, n - ONE))
    if method in ("linear", "linearholdlast"):
        cell = And(le(ZERO, i), le(i, n - K(2)))
        t = terms.div(sp.x - sp.node(i), sp.node(i + ONE) - sp.node(i))
        seg = v(i) * (ONE - t) + v(i + ONE) * t
        yield "segment", And(cell, sp.ge(i), sp.le(i + ONE)), seg
        if method == "linear":
            yield "below", And(cell, z, sp.le(i)), seg
            yield "above", And(cell, eq(i, n - K(2)), sp.ge(i + ONE)), seg
        else:
            yield "hold first", And(z, sp.le(i)), v(i)
            yield "hold last", And(last, sp.ge(i)), v(i)
        return
    yield "below", And(z, sp.le(i)), v(i)
    yield "above", And(last, sp.ge(i)), v(i)
    if method == "left":
        yield "right of node", And(inr, sp.ge(i), Or(last, sp.le(i + ONE))), v(i)
        yield "node", And(inr, node_eq(i - ONE)), v(i)
    elif method == "right":
        yield "left of node", And(inr, sp.le(i), Or(z, sp.ge(i - ONE))), v(i)
        yield "node", And(inr, node_eq(i + ONE)), v(i)
    else:
        if sp.kind == "reg":
            above = lt(i - K(HALF), sp.u)
        else:
            above = lt((sp.node(i - ONE) + sp.node(i)).scale(HALF), sp.x)
        yield "closest", And(inr, Or(z, above), Or(last, sp.mid_le(i))), v(i)


def value1(prog, method, kind):
    """eval_one returns the documented value"""
    out = Out()
    ex = new_exec(prog, "real")
    g = G1(kind, "real")
    sp = Spec(kind, g.n, g.x, g.s, g.h)
    fl = terms.floor(sp.u) if kind == "reg" else ZERO
    rep = [And(le(K(X.IMIN), fl), le(fl, K(X.IMAX)))]
    got = 0
    for s, gv in g.grids(ex, prog, out):
        for s2, r in ex.call(prog.root("root_one_%s_%s" % (method, kind)), [gv, g.x], s):
            if outcome(ex, s2, r):
                infeasible(ex, s2, rep, "Err for a representable point", out)
                continue
            val = r.v[0][0]
            feasible(s2.pc, out)
            for ts, hy in leaves([val], list(s2.pc)):
                got += 1
                val1 = ts[0]
                bad = denominators_ok([val1], hy)
                if bad is not None:
                    raise Fail("denominator", "division by %s may be a division by zero" % show(bad))
                idx = set()
                for i in deep_atoms(val1):
                    a = ATOMS[i]
                    if a.kind == "sel" and a.args[0] == "v":
                        idx.add(a.args[1][0])
                match = []
                cands = set(idx) | {j - ONE for j in idx}
                for j in cands:
                    for nm, reg, w in pieces(method, sp, j):
                        if ratzero(val1 - w):
                            match.append((nm, reg))
                goal = Or(*[reg for _, reg in match])
                if kind == "reg":
                    tr, hy = scaled(hy, g.x, g.s, g.h)
                    goal = tr(goal)
                r1 = prove(hy, goal)
                out.obl += 1
                if r1 != "valid":
                    raise Fail("value", "in the case %s the result %s is not the documented value (%s; candidates %s)" % (
                        [str(h)[:100] for h in hy][:8], show(cn(val1))[:300], r1, [m for m, _ in match]))
                out.ok += 1
                out.back["ratzero+z3"] = out.back.get("ratzero+z3", 0) + 1
    if not got:
        raise Fail("vacuous", "no successful evaluation")
    out.take(ex)
    return out


def batch1(prog, method, kind, entry):
    """eval / eval_alloc: pointwise eval_one, in order, error on a length mismatch"""
    out = Out()
    ex = new_exec(prog, "real")
    g = G1(kind, "real")
    seen = []
    calls = [0]

    def one(ex_, fn, args, st, fr, span):
        sv = ex.load(st, args[0].cell, args[0].path)
        if not (isinstance(sv, Agg) and len(sv.f) == 1 and X.vsame(sv.f[0], seen[-1])):
            raise Unsupported("eval_one of another interpolator")
        calls[0] += 1
        okc, val = spec(args[1])
        res = []
        for s, r in ((st.cond(okc), En(K(0), {0: (val,)})), (st.cond(Not(okc)), En(K(1), {1: (X.ANYSTR,)}))):
            if s is not None:
                res.append((s, r))
        return res

    def spec(x):
        return ufb("ok1", (x,)), uf("at1", (x,), False)
    ex.contracts.append((lambda f: f.krate == "interpn" and f.name.endswith("::eval_one"), one))
    nl = var("nl", True, 0, LMAX)
    no = var("no", True, 0, LMAX)
    alloc = entry == "evalalloc"
    xk = lambda k: sel("locs", (k,), False)
    got = 0
    for s, gv in g.grids(ex, prog, out):
        seen.append(gv)
        s.m[("locs", 0)] = Base("locs", (), "T", nl)
        s.m[("out", 0)] = Base("out0", (), "T", no)
        a = [gv, Ptr(("locs", 0), (), (ZERO, nl))] + ([] if alloc else [Ptr(("out", 0), (), (ZERO, no))])
        bad = Any(nl, Not(spec(xk(bound(0)))[0]), 0)
        wf = [] if alloc else [eq(nl, no)]
        for s2, r in ex.call(prog.root("root_%s_%s_%s" % (entry, method, kind)), a, s):
            if outcome(ex, s2, r) == 0:
                got += 1
                feasible(list(s2.pc), out)
                for c in wf:
                    holds(ex, s2, c, "Ok implies equal lengths", out)
                holds(ex, s2, Not(bad), "Ok implies that every point succeeded", out)
                if alloc:
                    vv = r.v[0][0]
                    if not isinstance(vv, VecV):
                        raise Unsupported("result of eval_alloc")
                    arr = s2.m[vv.cell]
                    holds(ex, s2, eq(arr.n, nl), "length of the result", out)
                else:
                    arr = s2.m[("out", 0)]
                q = fresh("q", True, 0, IMAX)
                s3 = s2.cond(lt(q, nl))
                e = spec(xk(q))[1]
                y = ex.sget(s3, arr, q)
                if not (isinstance(y, Poly) and y == e):
                    holds(ex, s3, eq(y, e), "every output element is the value at its point", out)
                else:
                    out.add(1, "syntactic")
            else:
                infeasible(ex, s2, wf + [Not(bad)], "Err although every point can be evaluated", out)
    if not got:
        raise Fail("vacuous", "no successful evaluation")
    if not calls[0]:
        raise Unsupported("no point evaluation reached")
    out.take(ex)
    return out


def panics1(prog, kind, methods):
    """constructor, at, index, eval_one, eval, eval_alloc never panic"""
    out = Out()
    col = oblig.Collector()
    ex = new_exec(prog, "havoc", col)
    g = G1(kind, "havoc", valid=False)
    nl = var("nl", True, 0, LMAX)
    no = var("no", True, 0, LMAX)
    for s, gv in g.grids(ex, prog, out, valid=False):
        holds(ex, s, le(K(2), g.n), "accepted grids have two values", out)
        if kind == "rect":
            holds(ex, s, eq(g.n, g.ng), "accepted grids have matching lengths", out)
        s.m[("self", 0)] = gv
        s.m[("locs", 0)] = Base("locs", (), "T", nl)
        s.m[("out", 0)] = Base("out0", (), "T", no)
        roots = [("root_g1at_" + kind, [Ptr(("self", 0)), TOP]), ("root_g1index_" + kind, [Ptr(("self", 0)), TOP])]
        for m in methods:
            roots.append(("root_one_%s_%s" % (m, kind), [gv, TOP]))
            roots.append(("root_eval_%s_%s" % (m, kind), [gv, Ptr(("locs", 0), (), (ZERO, nl)), Ptr(("out", 0), (), (ZERO, no))]))
            roots.append(("root_evalalloc_%s_%s" % (m, kind), [gv, Ptr(("locs", 0), (), (ZERO, nl))]))
        for r, a in roots:
            if not ex.call(prog.root(r), a, s.copy()):
                raise Fail("vacuous", r + " never returns")
    verify.finish(ex, col, [g.n.single_atom().id, g.ng.single_atom().id], out)
    return out


def linspace(prog):
    """n >= 2: exactly n values, the k-th is start + k*(stop-start)/(n-1)"""
    out = Out()
    ex = new_exec(prog, "real")
    a, b = var("start", False), var("stop", False)
    n = var("n", True, 2, IMAX)
    st = St({}, ())
    res = ex.call(prog.root("root_linspace"), [a, b, n], st)
    if not res:
        raise Fail("vacuous", "linspace never returns")
    for s, r in res:
        if not isinstance(r, VecV):
            raise Unsupported("result of linspace")
        arr = s.m[r.cell]
        feasible(s.pc, out)
        holds(ex, s, eq(arr.n, n), "number of values", out)
        q = fresh("q", True, 0, IMAX)
        for nm, k in (("k-th value", q), ("first value", ZERO), ("last value", n - ONE)):
            s2 = s.cond(lt(q, n))
            y = ex.sget(s2, arr, k)
            e = {"k-th value": a + terms.div(b - a, n - ONE) * q, "first value": a, "last value": b}[nm]
            for ts, hy in leaves([y], list(s2.pc)):
                bad = denominators_ok(ts, hy)
                if bad is not None:
                    raise Fail("denominator", "division by %s may be a division by zero" % show(bad))
                out.obl += 1
                if not ratzero(ts[0] - e):
                    raise Fail(nm, "%s is not %s under %s" % (show(cn(ts[0]))[:300], show(e), [str(h) for h in hy]))
                out.ok += 1
                out.back["ratzero"] = out.back.get("ratzero", 0) + 1
    out.take(ex)
    return out



def meshgrid(prog):
    """for any number of lists of any lengths: one result per node, node k holding list j's element digit(j, k)"""
    out = Out()
    ex = new_exec(prog, "real")
    m = var("m.x", True, 0, IMAX)
    s = St({("x", 0): Base("x", (), ("V", "T"), m)}, ())
    res = ex.call(prog.root("root_meshgrid"), [VecV(("x", 0))], s)
    if not res:
        raise Fail("vacuous", "meshgrid never returns")
    for s, r in res:
        arr = s.m[r.cell] if isinstance(r, VecV) else None
        if not isinstance(arr, X.VecOf):
            raise Unsupported("result of meshgrid")
        feasible(s.pc, out)
        holds(ex, s, eq(arr.n, uf("product", (m,), True, 0, IMAX)), "one result per node of the product", out)
        k, j = fresh("k", True, 0, IMAX), fresh("j", True, 0, IMAX)
        s2 = s.cond(lt(k, arr.n))
        ln = X.vsubst(arr.inner.n, {arr.var: k}, {})
        holds(ex, s2, eq(ln, m), "length of each result", out)
        s3 = s2.cond(lt(j, m))
        y = X.vsubst(X.vsubst(arr.inner.body, {arr.inner.var: j}, {}), {arr.var: k}, {})
        e = sel("x", (j, uf("digit", (j, k), True, 0, IMAX)), False)
        if isinstance(y, Poly) and y == e:
            out.add(1, "syntactic")
        else:
            holds(ex, s3, eq(y, e), "coordinate j of node k is element digit(j, k) of list j", out)
    out.take(ex)
    return out
