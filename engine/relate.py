"""Properties that compare an interpolator with itself or with another one, proved
directly on the per-dimension windows and weights of the real code:
C05 node reproduction, C06 multi-affine reproduction, C07 continuity,
C12 regular = rectilinear, C13 recursive = flattened.

Every one-dimensional case of the code is brought to a normal form: a window origin o,
one weight per window node and hypotheses, over explicit integer parameters (cell
numbers, binary-search results) and the point.  On a regular grid everything is
expressed in U = (x - start)/step."""
from terms import *
import terms
import exec as X
import inputs
import rec
import solver
import verify
import values
from values import Fail, leaves, denominators_ok, dim_terms, WIDTH
from solver import prove, ratzero, cn
from verify import Out, new_exec, feasible, infeasible, built

U = var("U", False)
XV = var("x", False)
SV = var("s", False)
HV = P(terms._atom("var", "h", ("h",), False, 0, None))
HID = HV.single_atom().id
KID = bound(7).single_atom().id


def node(kind, i):
    return i if kind == "reg" else sel("g", (ZERO, i), False)


def xvar(kind):
    return U if kind == "reg" else XV


class Case:
    """one case of the 1-d interpolant in one dimension"""

    def __init__(self, o, ws, hy):
        self.o, self.ws, self.hy = o, list(ws), list(hy)

    def sub(self, env):
        cache = {}
        f = lambda p: cn(subst(p, env, cache))
        hy = []
        for h in self.hy:
            h = hsub(h, env, cache)
            if h is FALSE:
                return None
            if h is not TRUE:
                hy.append(h)
        return Case(f(self.o), [f(w) for w in self.ws], hy)


def hsub(b, env, cache):
    """substitution, with fractions cleared and factors h removed (0 < h)"""
    k = b.k
    if k in ("le", "lt", "eq"):
        p = cn(subst(b.a, env, cache))
        while p.t and all(HID in m for m in p.t):
            p = Poly({drop(m, HID): c for m, c in p.t.items()})
        return terms._cmp(k, p)
    if k == "not":
        return Not(hsub(b.a, env, cache))
    if k == "and":
        return And(*[hsub(c, env, cache) for c in b.a])
    if k == "or":
        return Or(*[hsub(c, env, cache) for c in b.a])
    return bsubst(b, env, cache)


def drop(m, i):
    k = m.index(i)
    return m[:k] + m[k + 1:]


_ctr = [0]


def normal(case, kind):
    """replace the integer functions of the point by explicit parameters; a list of cases"""
    _ctr[0] += 1
    work = [case]
    if kind == "reg":
        du = terms.div(XV - SV, HV).single_atom().id
        c = case.sub({XV.single_atom().id: SV + HV * U, du: U})
        if c is None:
            return []
        work = [c]
    out = []
    while work:
        c = work.pop()
        at = pick(c)
        if at is None:
            out.append(c)
            continue
        a = ATOMS[at]
        if a.kind == "floor":
            e = cn(a.args[0])
            f = fresh("f", True)
            c2 = c.sub({at: f})
            if c2 is not None:
                c2.hy += [le(f, e), lt(e, f + ONE)]
                work.append(c2)
        elif a.args[0] == "pp":
            pred, o, n = a.args[1:]
            f = fresh("p", True, 0, X.IMAX)
            c2 = c.sub({at: f})
            if c2 is not None:
                c2.hy += [le(f, n), Or(eq(f), bsubst(pred, {KID: f - ONE})), Or(eq(f, n), Not(bsubst(pred, {KID: f})))]
                work.append(c2)
        else:
            e = a.args[1]
            if not e.is_int():
                raise Unsupported("conversion of a fractional number")
            lo = prove(c.hy, le(K(a.lo), e)) == "valid" and prove(c.hy, le(e, K(a.hi))) == "valid"
            if not lo:
                raise Unsupported("conversion out of range")
            c2 = c.sub({at: e})
            if c2 is not None:
                work.append(c2)
    return [c for c in out if prove(c.hy, FALSE) != "valid"]


def pick(c):
    """an integer function of the point, innermost first"""
    best = None
    seen = set()
    for t in [c.o] + c.ws:
        seen |= set(deep_atoms(t))
    for h in c.hy:
        seen |= set(deep_atoms(h))
    for i in seen:
        a = ATOMS[i]
        if a.kind == "floor" or a.kind == "uf" and a.args[0] in ("pp", "toint"):
            if best is None or i < best:
                best = i
    return best


def ren(c):
    """rename the integer parameters"""
    env = {}
    for t in [c.o] + c.ws + c.hy:
        for i in deep_atoms(t):
            a = ATOMS[i]
            if a.kind == "var" and i not in env and isinstance(a.args[0], str) and "#" in a.args[0]:
                env[i] = fresh(a.args[0].split("#")[0], a.int, a.lo, a.hi)
    r = c.sub(env)
    return r


def get(prog, key, n, nd, out, pointwise=True):
    """the one-dimensional cases of an interpolator, pooled over dimensions"""
    ex = new_exec(prog, "real")
    rc = rec.Rec(ex)
    g = inputs.Grid(key, n, "real", nd=nd)
    rep = [And(le(K(X.IMIN), fl), le(fl, K(X.IMAX))) for fl in
           (terms.floor(terms.div(g.x[d] - g.start[d], g.step[d])) for d in range(g.nd))] if g.kind == "reg" else []
    seen = {}
    try:
        for s, v in built(ex, prog, g, out):
            s.m[("self", 0)] = v
            for s2, r in ex.call(prog.root("root_one_%s_%d" % (key, n)), [Ptr_self(), g.point_arg(s)], s):
                c = r.d.const()
                if c is None:
                    raise Unsupported("result not separated into Ok and Err")
                if c:
                    infeasible(ex, s2, rep, "Err for a representable point", out)
                    continue
                feasible(s2.pc, out)
                for ts, bs in dim_terms(g, s2.pc, r.v[0][0], rec=rc):
                    k = (ts[0], tuple(ts[1:]), frozenset(b.id for b in bs))
                    seen[k] = (ts, bs)
    except Fail as e:
        # the shape is what the value contracts decide; here it only means no proof
        raise Unsupported("%s: %s" % (e.name, e.detail))
    if not seen:
        raise Fail("vacuous", "no successful evaluation")
    out.take(ex)
    nv = var("n", True, g.lo, terms.IMAX_)
    cases = []
    for ts, bs in seen.values():
        hy = list(bs) + ([lt(ZERO, HV)] if g.kind == "reg" else [])
        for t2, h2 in leaves(ts, hy):
            if denominators_ok(t2[1:], h2) is not None:
                raise Unsupported("denominator")
            for c in normal(Case(t2[0], t2[1:], h2), g.kind):
                cases.append(c)
    ded = {}
    for c in cases:
        k = (c.o, tuple(c.ws), frozenset(h.id for h in c.hy))
        ded.setdefault(k, c)
    cases = list(ded.values())
    for c in cases:
        chk(c)
    return g, nv, cases


def Ptr_self():
    return X.Ptr(("self", 0))


def chk(c):
    for i in deep_atoms(c.o):
        if i in (U.single_atom().id, XV.single_atom().id):
            raise Unsupported("window depends on the point in an unknown way")


def facts(kind):
    return [lt(ZERO, HV)] if kind == "reg" else []


# ------------------------------------------------------------------ equality of two cases
def solve(p):
    """p == 0 solved for an integer variable of coefficient +-1: (atom id, value)"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and abs(c) == 1 and ATOMS[m[0]].kind == "var" and ATOMS[m[0]].int:
            if sum(m[0] in k for k in p.t) == 1:
                # prefer parameters to grid sizes
                sc = 1 if "#" in str(ATOMS[m[0]].args[0]) else 0
                if best is None or sc > best[0]:
                    rest = Poly({k: v for k, v in p.t.items() if k != m})
                    best = (sc, m[0], -rest if c == 1 else rest)
    return best and best[1:]


def same(kind, A, B, extra, what, out, lo=-8, hi=8, allowx=None, goal=None):
    """under the hypotheses of both cases and extra, both give the same weight to every
    grid node.  Points where the cases can meet only at a grid node are compared there."""
    H = facts(kind) + A.hy + B.hy + extra
    if prove(H, FALSE) == "valid":
        out.add(1)
        return
    W = max(len(A.ws), len(B.ws))
    diff = B.o - A.o
    dc = diff.const()
    if dc is not None:
        ds = [int(dc)]
    else:
        ds = [d for d in range(-W - 1, W + 2) if prove(H, Not(eq(diff, K(d)))) != "valid"]
        if prove(H, Or(*[eq(diff, K(d)) for d in ds])) != "valid":
            raise Fail(what, "windows %s and %s are apart under %s" % (show(A.o), show(B.o), sh(H)))
        out.add(1)
    for d in ds:
        C = Case(A.o, A.ws + B.ws + [B.o], H + ([eq(diff, K(d))] if dc is None else []))
        if dc is None:
            sv = solve(diff - K(d))
            if sv is not None:
                C = C.sub({sv[0]: sv[1]})
                if C is None:
                    continue
        a, b = C.ws[:len(A.ws)], C.ws[len(A.ws):-1]
        absw = {}
        for j, w in enumerate(a):
            absw[j] = absw.get(j, ZERO) + w
        for j, w in enumerate(b):
            absw[j + d] = absw.get(j + d, ZERO) - w
        zero(kind, C, absw, what, out)


def zero(kind, C, absw, what, out):
    """all the expressions vanish under C's hypotheses"""
    out.obl += 1
    if all(ratzero(w) for w in absw.values()):
        done(out, "ratzero")
        return
    if prove(C.hy, FALSE) == "valid":
        done(out, "z3")
        return
    # parameters that the hypotheses pin to each other
    x = xvar(kind)
    lo, hi = min(absw) - 1, max(absw) + 1
    cs = [c for c in range(lo, hi + 1) if prove(C.hy, Not(eq(x, node(kind, C.o + K(c))))) != "valid"]
    if len(cs) == hi - lo + 1 or prove(C.hy, Or(*[eq(x, node(kind, C.o + K(c))) for c in cs])) != "valid":
        bad = next(w for w in absw.values() if not ratzero(w))
        raise Fail(what, "weights differ by %s under %s" % (show(cn(bad))[:300], sh(C.hy)))
    for c in cs:
        env = {x.single_atom().id: node(kind, C.o + K(c))}
        D = Case(C.o, [absw[j] for j in sorted(absw)], C.hy).sub(env)
        if D is None or prove(D.hy, FALSE) == "valid":
            continue
        for w in D.ws:
            if not ratzero(w) and not ratzero(pin(w, D.hy)):
                raise Fail(what, "weights differ by %s at node %s under %s" % (show(cn(w))[:300], show(C.o + K(c)), sh(D.hy)))
    done(out, "ratzero+z3")


def pin(w, hy):
    """eliminate integer parameters that the hypotheses determine"""
    ps = [i for i in deep_atoms(w) if ATOMS[i].kind == "var" and ATOMS[i].int]
    for i in ps:
        for j in ps:
            if i == j:
                continue
            for c in (0, -1, 1, -2, 2, -3, 3, -4, 4):
                if i in deep_atoms(w) and prove(hy, eq(P(ATOMS[i]), P(ATOMS[j]) + K(c))) == "valid":
                    w = cn(subst(w, {i: P(ATOMS[j]) + K(c)}))
                    break
    return w


def done(out, how):
    out.ok += 1
    out.back[how] = out.back.get(how, 0) + 1


def sh(hy):
    return [showb(h)[:90] for h in hy][:24]


# ------------------------------------------------------------------ C05
def nodes(prog, key, n, nd=None):
    """at grid node k the only nonzero weight is 1 on node k"""
    out = Out()
    nd = n if nd is None else nd
    g, nv, cases = get(prog, key, n, nd, out)
    k = fresh("k", True, 0, X.IMAX)
    x = xvar(g.kind)
    at = Case(k, [ONE], [lt(k, nv), eq(x, node(g.kind, k))])
    for c in cases:
        c2 = Case(c.o, c.ws, c.hy)
        same_at(g.kind, c2, at, k, x, out)
    return out


def same_at(kind, c, at, k, x, out):
    env = {x.single_atom().id: node(kind, k)}
    A = Case(c.o, c.ws, c.hy).sub(env)
    if A is None:
        out.add(1)
        return
    B = Case(at.o, at.ws, at.hy[:1])
    H = facts(kind)
    if prove(H + A.hy + B.hy, FALSE) == "valid":
        out.add(1)
        return
    W = len(A.ws)
    diff = k - A.o
    ds = [d for d in range(-1, W + 1) if prove(H + A.hy + B.hy, Not(eq(diff, K(d)))) != "valid"]
    if prove(H + A.hy + B.hy, Or(*[eq(diff, K(d)) for d in ds])) != "valid":
        raise Fail("node", "node %s is not in the window from %s under %s" % (show(k), show(A.o), sh(A.hy)))
    out.add(1)
    for d in ds:
        C = Case(A.o, A.ws, H + A.hy + B.hy + [eq(diff, K(d))])
        sv = solve(diff - K(d))
        if sv is not None:
            C = C.sub({sv[0]: sv[1]})
        if C is None:
            continue
        out.obl += 1
        if prove(C.hy, FALSE) == "valid":
            done(out, "z3")
            continue
        for j, w in enumerate(C.ws):
            w = w - (ONE if j == d else ZERO)
            if not ratzero(w) and not ratzero(pin(w, C.hy)):
                raise Fail("node", "at node %s the weight of node %s is off by %s under %s" % (
                    show(C.o + K(d)), show(C.o + K(j)), show(cn(w))[:300], sh(C.hy)))
        if not 0 <= d < W:
            raise Fail("node", "node %s is not in the window from %s under %s" % (show(C.o + K(d)), show(C.o), sh(C.hy)))
        done(out, "ratzero")


# ------------------------------------------------------------------ C06
def affine(prog, key, n, nd=None):
    """the weights sum to one and reproduce the coordinate"""
    out = Out()
    nd = n if nd is None else nd
    g, nv, cases = get(prog, key, n, nd, out)
    x = xvar(g.kind)
    for c in cases:
        s0, s1 = -ONE, -x
        for j, w in enumerate(c.ws):
            s0 = s0 + w
            s1 = s1 + w * node(g.kind, c.o + K(j))
        C = Case(c.o, c.ws, facts(g.kind) + c.hy)
        zero(g.kind, C, {0: s0, 1: s1}, "affine reproduction", out)
    return out


# ------------------------------------------------------------------ C07
def relax(b, xid):
    """closure of a region: strict comparisons involving the point become weak"""
    k = b.k
    if k == "lt":
        return le(b.a) if xid in deep_atoms(b.a) else b
    if k == "any" and xid not in deep_atoms(b.a[0]):
        # a finite union: the closure is that of the members
        return Any(b.a[0], relax(b.a[2], xid), b.a[1])
    if k == "not" and b.a.k == "any" and xid not in deep_atoms(b.a.a[0]):
        n, lev, body = b.a.a
        return Not(Any(n, Not(relax(Not(body), xid)), lev))
    if k == "not":
        return TRUE if xid in deep_atoms(b.a) else b
    if k == "and":
        return And(*[relax(c, xid) for c in b.a])
    if k == "or":
        return Or(*[relax(c, xid) for c in b.a])
    return b


def deriv(p, xid):
    out = ZERO
    for m, c in p.t.items():
        for i in set(m):
            if i == xid:
                out = out + Poly({drop(m, i): c * m.count(i)})
            elif xid in deep_atoms(P(ATOMS[i])):
                raise Unsupported("weight is not a polynomial in the point")
    return out


def continuous(prog, key, n, nd=None):
    """the pieces are polynomials on closed regions that agree where they meet
    (cubic: with their first derivatives)"""
    out = Out()
    nd = n if nd is None else nd
    g, nv, cases = get(prog, key, n, nd, out)
    xid = xvar(g.kind).single_atom().id
    cl = []
    for c in cases:
        ws = [cn(w) for w in c.ws]
        dw = [deriv(w, xid) for w in ws]     # also checks polynomiality
        c0 = Case(c.o, ws, [h for h in (relax(h, xid) for h in c.hy) if h is not TRUE])
        c1 = Case(c.o, dw, c0.hy)
        cl.append((c0, c1))
    for i in range(len(cl)):
        for j in range(i + 1):
            for o, what in ((0, "continuity"), (1, "continuity of the derivative")):
                if o == 1 and g.method != "cubic":
                    continue
                same(g.kind, cl[i][o], ren(cl[j][o]), [], what, out)
    return out


# ------------------------------------------------------------------ C12, C13
def cross(prog, keya, na, keyb, nb, nd):
    """the two interpolators give every node the same weight at every point"""
    out = Out()
    ga, nv, A = get(prog, keya, na, nd, out)
    gb, _, B = get(prog, keyb, nb, nd, out)
    kind = ga.kind
    extra = []
    if ga.kind != gb.kind:
        if ga.kind != "reg":
            raise Unsupported("order of the interpolators")
        B = [c for c in (unit(c) for c in B) if c is not None]
    for a in A:
        tie = []
        if ga.method == "nearest" and ga.kind != gb.kind:
            # exact midpoints are excepted
            tie = [Not(eq(U, a.o + K(values.H))), Not(eq(U, a.o - K(values.H)))]
        for b in B:
            same(kind, a, ren(b), tie, "same value", out)
    return out


def unit(c):
    """a rectilinear case on the grid s + h*i, in the unit coordinate"""
    env = {}
    for _ in range(50):
        hit = None
        for t in [c.o] + c.ws + c.hy:
            for i in deep_atoms(t):
                a = ATOMS[i]
                if a.kind == "sel" and a.args[0] == "g" and (hit is None or i < hit):
                    hit = i
        if hit is None:
            break
        c = c.sub({hit: SV + HV * ATOMS[hit].args[1][-1]})
        if c is None:
            return None
    c = c.sub({XV.single_atom().id: SV + HV * U})
    if c is None:
        return None
    return c
