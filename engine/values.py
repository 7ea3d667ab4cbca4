"""Contracts of interp_one: the returned value is the documented tensor product.

The symbolic result of the real code is a polynomial over the stored values.
It is decoded into a window (origin per dimension) and one weight per dimension
and digit; the per-dimension contract is then proved for all inputs by case
splitting, linear arithmetic (z3) and exact rational identities."""
from fractions import Fraction
from terms import *
import terms
import solver
from solver import prove, ratzero, cn
from exec import En


class Fail(Exception):
    """a proof obligation was refuted or not discharged"""

    def __init__(self, name, detail):
        self.name = name
        self.detail = detail


H = Fraction(1, 2)


# ------------------------------------------------------------- dimension of an atom
class Classifier:
    def __init__(self, g):
        self.g = g
        self.own = {}
        for d in range(g.nd):
            for p in (g.dims[d], g.start[d], g.step[d], g.x[d]):
                if isinstance(p, Poly):
                    self.own[p.single_atom().id] = d
        self.c = {}

    def atom(self, i):
        """set of dimensions an atom depends on"""
        r = self.c.get(i)
        if r is None:
            r = set()
            for j in deep_atoms(P(ATOMS[i])):
                if j in self.own:
                    r.add(self.own[j])
                a = ATOMS[j]
                if a.kind == "sel" and a.args[0] == "g":
                    c = a.args[1][0].const()
                    if c is None:
                        r.add(-1)
                    else:
                        r.add(c)
            self.c[i] = r
        return r


def strides(g):
    s = []
    for d in range(g.nd):
        p = ONE
        for e in range(d + 1, g.nd):
            p = p * g.dims[e]
        s.append(p)
    return s


def decode_index(idx, g, cl, st):
    """idx = sum_d part_d * stride_d; returns the parts"""
    parts = [ZERO] * g.nd
    dimset = set(g.dimids)
    smono = {}
    for d in range(g.nd):
        (m, c), = st[d].t.items()
        smono[m] = d
    for m, c in idx.t.items():
        non = [i for i in m if i not in dimset]
        rest = tuple(i for i in m if i in dimset)
        if len(non) > 1:
            raise Unsupported("index term with a product of positions")
        if non:
            ds = cl.atom(non[0])
            if len(ds) != 1:
                raise Unsupported("index term mixes dimensions")
            (d,) = ds
            if rest not in smono:
                raise Fail("flat index", "position of dimension %d multiplied by %s" % (d, show(Poly({rest: 1}))))
            e = smono[rest]
            if e != d:
                raise Fail("flat index", "position of dimension %d has the stride of dimension %d" % (d, e))
            parts[d] = parts[d] + Poly({(non[0],): c})
        else:
            if rest not in smono:
                # offset n_d * stride_d = previous stride: ambiguous, give it to the dimension that has it
                raise Unsupported("index offset %s" % show(Poly({rest: c})))
            parts[smono[rest]] = parts[smono[rest]] + K(c)
    return parts


class Shape:
    """decoded result: window origins and weights per dimension"""

    def __init__(self):
        self.origin = []
        self.weights = []     # [dim][digit] Poly


def decode(val, g, width):
    cl = Classifier(g)
    st = strides(g)
    by = {}
    for m, p in mono_split(val).items():
        if len(m) != 1:
            if not m and not p.t:
                continue
            raise Fail("value shape", "result is not a linear combination of stored values")
        a = ATOMS[m[0]]
        if a.kind != "sel" or a.args[0] != "v":
            raise Unsupported("data atom " + repr(a))
        by[m[0]] = p
    if not by:
        raise Fail("value shape", "result does not depend on the stored values")
    N = g.nd
    dec = {}
    for i, c in by.items():
        dec[i] = decode_index(ATOMS[i].args[1][0], g, cl, st)
    # origin: subtract constants
    base = []
    for d in range(N):
        lin = None
        mn = None
        for p in dec.values():
            q = p[d] - K(p[d].c0())
            if lin is None:
                lin = q
            elif lin != q:
                raise Unsupported("window of dimension %d has no common origin" % d)
            c = p[d].c0()
            mn = c if mn is None or c < mn else mn
        base.append(lin + K(mn))
    coef = {}
    for i, p in dec.items():
        k = tuple((p[d] - base[d]).const() for d in range(N))
        if any(x < 0 or x >= width for x in k):
            raise Fail("window", "values used up to offset %s from the window origin" % (k,))
        coef[k] = by[i]
    sh = Shape()
    sh.origin = base
    # weights
    W = [[ZERO] * width for _ in range(N)]
    single = all(len(c.t) == 1 for c in coef.values())
    done = False
    if single and N >= 1:
        ok_ = True
        Wd = [dict() for _ in range(N)]
        for k, c in coef.items():
            (m, cc), = c.t.items()
            per = [[] for _ in range(N)]
            for i in m:
                ds = cl.atom(i)
                if len(ds) != 1:
                    ok_ = False
                    break
                per[next(iter(ds))].append(i)
            if not ok_ or cc != 1:
                ok_ = False
                break
            for d in range(N):
                q = Poly({tuple(per[d]): 1})
                w = Wd[d].setdefault(k[d], q)
                if w != q:
                    ok_ = False
            if not ok_:
                break
        if ok_:
            for d in range(N):
                for j, q in Wd[d].items():
                    W[d][j] = q
            done = True
    if not done:
        if N == 1:
            for k, c in coef.items():
                W[0][k[0]] = c
        else:
            for d in range(N):
                for k, c in coef.items():
                    W[d][k[d]] = W[d][k[d]] + c
    # the decoded weights have to reproduce every coefficient
    import itertools
    for k in itertools.product(range(width), repeat=N) if width ** N <= 70000 else coef:
        p = ONE
        for d in range(N):
            p = p * W[d][k[d]]
            if not p.t:
                break
        if p != coef.get(k, ZERO):
            raise Unsupported("weights do not factor over the dimensions")
    for d in range(N):
        for w in W[d]:
            for i in w.atoms():
                ds = cl.atom(i)
                if ds - {d}:
                    if d in ds or True:
                        raise Fail("weights", "weight of dimension %d depends on dimension %s" % (d, sorted(ds - {d})))
    for d in range(N):
        for i in base[d].atoms():
            if cl.atom(i) - {d}:
                raise Fail("origin", "window of dimension %d depends on dimension %s" % (d, cl.atom(i)))
    sh.weights = W
    return sh


# ------------------------------------------------------------- per-dimension normal form
def rename(terms_, bools, g, d):
    """rename dimension d to the canonical dimension"""
    env = {}
    n = var("n", True, g.lo, terms.IMAX_)
    for a, b in ((g.dims[d], n), (g.start[d], var("s", False)),
                 (g.step[d], P(terms._atom("var", "h", ("h",), False, 0, None))), (g.x[d], var("x", False))):
        if isinstance(a, Poly) and a.single_atom():
            env[a.single_atom().id] = b
    cache = {}

    def fix(t):
        return ren_sel(subst(t, env, cache), d, {})
    t2 = [fix(t) for t in terms_]
    b2 = [bren_sel(bsubst(b, env, cache), d, {}) for b in bools]
    return t2, b2


terms.IMAX_ = (1 << 62) - 1


def ren_sel(p, d, memo):
    """g[d, i] -> g[0, i] everywhere"""
    env = {}
    for i in deep_atoms(p):
        pass
    return _ren(p, d, memo)


def _ren(p, d, memo):
    out = ZERO
    for m, c in p.t.items():
        q = K(c)
        for i in m:
            q = q * _rena(i, d, memo)
        out = out + q
    return out


def _rena(i, d, memo):
    r = memo.get(i)
    if r is not None:
        return r
    a = ATOMS[i]
    k = a.kind
    if k == "var":
        r = P(a)
    elif k == "sel":
        idx = tuple(_ren(x, d, memo) for x in a.args[1])
        if a.args[0] == "g":
            idx = (ZERO,) + idx[1:]
        r = sel(a.args[0], idx, a.int, a.lo, a.hi, a.data)
    elif k == "uf":
        r = uf(a.args[0], tuple(_renx(x, d, memo) for x in a.args[1:]), a.int, a.lo, a.hi)
    elif k == "ite":
        r = terms.ite(bren_sel(a.args[0], d, memo), _ren(a.args[1], d, memo), _ren(a.args[2], d, memo))
    elif k == "floor":
        r = terms.floor(_ren(a.args[0], d, memo))
    elif k == "inv":
        r = terms.inv(_ren(a.args[0], d, memo))
    elif k == "div":
        r = terms.div(_ren(a.args[0], d, memo), _ren(a.args[1], d, memo))
    else:
        raise Unsupported("rename " + k)
    memo[i] = r
    return r


def _renx(x, d, memo):
    if isinstance(x, Poly):
        return _ren(x, d, memo)
    if isinstance(x, B):
        return bren_sel(x, d, memo)
    return x


def bren_sel(b, d, memo):
    key = ("b", b.id)
    if key in memo:
        return memo[key]
    k = b.k
    if k in ("le", "lt", "eq"):
        r = terms._cmp(k, _ren(b.a, d, memo))
    elif k == "not":
        r = Not(bren_sel(b.a, d, memo))
    elif k == "and":
        r = And(*[bren_sel(x, d, memo) for x in b.a])
    elif k == "or":
        r = Or(*[bren_sel(x, d, memo) for x in b.a])
    elif k == "any":
        n, lev, body = b.a
        r = Any(_ren(n, d, memo), bren_sel(body, d, memo), lev)
    else:
        r = b
    memo[key] = r
    return r


# ------------------------------------------------------------- leaves
def find_ite(ts):
    """an ite atom with an ite-free condition occurring in the terms, innermost first"""
    best = None
    for t in ts:
        for i in deep_atoms(t):
            a = ATOMS[i]
            if a.kind == "ite":
                if best is None or i < best:
                    # conditions were built before the atom; lower ids are inner
                    best = i
    return best


def cond_lits(c):
    """a literal of the condition to split on"""
    while c.k in ("and", "or", "not"):
        c = c.a if c.k == "not" else c.a[0]
    return c


def assume(ts, lit, hyps):
    """rewrite the ite atoms of ts whose condition is decided when lit holds"""
    nl = Not(lit)
    memo = {}

    def bs(b):
        if b is lit:
            return TRUE
        if b is nl:
            return FALSE
        k = b.k
        if k in ("T", "F", "var"):
            return b
        key = ("b", b.id)
        if key in memo:
            return memo[key]
        if k in ("le", "lt", "eq"):
            r = terms._cmp(k, ps(b.a))
            if r is lit:
                r = TRUE
            elif r is nl:
                r = FALSE
        elif k == "not":
            r = Not(bs(b.a))
        elif k == "and":
            r = And(*[bs(x) for x in b.a])
        elif k == "or":
            r = Or(*[bs(x) for x in b.a])
        else:
            r = b
        memo[key] = r
        return r

    def at(i):
        if i in memo:
            return memo[i]
        a = ATOMS[i]
        k = a.kind
        if k == "var":
            r = P(a)
        elif k == "ite":
            c = bs(a.args[0])
            if c is TRUE:
                r = ps(a.args[1])
            elif c is FALSE:
                r = ps(a.args[2])
            else:
                r = terms.ite(c, ps(a.args[1]), ps(a.args[2]))
        elif k == "sel":
            r = sel(a.args[0], tuple(ps(x) for x in a.args[1]), a.int, a.lo, a.hi, a.data)
        elif k == "uf":
            r = uf(a.args[0], tuple(ps(x) if isinstance(x, Poly) else x for x in a.args[1:]), a.int, a.lo, a.hi)
        elif k == "floor":
            r = terms.floor(ps(a.args[0]))
        elif k == "inv":
            r = terms.inv(ps(a.args[0]))
        elif k == "div":
            r = terms.div(ps(a.args[0]), ps(a.args[1]))
        else:
            raise Unsupported("split " + k)
        memo[i] = r
        return r

    def ps(p):
        out = None
        hit = False
        for i in p.atoms():
            if ATOMS[i].kind != "var":
                q = at(i)
                if q.single_atom() is not ATOMS[i]:
                    hit = True
        if not hit:
            return p
        out = ZERO
        for m, c in p.t.items():
            q = K(c)
            for i in m:
                q = q * at(i)
            out = out + q
        return out
    return [ps(t) for t in ts], bs


def leaves(ts, hyps, limit=400):
    """enumerate the feasible ite-free cases: [(terms, hyps)]"""
    out = []
    work = [(list(ts), list(hyps))]
    n = 0
    while work:
        ts, hy = work.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many cases")
        i = find_ite(ts)
        if i is None:
            out.append((ts, hy))
            continue
        c = ATOMS[i].args[0]
        lit = cond_lits(c)
        for l in (lit, Not(lit)):
            if prove(hy, Not(l)) == "valid":
                continue
            t2, bs = assume(ts, l, hy)
            h2 = [h for h in (bs(h) for h in hy) if h is not TRUE]
            if l not in h2:
                h2 = h2 + [l]
            work.append((t2, h2))
    return out


def positive(p, hyps, memo=None):
    """p > 0, structurally or by the solver"""
    if p.const() is not None:
        return p.const() > 0
    if prove(hyps, lt(ZERO, p)) == "valid":
        return True
    # every monomial positive
    for m, c in p.t.items():
        if c < 0:
            return False
        for i in m:
            a = ATOMS[i]
            if a.kind in ("div", "inv"):
                n, d = (a.args[0], a.args[1]) if a.kind == "div" else (ONE, a.args[0])
                if not (positive(n, hyps) and positive(d, hyps) or positive(-n, hyps) and positive(-d, hyps)):
                    return False
            elif a.kind == "ite":
                return False
            elif not positive(P(a), hyps):
                return False
    return True


def denominators_ok(ts, hyps):
    for t in ts:
        for i in deep_atoms(t):
            a = ATOMS[i]
            if a.kind in ("div", "inv"):
                d = a.args[1] if a.kind == "div" else a.args[0]
                if not positive(d, hyps) and not positive(-d, hyps):
                    return d
    return None


# ------------------------------------------------------------- specification
class Spec:
    """one dimension of the documented interpolants, over the grid's nodes"""

    def __init__(self, kind, n, x, s, h):
        self.kind, self.n, self.x, self.s, self.h = kind, n, x, s, h
        self.u = terms.div(x - s, h) if kind == "reg" else None

    def node(self, i):
        if self.kind == "reg":
            return self.s + self.h * i
        return sel("g", (ZERO, i), False)

    def ge(self, i):
        """x >= node(i)"""
        return le(i, self.u) if self.kind == "reg" else le(self.node(i), self.x)

    def le(self, i):
        return le(self.u, i) if self.kind == "reg" else le(self.x, self.node(i))

    def mid_ge(self, i):
        """x >= midpoint of nodes i, i+1"""
        if self.kind == "reg":
            return le(i + K(H), self.u)
        return le((self.node(i) + self.node(i + ONE)).scale(H), self.x)

    def mid_le(self, i):
        if self.kind == "reg":
            return le(self.u, i + K(H))
        return le(self.x, (self.node(i) + self.node(i + ONE)).scale(H))

    def linear(self, o):
        t = terms.div(self.x - self.node(o), self.node(o + ONE) - self.node(o))
        reg = And(le(ZERO, o), le(o, self.n - K(2)), Or(eq(o), self.ge(o)), Or(eq(o, self.n - K(2)), self.le(o + ONE)))
        return [("cell", reg, [ONE - t, t])]

    def nearest(self, o):
        n = self.n
        # ties either way
        reg = And(le(ZERO, o), le(o, n - ONE), Or(eq(o), self.mid_ge(o - ONE)), Or(eq(o, n - ONE), self.mid_le(o)))
        return [("node", reg, [ONE])]

    def cubic(self, o, lin):
        """lin: B or None"""
        p = [self.node(o + K(k)) for k in range(4)]
        return [(nm, rg, w) for nm, rg, w in cubic_classes(p, self.x, self, o, lin)]


def e4(k):
    return [ONE if j == k else ZERO for j in range(4)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsc(a, c):
    return [x * c for x in a]


def slope(p, a, b, c):
    """derivative at p[b] of the parabola through nodes a, b, c (weights on the 4 values)"""
    h0, h1 = p[b] - p[a], p[c] - p[b]
    i0, i1, i2 = inv(h0), inv(h1), inv(h0 + h1)
    w = [ZERO] * 4
    w[a] = -(h1 * i0 * i2)
    w[b] = (h1 - h0) * i0 * i1
    w[c] = h0 * i1 * i2
    return w


def hermite(x, pa, pb, ya, yb, sa, sb):
    """cubic Hermite interpolant on [pa, pb] with end values and slopes"""
    h = pb - pa
    t = (x - pa) * inv(h)
    t2 = t * t
    t3 = t2 * t
    h00 = t3.scale(2) - t2.scale(3) + ONE
    h10 = t3 - t2.scale(2) + t
    h01 = t2.scale(3) - t3.scale(2)
    h11 = t3 - t2
    return vadd(vadd(vsc(ya, h00), vsc(sa, h10 * h)), vadd(vsc(yb, h01), vsc(sb, h11 * h)))


def cubic_pieces(p, x):
    s1 = slope(p, 0, 1, 2)
    s2 = slope(p, 1, 2, 3)
    s0 = vadd(vsc(vadd(e4(1), vsc(e4(0), K(-1))), inv(p[1] - p[0]).scale(2)), vsc(s1, K(-1)))
    s3 = vadd(vsc(vadd(e4(3), vsc(e4(2), K(-1))), inv(p[3] - p[2]).scale(2)), vsc(s2, K(-1)))
    return {
        "interior": hermite(x, p[1], p[2], e4(1), e4(2), s1, s2),
        "first": hermite(x, p[0], p[1], e4(0), e4(1), s0, s1),
        "last": hermite(x, p[2], p[3], e4(2), e4(3), s2, s3),
        "lowlin": vadd(e4(0), vsc(s0, x - p[0])),
        "highlin": vadd(e4(3), vsc(s3, x - p[3])),
    }


def cubic_classes(p, x, sp, o, lin):
    n = sp.n
    w = cubic_pieces(p, x)
    rng = And(le(ZERO, o), le(o, n - K(4)))
    z, last = eq(o), eq(o, n - K(4))
    yield "interior", And(rng, sp.ge(o + ONE), sp.le(o + K(2))), w["interior"]
    yield "first", And(rng, z, sp.ge(o), sp.le(o + ONE)), w["first"]
    yield "last", And(rng, last, sp.ge(o + K(2)), sp.le(o + K(3))), w["last"]
    yield "low, cubic", And(rng, z, sp.le(o), Not(lin)), w["first"]
    yield "low, linearized", And(rng, z, sp.le(o), lin), w["lowlin"]
    yield "high, cubic", And(rng, last, sp.ge(o + K(3)), Not(lin)), w["last"]
    yield "high, linearized", And(rng, last, sp.ge(o + K(3)), lin), w["highlin"]


# ------------------------------------------------------------- per-dimension obligation
_dimcache = {}


def check_dim(method, kind, n, origin, weights, hyps, only=None, log=None):
    """proves the per-dimension contract; returns list of (case, class) discharged.
    only: restrict to points inside ('inside') or outside ('outside') the grid"""
    key = (method, kind, origin, tuple(weights), frozenset(h.id for h in hyps), only)
    r = _dimcache.get(key)
    if r is not None:
        if isinstance(r, Exception):
            raise r
        return r
    try:
        r = _check_dim(method, kind, n, origin, weights, hyps, only)
        _dimcache[key] = r
        return r
    except Fail as e:
        _dimcache[key] = e
        raise


def _check_dim(method, kind, n, origin, weights, hyps, only):
    sp = Spec(kind, n, var("x", False), var("s", False), P(terms._atom("var", "h", ("h",), False, 0, None)))
    hyps = list(hyps)
    if kind == "reg":
        hyps.append(lt(ZERO, sp.h))
    if only is not None:
        ins = And(sp.ge(ZERO), sp.le(n - ONE))
        hyps.append(ins if only == "inside" else Not(ins))
    lin = bvar("lin")
    done = []
    ls = leaves([origin] + list(weights), hyps)
    if not ls:
        raise Fail("vacuous", "no feasible case")
    for ts, hy in ls:
        o, ws = ts[0], ts[1:]
        bad = denominators_ok(ws, hy)
        if bad is not None:
            raise Fail("denominator", "division by %s may be a division by zero" % show(bad))
        cands = sp.linear(o) if method == "linear" else sp.nearest(o) if method == "nearest" else sp.cubic(o, lin)
        match = []
        for nm, reg, w in cands:
            # a class that cannot occur here needs no identity
            if all(ratzero(a - b) for a, b in zip(ws, w)):
                match.append((nm, reg))
        goal = Or(*[reg for _, reg in match])
        r = prove(hy, goal)
        if r != "valid":
            if not match:
                raise Fail("weights", "in the case %s the weights %s match no documented piece" %
                           ([str(h) for h in hy][:8], [show(cn(w))[:160] for w in ws]))
            raise Fail("cell", "the case %s is not the documented one (%s): %s" %
                       ([str(h) for h in hy][:8], [nm for nm, _ in match], r))
        done.append([nm for nm, _ in match])
    return done


def plain(ts, bs):
    """names the numbers left over from loops in order, so that equal cases are the same term"""
    env = {}
    for x in list(ts) + list(bs):
        for i in sorted(deep_atoms(x)):
            a = ATOMS[i]
            if a.kind == "var" and a.int and i not in env and "#" in str(a.args[0]):
                nm = "z%s_%s#%d" % ("n%d" % -a.lo if a.lo is not None and a.lo < 0 else a.lo, a.hi, len(env))
                env[i] = P(terms._atom("var", nm, (nm,), True, a.lo, a.hi))
    if not env:
        return ts, bs
    cache = {}
    return [subst(t, env, cache) for t in ts], [bsubst(b, env, cache) for b in bs]


WIDTH = {"linear": 2, "cubic": 4, "nearest": 1}


def dim_terms(g, pc, val, rec=None):
    """per dimension: (window origin, weights), path conditions; in canonical names"""
    if rec is not None and rec.top is not None:
        import rec as R
        sh = R.shape(rec, g, val, WIDTH[g.method])
    else:
        sh = decode(val, g, WIDTH[g.method])
    cl = Classifier(g)
    for d in range(g.nd):
        hy = []
        free = []
        used = set()
        for x in [sh.origin[d]] + sh.weights[d]:
            used |= deep_atoms(x)
        for h in pc:
            at_ = deep_atoms(h)
            ds = set()
            for i in at_:
                if i in cl.own:
                    ds.add(cl.own[i])
            if ds == {d}:
                hy.append(h)
                used |= at_
            elif not ds and at_:
                free.append((at_, h))
        # facts about numbers of no particular dimension (the state of a search loop)
        hy += [h for at_, h in free if at_ <= used]
        yield plain(*rename([sh.origin[d]] + sh.weights[d], hy, g, d))


def check_value(g, pc, val, only=None, rec=None):
    """whole contract of interp_one for one interpolator and dimension"""
    n = var("n", True, g.lo, terms.IMAX_)
    return [check_dim(g.method, g.kind, n, ts[0], ts[1:], bs, only) for ts, bs in dim_terms(g, pc, val, rec)]
