"""Back end: discharges verification conditions with z3, after exact polynomial
preprocessing.  Non-linear monomials are opaque to z3; facts about products are
supplied as instances of proved arithmetic lemmas."""
import time
from fractions import Fraction
import z3
from terms import *
import terms

STAT = {"z3": 0, "z3_time": 0.0, "trivial": 0, "poly": 0, "sat": 0, "unknown": 0}
SORTED = set()       # names (array, prefix) of strictly increasing arrays: name -> sorted on last index
DIMLIKE = set()      # atoms known to be >= 1 (grid sizes)


def cancel(p):
    """a * inv(a) = 1 in monomials (denominators are non-zero by precondition)"""
    out = None
    for m, c in p.t.items():
        inv_args = {}
        for i in m:
            a = ATOMS[i]
            if a.kind == "inv":
                s = a.args[0].single_atom()
                if s is not None and s.id in m:
                    inv_args.setdefault(i, s.id)
        if inv_args:
            out = True
            break
    if out is None:
        return p
    acc = {}
    for m, c in p.t.items():
        l = list(m)
        ch = True
        while ch:
            ch = False
            for i in l:
                a = ATOMS[i]
                if a.kind == "inv":
                    s = a.args[0].single_atom()
                    if s is not None and s.id in l:
                        l.remove(i)
                        l.remove(s.id)
                        ch = True
                        break
        k = tuple(l)
        v = norm(acc.get(k, 0) + c)
        if v == 0:
            acc.pop(k, None)
        else:
            acc[k] = v
    return Poly(acc)


def cn(p):
    return cancel(canon(p))


def ratzero(p):
    """p == 0 as a rational function (all denominators non-zero)"""
    p = cn(p)
    if not p.t:
        return True
    for _ in range(40):
        # pick an inv atom and clear it
        invs = {}
        for m in p.t:
            for i in set(m):
                if ATOMS[i].kind == "inv":
                    invs[i] = max(invs.get(i, 0), m.count(i))
        if not invs:
            return not p.t
        # clear the inv atom of largest id first (outermost)
        i = max(invs)
        e = invs[i]
        d = ATOMS[i].args[0]
        pw = [ONE]
        for _k in range(e):
            pw.append(cancel(cn(pw[-1] * d)))
        groups = {}
        for m, c in p.t.items():
            k = m.count(i)
            r = tuple(x for x in m if x != i)
            g = groups.setdefault(k, {})
            g[r] = norm(g.get(r, 0) + c)
        q = ZERO
        for k, t in groups.items():
            q = q + Poly({m: c for m, c in t.items() if c != 0}) * pw[e - k]
        p = cancel(q)
        if not p.t:
            return True
    return False


def multi_inv(p):
    """an inverse of a sum occurring linearly in p, outermost first"""
    best = None
    for m in p.t:
        for i in set(m):
            a = ATOMS[i]
            if a.kind == "inv" and len(a.args[0].t) > 1:
                if m.count(i) > 1:
                    return None
                if best is None or i > best:
                    best = i
    return best


class Tr:
    """translation context to z3"""

    def __init__(self, ranges=True):
        self.av = {}
        self.mv = {}
        self.bv = {}
        self.ax = []
        self.pc = {}
        self.sels = {}
        self.monos = set()
        self.pending = []

    def atom(self, i):
        v = self.av.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        if a.kind == "ite":
            c = self.b(a.args[0])
            x, y = self.p(a.args[1]), self.p(a.args[2])
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            v = z3.If(c, x, y)
            self.av[i] = v
            return v
        v = z3.Int("a%d" % i) if a.int else z3.Real("a%d" % i)
        self.av[i] = v
        if a.lo is not None:
            self.ax.append(v >= self.num(a.lo, a.int))
        if a.hi is not None:
            self.ax.append(v <= self.num(a.hi, a.int))
        if a.kind == "floor":
            x = self.p(cn(a.args[0]))
            if x.sort() == z3.IntSort():
                self.ax.append(v == x)
            else:
                self.ax.append(z3.And(z3.ToReal(v) <= x, x < z3.ToReal(v) + 1))
        elif a.kind == "inv":
            d = a.args[0]
            # d * inv(d) = 1
            q = P(a) * d
            self.ax.append(self.rp(q) == 1)
            s = self.p(d)
            self.ax.append(z3.Implies(s > 0, v > 0))
            self.ax.append(z3.Implies(s < 0, v < 0))
        elif a.kind == "sel":
            key = (a.args[0], len(a.args[1]), a.args[1][:-1])
            self.pending.append((key, i))
        elif a.kind == "uf" and a.args[0] == "toint":
            x = self.p(a.args[1])
            self.ax.append(z3.Implies(z3.And(x >= a.lo, x <= a.hi), v == x))
        elif a.kind == "uf" and a.args[0] == "pp":
            pred, o, n = a.args[1:]
            kid = bound(7).single_atom().id
            r = P(a)
            self.ax.append(z3.And(v >= 0, v <= self.p(n)))
            self.ax.append(z3.Implies(v >= 1, self.b(bsubst(pred, {kid: r - ONE}))))
            self.ax.append(z3.Implies(v < self.p(n), z3.Not(self.b(bsubst(pred, {kid: r})))))
        return v

    def num(self, c, isint):
        if isint:
            return z3.IntVal(int(c))
        c = Fraction(c)
        return z3.RealVal(c)

    def mono(self, m):
        if len(m) == 1:
            return self.atom(m[0])
        v = self.mv.get(m)
        if v is not None:
            return v
        isint = all(ATOMS[i].int for i in m)
        v = z3.Int("m" + "_".join(map(str, m))) if isint else z3.Real("m" + "_".join(map(str, m)))
        self.mv[m] = v
        for i in m:
            self.atom(i)
        lo, hi = iv(Poly({m: 1}))
        if lo is not None:
            self.ax.append(v >= self.num(lo, isint))
        if hi is not None:
            self.ax.append(v <= self.num(hi, isint))
        self.monos.add(m)
        return v

    def p(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        q = cn(p)
        isint = q.is_int()
        out = []
        for m, c in q.t.items():
            if not m:
                out.append(self.num(c, isint))
                continue
            v = self.mono(m)
            if not isint and v.sort() == z3.IntSort():
                v = z3.ToReal(v)
            out.append(v if c == 1 else self.num(c, isint) * v)
        r = z3.Sum(out) if len(out) > 1 else out[0] if out else z3.IntVal(0)
        self.pc[p] = r
        return r

    def rp(self, p):
        """translate without canonicalising"""
        out = []
        for m, c in p.t.items():
            if not m:
                out.append(z3.RealVal(Fraction(c)))
                continue
            v = self.mono(m)
            if v.sort() == z3.IntSort():
                v = z3.ToReal(v)
            out.append(z3.RealVal(Fraction(c)) * v)
        return z3.Sum(out)

    def b(self, b, depth=0):
        r = self.bv.get(b.id)
        if r is not None:
            return r
        k = b.k
        if k == "T":
            r = z3.BoolVal(True)
        elif k == "F":
            r = z3.BoolVal(False)
        elif k in ("le", "lt", "eq"):
            q = cn(b.a)
            i = multi_inv(q)
            if i is not None and depth < 6:
                # sign of (a + b/d) is the sign of (a*d + b) times the sign of d
                d = ATOMS[i].args[0]
                num = ZERO
                for m, c in q.t.items():
                    if i in m:
                        num = num + Poly({tuple(x for x in m if x != i): c})
                    else:
                        num = num + Poly({m: c}) * d
                pos = terms._cmp(k, num)
                neg = terms._cmp(k, -num)
                sd = self.p(d)
                r = z3.If(sd > 0, self.b(pos, depth + 1), z3.If(sd < 0, self.b(neg, depth + 1), z3.Bool("u%d" % b.id)))
            else:
                x = self.p(b.a)
                r = x <= 0 if k == "le" else x < 0 if k == "lt" else x == 0
        elif k == "not":
            r = z3.Not(self.b(b.a))
        elif k == "and":
            r = z3.And([self.b(x) for x in b.a])
        elif k == "or":
            r = z3.Or([self.b(x) for x in b.a])
        elif k == "ufb" and all(isinstance(x, Poly) for x in b.a[1:]):
            # boolean function of numbers: congruent
            xs = [self.p(x) for x in b.a[1:]]
            f = z3.Function("B_%s_%d" % (b.a[0], len(xs)), *([x.sort() for x in xs] + [z3.BoolSort()]))
            r = f(*xs)
        else:
            r = z3.Bool("b%d" % b.id)
        self.bv[b.id] = r
        return r

    def finish(self):
        """axiom instances relating the atoms used"""
        groups = {}
        done = 0
        while done < len(self.pending):
            batch = self.pending[done:]
            done = len(self.pending)
            for key, i in batch:
                groups.setdefault(key, []).append(i)
            for key, ids in groups.items():
                if len(ids) > 14:
                    ids = ids[:14]
                srt = (key[0], key[2]) in SORTED or key[0] in SORTED
                for x in range(len(ids)):
                    for y in range(x):
                        a, b = ATOMS[ids[x]], ATOMS[ids[y]]
                        pa, pb = a.args[1][-1], b.args[1][-1]
                        d = pa - pb
                        c = d.const()
                        va, vb = self.atom(a.id), self.atom(b.id)
                        if c is not None:
                            if srt:
                                self.ax.append(va > vb if c > 0 else va < vb)
                            continue
                        za, zb = self.p(pa), self.p(pb)
                        self.ax.append(z3.Implies(za == zb, va == vb))
                        if srt:
                            self.ax.append(z3.Implies(za < zb, va < vb))
                            self.ax.append(z3.Implies(za > zb, va > vb))
        # products of integers at least one: divisors are smaller
        ms = [m for m in self.monos if all(ATOMS[i].int for i in m)]
        singles = set()
        for m in ms:
            for i in m:
                singles.add((i,))
        allm = list(set(ms) | singles)
        if len(allm) <= 60:
            for m in ms:
                for n in allm:
                    if len(n) < len(m):
                        rest = list(m)
                        ok = True
                        for i in n:
                            if i in rest:
                                rest.remove(i)
                            else:
                                ok = False
                                break
                        if ok and all((ATOMS[i].lo or 0) >= 0 and ATOMS[i].lo is not None for i in m):
                            # q*n with q >= k: m >= k*n
                            pre = [self.atom(i) >= 1 for i in set(rest) if ATOMS[i].lo < 1]
                            conc = self.mono(m) >= self.mono(n)
                            self.ax.append(z3.Implies(z3.And(pre), conc) if pre else conc)
                            zero = [self.atom(i) == 0 for i in set(rest) if ATOMS[i].lo < 1]
                            if zero:
                                self.ax.append(z3.Implies(z3.Or(zero), self.mono(m) == 0))


# ------------------------------------------------------------ quantified booleans
_anyc = {}


def contains_any(b):
    r = _anyc.get(b.id)
    if r is None:
        if b.k == "any":
            r = True
        elif b.k in ("and", "or"):
            r = any(contains_any(x) for x in b.a)
        elif b.k == "not":
            r = contains_any(b.a)
        else:
            r = False
        _anyc[b.id] = r
    return r


def has_any(hyps, goal):
    return contains_any(goal) or any(contains_any(h) for h in hyps)


def quant(hyps, goal):
    """skolemise existential and instantiate universal facts; sound: what is
    proved about the instances is proved"""
    hs = list(hyps) + [Not(goal)]

    def sk(b):
        if b.k == "any":
            n, lev, body = b.a
            k = var("sk%d" % b.id, True, 0, (1 << 63) - 1)
            return And(b, lt(k, n), sk(bsubst(body, {bound(lev).single_atom().id: k}, {})))
        if b.k == "and":
            return And(*[sk(x) for x in b.a]) if contains_any(b) else b
        if b.k == "or":
            return Or(*[sk(x) for x in b.a]) if contains_any(b) else b
        return b
    hs = [sk(h) for h in hs]

    def cands(hs):
        out = []
        at = set()
        for h in hs:
            at |= deep_atoms(h)
        for i in sorted(at):
            a = ATOMS[i]
            if a.kind == "sel" or a.kind == "uf":
                ix = a.args[1] if a.kind == "sel" else a.args[1:]
                for x in ix:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, Poly) and y.is_int() and y not in out:
                            out.append(y)
            elif a.kind == "var" and a.int and (a.args[0].startswith("sk") or "#" in a.args[0]):
                y = P(a)
                if y not in out:
                    out.append(y)
        bad = lambda y: any(ATOMS[i].kind == "var" and ATOMS[i].args[0].startswith("@k") for i in deep_atoms(y))
        return [y for y in out if not bad(y)][:24]

    def shifted(body, bid, T):
        """the indices at which the body mentions the elements at T"""
        sh = []
        for i in sorted(deep_atoms(body)):
            if ATOMS[i].kind == "sel":
                y = ATOMS[i].args[1][-1]
                if isinstance(y, Poly) and y.t.get((bid,)) == 1:
                    q = y - Poly({(bid,): 1})
                    if q.t and bid not in deep_atoms(q) and q not in sh:
                        sh.append(q)
        out = list(T)
        for q in sh[:2]:
            for t in T:
                if t - q not in out:
                    out.append(t - q)
        return out

    for _ in range(2):
        T = cands(hs)
        new = []

        def inst(b):
            if b.k == "not" and b.a.k == "any":
                n, lev, body = b.a.a
                bid = bound(lev).single_atom().id
                l = [b]
                for t in shifted(body, bid, T + [x for x in (n - ONE,) if x not in T]):
                    l.append(Or(lt(t, ZERO), le(n, t), sk(Not(bsubst(body, {bid: t}, {})))))
                return And(*l)
            if b.k in ("and", "or") and contains_any(b):
                l = [inst(x) for x in b.a]
                return And(*l) if b.k == "and" else Or(*l)
            return b
        hs = [inst(h) for h in hs]
    return hs, FALSE


_pcache = {}


def eliminate(hyps):
    """consequences of linear literals with the real unknowns eliminated (Fourier-Motzkin)"""
    lits = []
    for h in hyps:
        for l in (h.a if h.k == "and" else [h]):
            if l.k in ("le", "lt"):
                lits.append((l.k, cn(l.a)))
            elif l.k == "eq":
                q = cn(l.a)
                lits += [("le", q), ("le", -q)]
    reals = set()
    for _, q in lits:
        for m in q.t:
            if len(m) == 1 and not ATOMS[m[0]].int:
                reals.add(m[0])
    out = set()
    for r in reals:
        if any(r in m and len(m) > 1 for _, q in lits for m in q.t):
            continue
        low = [(k, q, -q.t[(r,)]) for k, q in lits if q.t.get((r,), 0) < 0]
        up = [(k, q, q.t[(r,)]) for k, q in lits if q.t.get((r,), 0) > 0]
        if len(low) * len(up) > 200:
            continue
        for k1, q1, c1 in low:
            for k2, q2, c2 in up:
                q = q1.scale(Fraction(1) / c1) + q2.scale(Fraction(1) / c2)
                # multiply out so that integer combinations are recognised
                q = q.scale(1 / terms.content(q)) if q.t else q
                b = terms._cmp("lt" if "lt" in (k1, k2) else "le", q)
                if b is not TRUE:
                    out.add(b)
    return sorted(out, key=lambda b: b.id)[:200]


def prove(hyps, goal, timeout=10000, want_model=False):
    """'valid', 'sat' or 'unknown' for: /\\ hyps ==> goal"""
    if goal is TRUE:
        STAT["trivial"] += 1
        return "valid"
    key = (frozenset(h.id for h in hyps), goal.id)
    if not want_model:
        r = _pcache.get(key)
        if r is not None:
            return r
    t0 = time.time()
    s = z3.SolverFor("QF_UFLIRA") if False else z3.Solver()
    s.set("timeout", min(timeout, 800))
    s.set("random_seed", 1)
    tr = Tr()
    if has_any(hyps, goal):
        hyps, goal = quant(hyps, goal)
    fs = [tr.b(h) for h in hyps]
    g = tr.b(goal)
    tr.finish()
    for f in fs:
        s.add(f)
    k = 0
    for a in tr.ax:
        s.add(a)
    s.add(z3.Not(g))
    r = s.check()
    STAT["z3"] += 1
    STAT["z3_time"] += time.time() - t0
    res = "valid" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
    if res == "unknown" and not want_model:
        # branch and bound can diverge when a real lies between integers: eliminate
        # the reals of the literal hypotheses and tighten what is left over the integers
        s2 = z3.Solver()
        s2.set("random_seed", 1)
        s2.add(s.assertions())
        n0 = len(tr.ax)
        for b in eliminate(list(hyps) + ([Not(goal)] if goal.k in ("le", "lt") else [])):
            s2.add(tr.b(b))
        for a in tr.ax[n0:]:
            s2.add(a)
        for lim in (800, timeout):
            s2.set("timeout", lim)
            r = s2.check()
            STAT["z3"] += 1
            if r != z3.unknown:
                break
        res = "valid" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
        STAT["z3_time"] += time.time() - t0
    if res != "valid":
        STAT[res] += 1
    if not want_model:
        _pcache[key] = res
        return res
    return res, (s.model() if r == z3.sat else None), tr


def relevant(facts, pc):
    """facts (pc, B) that hold in a state with path condition pc"""
    ps = set(pc)
    return [b for c, b in facts if all(x in ps for x in c)]


# ------------------------------------------------------------ non-linear bounds
_ub = {}


_hs = {}


def hset(hyps):
    k = tuple(h.id for h in hyps) if not isinstance(hyps, frozenset) else hyps
    r = _hs.get(k)
    if r is None:
        if len(_hs) > 64:
            _hs.clear()
        r = _hs[k] = frozenset(k)
    return r


def ubound(p, hyps, dims):
    """symbolic upper bound U (over the sizes in dims) with p <= U, or None"""
    hall = hset(hyps)
    for need, best in _ub.get(p, ()):
        if need <= hall:
            return best
    da = deep_atoms(p)
    hyps = [h for h in hyps if near(h, da, dims)]
    cand = [d for d in dims if d in da]
    for h in hyps:
        ha = deep_atoms(h)
        if any(i in ha for i in p.atoms()):
            cand += [d for d in dims if d in ha and d not in cand]
    best = None
    if all(c < 0 for m, c in p.t.items() if m) and prove(hyps, le(p, ZERO)) == "valid":
        best = ZERO
        cand = []
    for d in cand:
        for c in (4, 3, 2, 1):
            if prove(hyps, le(p, P(ATOMS[d]) - K(c))) == "valid":
                best = P(ATOMS[d]) - K(c)
                break
        if best is not None:
            break
    if best is None:
        hi = iv(p)[1]
        if hi is not None and hi < 64:
            best = K(hi)
        else:
            for c in (0, 1, 2, 3):
                if prove(hyps, le(p, K(c))) == "valid":
                    best = K(c)
                    break
    _ub.setdefault(p, []).append((frozenset(h.id for h in hyps), best))
    return best


_near = {}


def datoms(h):
    r = _near.get(h.id)
    if r is None:
        r = _near[h.id] = frozenset(deep_atoms(h))
    return r


def near(h, da, dims):
    """hypotheses about the atoms of da and at most one size not in it"""
    ha = datoms(h)
    out = [i for i in ha if i not in da]
    return len(out) < len(ha) and len(out) <= 1 and all(i in dims for i in out) or (
        len(ha) == 1 and all(i in dims for i in ha))


_dlo = {}


def dim_lo(i, hyps):
    r = _dlo.get((i, hset(hyps)))
    if r is None:
        hs = [h for h in hyps if datoms(h) == {i}]
        key = (i, hset(hyps))
        a = ATOMS[i]
        lo = a.lo
        for c in (4, 3, 2, 1):
            if lo is not None and c <= lo:
                break
            if prove(hs, le(K(c), P(a))) == "valid":
                lo = c
                break
        r = _dlo[key] = lo
    return r


def nonneg(p, hyps, dims):
    """prove p >= 0 for an integer polynomial: coefficients of each product of
    sizes are bounded by slack variables (mixed-radix argument)"""
    lo, _ = iv(p)
    if lo is not None and lo >= 0:
        return True
    groups = {}
    for m, c in p.t.items():
        dm = tuple(i for i in m if i in dims)
        rest = tuple(i for i in m if i not in dims)
        groups.setdefault(dm, {})[rest] = c
    out = ZERO
    nsl = 0
    for dm, g in groups.items():
        M = ONE
        for i in dm:
            M = M * P(ATOMS[i])
        c0 = g.get((), 0)
        v = Poly({r: c for r, c in g.items() if r})
        if v.t and (iv(v)[0] is None or iv(v)[0] < 0):
            u = ubound(-v, hyps, dims)
            if u is None:
                return False
            v = var("slack!%d" % nsl, True, 0, None) - u
            nsl += 1
        out = out + M * (v + K(c0))
    # sizes above their minimum
    env2 = {}
    for i in out.atoms():
        a = ATOMS[i]
        if i in dims:
            lo = dim_lo(i, hyps)
            if lo:
                env2[i] = K(lo) + var("above!%d" % i, True, 0, None)
    r = ZERO
    for m, c in out.t.items():
        t = K(c)
        for i in m:
            t = t * (env2[i] if i in env2 else P(ATOMS[i]))
        r = r + t
    lo, _ = iv(r)
    return lo is not None and lo >= 0
