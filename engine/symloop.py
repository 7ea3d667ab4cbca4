"""Loops whose trip count is symbolic: the invariant is generalised from the
first iterations and checked to be inductive; it then covers every iteration.

Invariant at the start of iteration k (k fresh, k >= 0): every live cell is
either unchanged, affine in k, an array whose only changes are one element per
iteration at an index affine in k, or forgotten; and every earlier iteration j
satisfied the condition C(j) under which the body reaches its back edge."""
from fractions import Fraction
from terms import *
import terms
import exec as X
from exec import (Agg, En, Ptr, Base, St, IMAX, TOP, SArr, Store, Fill, Lam, AIte, Prefix, PIte, VecV, Tok,
                  LoopCtx, vsubst, vatoms, vsame, UNDEF)

POISON = Tok("POISON")
_tag = [0]
DEBUG = False


class Retry(Exception):
    pass


def same_prefix(a, h):
    return isinstance(a, Prefix) and isinstance(h, Prefix) and (a is h or a.tag == h.tag)


class Gen:
    def __init__(self, ex, st, kap):
        self.ex = ex
        self.st = st
        self.kap = kap
        self.poison = set()
        self.ranged = {}
        self.tag = {}
        self.rng = {}
        self.vars = {}          # path -> (value this iteration, initial value)
        self.dropped = set()    # candidate invariants found not inductive
        self.preds = []         # conditions on one array element, as functions of its index

    def gen(self, path, a, b):
        """value at iteration kap from its values at iterations 0 (a) and 1 (b)"""
        if path in self.poison:
            return POISON
        if (a is b or (not isinstance(a, (Poly, B)) and vsame(a, b))) and not any(q[:len(path)] == path for q in self.poison):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a == b:
                return a
            if path in self.ranged:
                # any value of its range, the same for the whole iteration
                lo, hi = self.ranged[path]
                if not self.ex.prover(self.ex, self.st, And(le(K(lo), a), le(a, K(hi)))):
                    return POISON
                r = fresh("inv", True, lo, hi)
                self.vars[path] = (r, a)
                self.rng[r.single_atom().id] = (lo, hi)
                return r
            d = b - a
            if a.is_int() and d.const() is None:
                return self.forget(path, a, b)
            return a + d * self.kap
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return Agg(tuple(self.gen(path + (i,), x, y) for i, (x, y) in enumerate(zip(a.f, b.f))))
        if isinstance(a, En) and isinstance(b, En) and a.d == b.d:
            v = {}
            for k in a.v:
                if k in b.v and len(a.v[k]) == len(b.v[k]):
                    v[k] = tuple(self.gen(path + (("v", k), i), x, y) for i, (x, y) in enumerate(zip(a.v[k], b.v[k])))
            return En(a.d, v)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and X.samecell(a.cell, b.cell) and len(a.path) == len(b.path) \
                and (a.sl is None) == (b.sl is None):
            ps = []
            for i, (x, y) in enumerate(zip(a.path, b.path)):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    if x != y:
                        return POISON
                    ps.append(x)
                    continue
                px = x if isinstance(x, Poly) else K(x)
                py = y if isinstance(y, Poly) else K(y)
                if px == py:
                    ps.append(x)
                    continue
                g = self.gen(path + ("p", i), px, py)
                if g is POISON:
                    return POISON
                ps.append(g)
            sl = a.sl
            if sl is not None:
                sl = tuple(self.gen(path + ("sl", i), x, y) for i, (x, y) in enumerate(zip(a.sl, b.sl)))
                if POISON in sl:
                    return POISON
            return Ptr(a.cell, tuple(ps), sl)
        if isinstance(a, Agg) and isinstance(b, SArr):
            return POISON
        if isinstance(a, SArr) and isinstance(b, SArr):
            if a.n != b.n:
                return POISON
            if self.opaque(a) and self.opaque(b):
                return a
            if self.has_store(b, a):
                return self.prefix(path, a)
            return POISON
        return POISON

    def prefix(self, path, a):
        t = self.tag.get(path)
        if t is None:
            _tag[0] += 1
            t = self.tag[path] = Prefix(a, "L%d" % _tag[0])
        return t

    def has_store(self, b, a):
        if isinstance(b, AIte):
            return all(self.has_store(x, a) or vsame(x, a) for x in (b.x, b.y))
        while isinstance(b, Store):
            b = b.b
            if b is a or vsame(b, a):
                return True
        return False

    def opaque(self, a):
        """every element is an arbitrary number (safety mode)"""
        if self.ex.mode != "havoc":
            return False
        try:
            while isinstance(a, Store):
                if a.v is not TOP:
                    return False
                a = a.b
            if isinstance(a, (Base, Fill, Lam, Prefix)):
                return self.ex.sget(self.st, a, ZERO) is TOP
        except Unsupported:
            return False
        return False

    # ---------------------------------------------------------------- candidate invariants
    def cands(self):
        """(key, function of the values) for the integers that are not affine in the iteration"""
        ps = [p for p in self.ranged if p in self.vars]
        if not ps or len(ps) > 4:
            return []
        ini = {p: self.vars[p][1] for p in ps}
        out = []

        def put(key, f):
            if key not in self.dropped:
                out.append((key, f))
        ws = []
        for p in ps:
            put((p, "ge"), lambda v, p=p: le(ini[p], v[p]))
            put((p, "le"), lambda v, p=p: le(v[p], ini[p]))
            put((p, "pos"), lambda v, p=p: le(ONE, v[p]))
            put((p, "nn"), lambda v, p=p: le(ZERO, v[p]))
            ws.append(((p,), ini[p], lambda v, p=p: v[p]))
        for x, p in enumerate(ps):
            for q in ps[:x]:
                put((p, q, "le"), lambda v, p=p, q=q: le(v[p], v[q]))
                put((q, p, "le"), lambda v, p=p, q=q: le(v[q], v[p]))
                put((p, q, "sle"), lambda v, p=p, q=q: le(v[p] + v[q], ini[p] + ini[q]))
                put((p, q, "sge"), lambda v, p=p, q=q: le(ini[p] + ini[q], v[p] + v[q]))
                ws.append(((p, q), ini[p] + ini[q], lambda v, p=p, q=q: v[p] + v[q]))
        for n, pr in enumerate(self.preds):
            for key, i0, w in ws:
                for d in (0, 1):
                    for neg in (0, 1):
                        def f(v, pr=pr, i0=i0, w=w, d=d, neg=neg):
                            x = w(v)
                            t = at(pr, x - K(d))
                            return Or(eq(x, i0), Not(t) if neg else t)
                        put((n, key, d, neg), f)
        return out

    def values(self, m):
        """the tracked integers in a state"""
        out = {}
        for p in self.vars:
            v = m.get(p[0])
            for i in p[1:]:
                if isinstance(i, tuple) and isinstance(v, En):
                    v = v.v.get(i[1])
                elif isinstance(i, int) and isinstance(v, Agg) and i < len(v.f):
                    v = v.f[i]
                elif isinstance(i, int) and isinstance(v, tuple) and i < len(v):
                    v = v[i]
                else:
                    v = None
                if v is None:
                    break
            if not isinstance(v, Poly):
                return None
            out[p] = v
        return out

    def keep(self, st, m):
        """drop the candidates that do not hold in state st (values from m)"""
        cs = self.cands()
        if not cs:
            return
        v = self.values(m)
        n = len(self.dropped)
        for key, f in cs:
            if v is None:
                self.dropped.add(key)
                continue
            b = f(v)
            if b is not TRUE and (b is FALSE or not self.ex.prover(self.ex, st, b)):
                self.dropped.add(key)
        if len(self.dropped) > n:
            raise Retry()

    def learn(self, pcs, names):
        """predicates of one array element at an index the loop computes"""
        k = bound(7)
        for pc in pcs:
            for l in pc:
                l = l.a if l.k == "not" else l
                if l.k not in ("le", "lt", "eq") or l.a.is_int():
                    continue
                at_ = deep_atoms(l)
                if not names & at_:
                    continue
                sels = [i for i in l.a.atoms() if ATOMS[i].kind == "sel" and names & deep_atoms(P(ATOMS[i]))]
                if len(sels) != 1 or len(self.preds) >= 2:
                    continue
                a = ATOMS[sels[0]]
                r = bsubst(l, {sels[0]: sel(a.args[0], a.args[1][:-1] + (k,), a.int, a.lo, a.hi, a.data)}, {})
                if names & deep_atoms(r):
                    continue
                if not any(r is q or r is Not(q) for q in self.preds):
                    self.preds.append(r)
                    raise Retry()

    def located(self, s):
        """the values at exit that are the first index where a predicate fails"""
        env = {}
        if not self.preds:
            return env
        sp = self.ex.prover
        ns = []
        for _, i0 in self.vars.values():
            if i0 not in ns and i0.const() is None:
                ns.append(i0)
        used = set()
        for v in s.m.values():
            vatoms(v, used)
        for r, _ in self.vars.values():
            i = r.single_atom().id
            if i not in used:
                continue
            for pr in self.preds:
                for q in (pr, Not(pr)):
                    for n in ns:
                        pp = uf("pp", (q, ZERO, n), True, 0, IMAX)
                        for t in (pp, pp - ONE):
                            if i not in env and sp(self.ex, s, eq(r, t)):
                                env[i] = t
        return env

    # ---------------------------------------------------------------- inductiveness
    def agree(self, path, h, want, got, arrs):
        """got (end of body) equals want = h[k+1]; records array updates"""
        if h is POISON:
            return
        if isinstance(h, Prefix) and same_prefix(got, h) and not same_prefix(self.tag.get(path), h):
            return      # an enclosing loop's array, not written here
        if isinstance(h, Prefix):
            if isinstance(got, Store) and same_prefix(got.b, h):
                arrs[path] = (h, got.i, got.v)
                return
            if same_prefix(got, h):
                self.bad(path)
            if isinstance(got, Store):
                raise Unsupported("several array elements written per iteration: [%s] of %s" % (show(got.i), type(got.b).__name__ + (" " + show(got.b.i) if isinstance(got.b, Store) else "")))
            # some iterations may skip the write
            if isinstance(got, AIte):
                r = self.cond_store(h, got)
                if r is not None:
                    arrs[path] = (h,) + r
                    return
            raise Unsupported("array update in a loop")
        if isinstance(h, Poly) and isinstance(got, Poly) and path in self.ranged:
            lo, hi = self.ranged[path]
            if self.ex.prover(self.ex, self.cur, And(le(K(lo), got), le(got, K(hi)))):
                return
            self.poison.add(path)
            raise Retry()
        if isinstance(h, (Poly, B)):
            if want == got:
                return
            if isinstance(want, Poly) and isinstance(got, Poly) and self.ex.prover(self.ex, self.cur, eq(want, got)):
                return
            self.bad(path, h)
        if isinstance(h, Agg):
            if isinstance(got, Agg) and len(got.f) == len(h.f):
                for i, (x, y, z) in enumerate(zip(h.f, want.f, got.f)):
                    self.agree(path + (i,), x, y, z, arrs)
                return
            self.bad(path)
        if isinstance(h, En):
            if isinstance(got, En) and got.d == h.d:
                for k in h.v:
                    if k not in got.v or len(got.v[k]) != len(h.v[k]):
                        self.bad(path)
                    for i, (x, y, z) in enumerate(zip(h.v[k], want.v[k], got.v[k])):
                        self.agree(path + (("v", k), i), x, y, z, arrs)
                return
            self.bad(path)
        if isinstance(h, SArr) and isinstance(got, SArr) and self.opaque(h) and self.opaque(got):
            return
        if vsame(want, got):
            return
        self.bad(path)

    def cond_store(self, h, a):
        """AIte tree of one store at a fixed index on the same prefix: (index, value)"""
        if isinstance(a, Store) and same_prefix(a.b, h):
            return a.i, a.v
        if isinstance(a, AIte):
            x = self.cond_store(h, a.x)
            y = self.cond_store(h, a.y)
            if x is not None and y is not None and x[0] == y[0]:
                return x[0], self.ex.ite(a.c, x[1], y[1])
        return None

    def forget(self, path, a, b):
        """an integer that is not affine: keep only its range, if there is one"""
        la, ha = terms.iv(a)
        lb, hb = terms.iv(b)
        if None in (la, lb) or min(la, lb) < X.IMIN:
            return POISON
        if min(la, lb) >= 0:
            lo, hi = 0, X.UMAX
        else:
            lo, hi = X.IMIN, X.IMAX
        self.ranged[path] = (lo, hi)
        return self.gen(path, a, b)

    def bad(self, path, h=None):
        if isinstance(h, Poly) and h.is_int() and path not in self.ranged:
            l, u = terms.iv(h)
            self.ranged[path] = (0, X.UMAX) if l is not None and l >= 0 else (X.IMIN, X.IMAX)
            raise Retry()
        if DEBUG:
            print('poison', path)
        self.poison.add(path)
        raise Retry()


def choices(v):
    """the literals a value depends on"""
    out = []
    for i in sorted(deep_atoms(v)):
        if ATOMS[i].kind == "ite":
            st = [ATOMS[i].args[0]]
            while st:
                c = st.pop()
                if c.k in ("and", "or"):
                    st.extend(c.a)
                elif c.k == "not":
                    st.append(c.a)
                elif c not in out:
                    out.append(c)
    return out


def at(pr, i):
    return bsubst(pr, {bound(7).single_atom().id: i}, {})


def fresh_after(b, m):
    """does the literal mention names created after mark m"""
    mi, mb = m
    at = deep_atoms(b)
    for i in at:
        a = ATOMS[i]
        if a.kind == "var" and "#" in a.args[0] and int(a.args[0].rsplit("#", 1)[1]) > mi:
            return True
    for i in X.bools_in(b, set()):
        n = str(terms.BS[i].a)
        if "#" in n and int(n.rsplit("#", 1)[1]) > mb:
            return True
    return False


def maxlev(bs):
    """largest quantifier level used"""
    m = -1
    st = list(bs)
    seen = set()
    while st:
        b = st.pop()
        if not isinstance(b, B):
            if isinstance(b, Poly):
                for i in b.atoms():
                    if i not in seen:
                        seen.add(i)
                        for z in ATOMS[i].args:
                            st.extend(z) if isinstance(z, tuple) else st.append(z)
            continue
        if ("b", b.id) in seen:
            continue
        seen.add(("b", b.id))
        if b.k == "any":
            m = max(m, b.a[1])
            st.append(b.a[2])
            st.append(b.a[0])
        elif b.k in ("and", "or", "ufb"):
            st.extend(x for x in b.a if isinstance(x, (B, Poly)))
        elif b.k in ("le", "lt", "eq", "not"):
            st.append(b.a)
    return m


def split_pc(base, pc):
    """literals of pc beyond base"""
    n = 0
    for x, y in zip(base, pc):
        if x is not y:
            break
        n += 1
    if n == len(base):
        return pc[n:]
    bs = set(base)
    return tuple(x for x in pc if x not in bs)


def run(ex, fr, el, heads, inbox, rets):
    if len(heads) < 2:
        raise Unsupported("symbolic loop without a second iteration")
    head, body = el[1], el[2]
    h0, h1 = heads[0], heads[1]
    kap = fresh("k", True, 0, IMAX)
    kid = kap.single_atom().id
    g = Gen(ex, h0, kap)
    nf = len(ex.facts)
    mk = ex.obl.mark() if ex.obl is not None else None
    nl = len(ex.loops)
    depth = ex.depth

    def headstate(extra):
        m = {}
        for k, v in h0.m.items():
            if k in h1.m:
                w = g.gen((k,), v, h1.m[k])
                if w is not POISON:
                    m[k] = w
        st = St(m, h0.pc)
        if g.ranged:
            g.keep(St(h0.m, h0.pc), h0.m)
            now = {p: r for p, (r, _) in g.vars.items()}
            extra = tuple(extra) + tuple(x for x in (f(now) for _, f in g.cands()) if x is not TRUE)
        for l in extra:
            s = st.cond(l)
            if s is None:
                raise Unsupported("contradictory loop invariant")
            st = s
        return st

    def body_once(st):
        ib, rt = {head: [st]}, []
        ctx = LoopCtx(fr.fn, head, fr, True)
        ex.loops.append(ctx)
        try:
            ex.loop_body(fr, body, ib, rt)
        finally:
            del ex.loops[nl:]
            ex.depth = depth
        return ib, rt

    for _ in range(40):
        del ex.facts[nf:]
        if mk is not None:
            ex.obl.reset(mk)
        try:
            marks = (terms._fresh[0], terms._fb[0])
            # pass 1: what the body does, and the condition of reaching the next iteration
            st = headstate(())
            hv = dict(st.m)
            hpc = st.pc
            ib, rt = body_once(st)
            nxt = ib.pop(head, None)
            if not nxt:
                raise Unsupported("loop body never repeats")
            if g.vars and ex.mode == "real":
                names = {r.single_atom().id for r, _ in g.vars.values()}
                for i in deep_atoms(And(*[l for s in nxt for l in s.pc])):
                    # numbers computed from them in the body
                    a = ATOMS[i]
                    if a.kind == "var" and a.int and "#" in a.args[0] and int(a.args[0].rsplit("#", 1)[1]) > marks[0]:
                        names.add(i)
                g.learn([split_pc(hpc, s.pc) for s in nxt] + [choices(v) for s in nxt for v in (g.values(s.m) or {}).values()], names)
            lits = None
            for s in nxt:
                c = And(*[l for l in split_pc(hpc, s.pc) if not fresh_after(l, marks)])
                lits = c if lits is None else Or(lits, c)
            if lits is FALSE:
                raise Unsupported("contradictory loop condition")
            conj = list(lits.a) if lits.k == "and" else ([] if lits is TRUE else [lits])
            conj = [l for l in conj if kid in deep_atoms(l) or l not in h0.pc]
            extra, mono, rest = [], [], []
            h0st = St(h0.m, h0.pc)
            for l in conj:
                if l.k in ("le", "lt"):
                    p = l.a
                    c = p.t.get((kid,), 0)
                    q = p - kap.scale(c)
                    if c > 0 and kid not in deep_atoms(q):
                        x = terms._cmp(l.k, p - K(c))
                        z = terms._cmp(l.k, q - K(c))
                        if z is not TRUE and not ex.prover(ex, h0st, z):
                            x = Or(le(kap, ZERO), x)
                            mono.append((l, None))
                        else:
                            mono.append((l, ONE - (q.scale(1 / Fraction(c)) if c != 1 else q) if l.k == "le" and c == 1 else None))
                        extra.append(x)
                        continue
                if kid not in deep_atoms(l):
                    # constant condition: held if there was an earlier iteration
                    extra.append(Or(le(kap, ZERO), l))
                    continue
                rest.append(l)
            if rest:
                lev = 1 + maxlev(rest)
                bv = bound(lev)
                extra.append(Not(Any(kap, bsubst(Or(*[Not(l) for l in rest]), {kid: bv}), lev)))
            # pass 2: the inductive step and the real outcomes
            del ex.facts[nf:]
            if mk is not None:
                ex.obl.reset(mk)
            st = headstate(tuple(e for e in extra if e is not TRUE))
            hv = dict(st.m)
            ib, rt = body_once(st)
            nxt = ib.pop(head, None)
            arrs = {}
            if nxt:
                for s in nxt:
                    g.cur = s
                    if g.ranged:
                        g.keep(s, s.m)
                    a2 = {}
                    for k, h in hv.items():
                        if k not in s.m:
                            g.bad((k,))
                        w = vsubst(h, {kid: kap + ONE}, {}) if not isinstance(h, SArr) else h
                        g.agree((k,), h, w, s.m[k], a2)
                    for p, x in a2.items():
                        if p in arrs:
                            arrs[p].append((s, x))
                        else:
                            arrs[p] = [(s, x)]
            lams = {}
            for p, l in arrs.items():
                if nxt and len(l) != len(nxt):
                    raise Unsupported("array not written on every path of a loop")
                s0, (h, i, v) = l[0]
                for s, (_, i2, v2) in l[1:]:
                    if i2 != i:
                        raise Unsupported("different elements written on different paths")
                    c = And(*split_pc(st.pc, s.pc))
                    v = ex.ite(c, v2, v)
                lo = i - kap
                if kid in deep_atoms(lo):
                    raise Unsupported("loop writes elements with a stride")
                if any(isinstance(x, Prefix) for x in [v]):
                    raise Unsupported("nested array values")
                if fresh_in(v, marks):
                    if ex.mode == "havoc" and (isinstance(v, B) or isinstance(v, Poly) and v.is_int()):
                        # contents forgotten
                        kind = "B"
                        if isinstance(v, Poly):
                            a, b = terms.iv(v)
                            if a is None or b is None or a < 0 or b > X.UMAX:
                                raise Unsupported("loop writes integers of unknown range")
                            kind = "U"
                        _tag[0] += 1
                        lams[h.tag] = X.Base("forgot%d" % _tag[0], (), kind, h.n)
                        continue
                    raise Unsupported("loop writes values that are not a function of the iteration")
                lams[h.tag] = (h.b, lo, v)
            break
        except Retry:
            continue
    else:
        raise Unsupported("no inductive invariant found")

    # outcomes: exits of the loop (other blocks) and returns
    def final(s):
        k2 = kap
        loc = g.located(s) if g.vars and ex.mode == "real" else {}
        for l, lim in mono:
            if lim is not None and Not(l) in s.pc:
                k2 = lim
                break
        env = {kid: k2}
        env.update(loc)
        cache = {}

        def fin(v):
            v = reprefix(v, lams, kap, kid)
            return v if k2 is kap and not loc else vsubst(v, env, cache)
        m = {}
        for k, v in s.m.items():
            m[k] = fin(v)
        pc = s.pc
        if k2 is not kap or loc:
            out = []
            for l in pc:
                r = bsubst(l, env, cache)
                if r is TRUE:
                    continue
                if r is FALSE:
                    return None
                for x in (r.a if r.k == "and" else (r,)):
                    if x not in out:
                        out.append(x)
            pc = tuple(out)
        return St(m, pc)

    for b, ss in ib.items():
        for s in ss:
            f = final(s)
            if f is not None:
                inbox.setdefault(b, []).append(f)
    for s in rt:
        f = final(s)
        if f is not None:
            rets.append(f)


def fresh_in(v, marks):
    at = set()
    vatoms(v, at)
    mi, mb = marks
    for i in at:
        a = ATOMS[i]
        if a.kind == "var" and "#" in a.args[0] and int(a.args[0].rsplit("#", 1)[1]) > mi:
            return True
    for i in X.bools_in(v, set()):
        n = str(terms.BS[i].a)
        if "#" in n and int(n.rsplit("#", 1)[1]) > mb:
            return True
    return False


def reprefix(v, lams, kap, kid):
    """replace the generalised arrays by their contents"""
    if not lams:
        return v
    if isinstance(v, Prefix):
        l = lams.get(v.tag)
        if l is None:
            return v
        if isinstance(l, X.Base):
            return l
        b, lo, body = l
        return Lam(b, lo, kap, kid, body)
    if isinstance(v, Store):
        return Store(reprefix(v.b, lams, kap, kid), v.i, v.v)
    if isinstance(v, AIte):
        return AIte(v.c, reprefix(v.x, lams, kap, kid), reprefix(v.y, lams, kap, kid))
    if isinstance(v, Lam):
        return Lam(None if v.b is None else reprefix(v.b, lams, kap, kid), v.lo, v.cnt, v.var, v.body, v.n)
    if isinstance(v, Agg):
        return Agg(tuple(reprefix(x, lams, kap, kid) for x in v.f))
    if isinstance(v, En):
        return En(v.d, {k: tuple(reprefix(x, lams, kap, kid) for x in f) for k, f in v.v.items()})
    return v
