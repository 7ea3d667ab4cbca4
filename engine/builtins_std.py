"""Contracts of the external functions the code calls: the opaque number type
(exact reals, or arbitrary results), slices, iterators, a few integer helpers."""
import re
from fractions import Fraction
from terms import *
import terms
import exec as X
from exec import (Agg, En, Ptr, PIte, Str, FnV, TOP, UNDEF, ANYSTR, VecV, Base, Store, Fill, Lam, AIte, Prefix, St,
                  UNIT, UMAX, IMAX, IMIN, SArr)

NONE = En(ZERO, {0: ()})


def some(v):
    return En(ONE, {0: (), 1: (v,)})


def ok(v):
    return En(ZERO, {0: (v,)})


def err(v):
    return En(ONE, {1: (v,)})


R_OPS = {"std::ops::Add": "add", "std::ops::Sub": "sub", "std::ops::Mul": "mul", "std::ops::Div": "div",
         "std::ops::Rem": "rem", "std::ops::Neg": "neg"}


class Builtins:
    def __init__(self, ex):
        self.x = ex
        self.cache = {}

    def find(self, fn):
        r = self.cache.get(fn.id, 0)
        if r == 0:
            r = self._find(fn)
            self.cache[fn.id] = r
        return r

    def _find(self, fn):
        df = fn.df
        n = fn.name
        if n.startswith("<vharness::r::R as ") or "r::R as " in n and n.startswith("<"):
            m = n[n.index(" as ") + 4:]
            meth = re.sub(r"::<.*$", "", m).split(">::")[-1]
            tr = m.split(">::")[0]
            h = getattr(self, "R_" + meth, None)
            if h is not None:
                return h
            return self._unsup("R::" + meth)
        if fn.intr is not None:
            h = getattr(self, "I_" + fn.intr, None)
            if h is not None:
                return h
        if "precondition_check" in df or "maybe_is_nonoverlapping" in df:
            return self.nop
        for pat, h in TABLE:
            if pat == df:
                return getattr(self, h)
        for pat, h in RTABLE:
            if re.fullmatch(pat, df):
                return getattr(self, h)
        if fn.body is None:
            if fn.krate in ("core", "std", "alloc"):
                if "panic" in df or "_fail" in df or "unwrap_failed" in df:
                    return self.panic
            return self._unsup("no body: " + df)
        return None

    def _unsup(self, what):
        def h(fn, args, st, fr, site, span):
            raise Unsupported(what)
        return h

    def nop(self, fn, a, st, fr, site, span):
        return [(st, UNIT)]

    def panic(self, fn, a, st, fr, site, span):
        self.x.must("panic:" + fn.df, fr, span, st, FALSE)
        return []

    # ---------------------------------------------------------------- numbers
    def deref(self, st, p):
        if isinstance(p, Ptr):
            return self.x.load(st, p.cell, p.path)
        if isinstance(p, PIte):
            return self.x.ite(p.c, self.deref(st, p.a), self.deref(st, p.b))
        return p

    def num(self, st, v):
        v = self.deref(st, v)
        while isinstance(v, (Ptr, PIte)):
            v = self.deref(st, v)
        return v

    def arith(self, f, st, *a):
        if self.x.mode == "havoc" or any(x is TOP for x in a):
            return [(st, TOP)]
        for x in a:
            if not isinstance(x, Poly):
                raise Unsupported("arithmetic on %r" % (x,))
        return [(st, f(*a))]

    def R_add(self, fn, a, st, *r):
        return self.arith(lambda x, y: x + y, st, *a)

    def R_sub(self, fn, a, st, *r):
        return self.arith(lambda x, y: x - y, st, *a)

    def R_mul(self, fn, a, st, *r):
        return self.arith(self.mul, st, *a)

    def mul(self, x, y):
        if self.x.unroll_mul is not None:
            return self.x.unroll_mul(x, y)
        return x * y

    def R_div(self, fn, a, st, fr, site, span):
        if self.x.mode != "havoc":
            d = a[1]
            if isinstance(d, Poly) and self.x.obl is not None:
                self.x.must("division by zero", fr, span, st, Not(eq(d)))
        return self.arith(terms.div, st, *a)

    def R_neg(self, fn, a, st, *r):
        return self.arith(lambda x: -x, st, *a)

    def R_mul_add(self, fn, a, st, *r):
        return self.arith(lambda x, y, z: self.mul(x, y) + z, st, *a)

    def R_floor(self, fn, a, st, *r):
        return self.arith(terms.floor, st, *a)

    def R_ceil(self, fn, a, st, *r):
        return self.arith(lambda x: -terms.floor(-x), st, *a)

    def R_trunc(self, fn, a, st, *r):
        return self.arith(lambda x: terms.ite(le(ZERO, x), terms.floor(x), -terms.floor(-x)), st, *a)

    def R_round(self, fn, a, st, *r):
        h = K(Fraction(1, 2))
        return self.arith(lambda x: terms.ite(le(ZERO, x), terms.floor(x + h), -terms.floor(h - x)), st, *a)

    def R_fract(self, fn, a, st, *r):
        return self.arith(lambda x: x - terms.ite(le(ZERO, x), terms.floor(x), -terms.floor(-x)), st, *a)

    def R_abs(self, fn, a, st, *r):
        return self.arith(lambda x: terms.ite(le(ZERO, x), x, -x), st, *a)

    def R_abs_sub(self, fn, a, st, *r):
        return self.arith(lambda x, y: terms.ite(le(x, y), ZERO, x - y), st, *a)

    def R_signum(self, fn, a, st, *r):
        return self.arith(lambda x: terms.ite(lt(x, ZERO), K(-1), ONE), st, *a)

    def R_recip(self, fn, a, st, *r):
        return self.arith(lambda x: terms.div(ONE, x), st, *a)

    def R_min(self, fn, a, st, *r):
        return self.arith(lambda x, y: terms.ite(le(x, y), x, y), st, *a)

    def R_max(self, fn, a, st, *r):
        return self.arith(lambda x, y: terms.ite(le(y, x), x, y), st, *a)

    def R_clamp(self, fn, a, st, *r):
        return self.arith(lambda x, l, h: terms.ite(lt(x, l), l, terms.ite(lt(h, x), h, x)), st, *a)

    def R_powi(self, fn, a, st, *r):
        n = a[1].const() if isinstance(a[1], Poly) else None
        if n is None or n < 0 or n > 8:
            raise Unsupported("powi")
        def f(x):
            y = ONE
            for _ in range(n):
                y = y * x
            return y
        return self.arith(f, st, a[0])

    def R_zero(self, fn, a, st, *r):
        return [(st, TOP if self.x.mode == "havoc" else ZERO)]

    def R_neg_zero(self, fn, a, st, *r):
        return [(st, TOP if self.x.mode == "havoc" else ZERO)]

    def R_one(self, fn, a, st, *r):
        return [(st, TOP if self.x.mode == "havoc" else ONE)]

    def R_is_zero(self, fn, a, st, *r):
        return self.rel(lambda x: eq(x), st, a[0])

    def cst(self, fn, a, st, *r):
        if self.x.mode != "havoc":
            raise Unsupported("special number " + fn.name)
        return [(st, TOP)]

    R_nan = R_infinity = R_neg_infinity = R_min_value = R_max_value = R_epsilon = R_min_positive_value = cst

    def R_is_nan(self, fn, a, st, *r):
        return [(st, bfresh("nan") if self.x.mode == "havoc" else FALSE)]

    R_is_infinite = R_is_nan

    def R_is_finite(self, fn, a, st, *r):
        return [(st, bfresh("fin") if self.x.mode == "havoc" else TRUE)]

    def R_is_sign_negative(self, fn, a, st, *r):
        return self.rel(lambda x: lt(x, ZERO), st, a[0])

    def R_is_sign_positive(self, fn, a, st, *r):
        return self.rel(lambda x: le(ZERO, x), st, a[0])

    def rel(self, f, st, *a):
        vs = [self.num(st, v) for v in a]
        if self.x.mode == "havoc" or any(v is TOP for v in vs):
            return [(st, bfresh("cmp"))]
        return [(st, f(*vs))]

    def R_lt(self, fn, a, st, *r):
        return self.rel(lambda x, y: lt(x, y), st, *a)

    def R_le(self, fn, a, st, *r):
        return self.rel(lambda x, y: le(x, y), st, *a)

    def R_gt(self, fn, a, st, *r):
        return self.rel(lambda x, y: lt(y, x), st, *a)

    def R_ge(self, fn, a, st, *r):
        return self.rel(lambda x, y: le(y, x), st, *a)

    def R_eq(self, fn, a, st, *r):
        return self.rel(lambda x, y: eq(x, y), st, *a)

    def R_ne(self, fn, a, st, *r):
        return self.rel(lambda x, y: Not(eq(x, y)), st, *a)

    def R_partial_cmp(self, fn, a, st, *r):
        x, y = [self.num(st, v) for v in a]
        if self.x.mode == "havoc":
            b = bfresh("pc")
            d = fresh("ord", True, -1, 1)
            return [(st.cond(b), some(En(d, {0: (), 1: (), 2: ()}))), (st.cond(Not(b)), NONE)]
        d = terms.ite(lt(x, y), K(-1), terms.ite(eq(x, y), ZERO, ONE))
        return [(st, some(En(d, {0: (), 1: (), 2: ()})))]

    def R_clone(self, fn, a, st, *r):
        return [(st, self.num(st, a[0]))]

    def R_from(self, fn, a, st, *r):
        """NumCast::from: succeeds for every machine number"""
        v = a[0]
        self.x.assumed.add("NumCast::from(usize|isize|f64) is Some")
        if self.x.mode == "havoc":
            return [(st, some(TOP))]
        if not isinstance(v, Poly):
            raise Unsupported("NumCast::from %r" % (v,))
        return [(st, some(v))]

    def toint(self, lo, hi):
        def h(fn, a, st, *r):
            v = self.num(st, a[0])
            if self.x.mode == "havoc":
                b = bfresh("conv")
                i = fresh("int", True, lo, hi)
                return [(st.cond(b), some(i)), (st.cond(Not(b)), NONE)]
            t = v if v.is_int() else terms.ite(le(ZERO, v), terms.floor(v), -terms.floor(-v))
            c = self.x.simp(And(le(K(lo), t), le(t, K(hi))), st)
            out = []
            s = st.cond(c)
            if s is not None:
                if t.is_int() and c is not TRUE:
                    i = uf("toint", (t,), True, lo, hi)
                else:
                    i = t
                out.append((s, some(i)))
            s = st.cond(Not(c))
            if s is not None:
                out.append((s, NONE))
            return out
        return h

    def R_to_isize(self, *a):
        return self.toint(IMIN, IMAX)(*a)

    R_to_i64 = R_to_isize

    def R_to_usize(self, *a):
        return self.toint(0, UMAX)(*a)

    R_to_u64 = R_to_usize

    def R_to_i32(self, *a):
        return self.toint(-(1 << 31), (1 << 31) - 1)(*a)

    def R_to_u32(self, *a):
        return self.toint(0, (1 << 32) - 1)(*a)

    def R_to_f64(self, fn, a, st, *r):
        return [(st, some(self.num(st, a[0])))]

    def numcast_int(self, fn, a, st, fr, site, span):
        """<isize as NumCast>::from(n): n.to_isize()"""
        name = fn.name
        src = None
        v = a[0]
        m = re.match(r"<(\w+) as", name)
        rng = {"isize": (IMIN, IMAX), "i64": (IMIN, IMAX), "usize": (0, UMAX), "u64": (0, UMAX),
               "i32": (-(1 << 31), (1 << 31) - 1), "u32": (0, (1 << 32) - 1)}.get(m.group(1) if m else "")
        if rng is None:
            return NotImplemented
        if v is TOP or isinstance(v, Poly):
            return self.toint(*rng)(fn, [v], st)
        return NotImplemented

    # ---------------------------------------------------------------- slices
    def win(self, st, p):
        """(cell, path, off, len) of a slice/array pointer"""
        if isinstance(p, Ptr):
            if p.sl is not None:
                return p.cell, p.path, p.sl[0], p.sl[1]
            v = self.x.load(st, p.cell, p.path)
            if isinstance(v, Ptr) or isinstance(v, PIte):
                return self.win(st, v)
            if isinstance(v, VecV):
                return v.cell, (), ZERO, self.x.load(st, v.cell, ()).n
            return p.cell, p.path, ZERO, self.x.arrlen(st, p.cell, p.path)
        raise Unsupported("slice pointer %r" % (p,))

    def split(self, f):
        """lift a handler over conditional pointers in the first argument"""
        def h(fn, a, st, fr, site, span):
            p = a[0]
            if isinstance(p, PIte):
                c = self.x.simp(p.c, st)
                out = []
                for cc, q in ((c, p.a), (Not(c), p.b)):
                    s = st.cond(cc)
                    if s is not None:
                        out.extend(h(fn, [q] + list(a[1:]), s, fr, site, span))
                return self.x.group(out) if len(out) > 1 else out
            return f(fn, a, st, fr, site, span)
        return h

    def elem_at(self, cell, path, i):
        return Ptr(cell, path + (i,))

    def slice_len(self, fn, a, st, *r):
        return [(st, self.x.ptrlen_of(st, a[0]))]

    def slice_is_empty(self, fn, a, st, *r):
        return [(st, eq(self.x.ptrlen_of(st, a[0])))]

    def first_last(self, last):
        def h(fn, a, st, fr, site, span):
            cell, path, o, n = self.win(st, a[0])
            c = self.x.known(le(ONE, n), st)
            out = []
            s = st.cond(c)
            if s is not None:
                out.append((s, some(Ptr(cell, path + ((o + n - ONE) if last else o,)))))
            s = st.cond(Not(c))
            if s is not None:
                out.append((s, NONE))
            return out
        return self.split(h)

    def slice_first(self, *a):
        return self.first_last(False)(*a)

    def slice_last(self, *a):
        return self.first_last(True)(*a)

    def slice_get(self, fn, a, st, fr, site, span):
        i = a[1]
        if not isinstance(i, Poly):
            raise Unsupported("slice get with range")
        cell, path, o, n = self.win(st, a[0])
        c = self.x.known(lt(i, n), st)
        self.x.note_branch_b(fr, site, c)
        out = []
        s = st.cond(c)
        if s is not None:
            out.append((s, some(Ptr(cell, path + (o + i,)))))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, NONE))
        return out

    def split_first(self, fn, a, st, fr, site, span):
        cell, path, o, n = self.win(st, a[0])
        last = "split_last" in fn.df
        c = self.x.known(le(ONE, n), st)
        out = []
        s = st.cond(c)
        if s is not None:
            e = Ptr(cell, path + ((o + n - ONE) if last else o,))
            rest = Ptr(cell, path, ((o if last else o + ONE), n - ONE))
            out.append((s, some(Agg((e, rest)))))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, NONE))
        return out

    def split_at(self, fn, a, st, fr, site, span):
        cell, path, o, n = self.win(st, a[0])
        s = self.x.must("split_at bounds", fr, span, st, le(a[1], n))
        if s is None:
            return []
        return [(s, Agg((Ptr(cell, path, (o, a[1])), Ptr(cell, path, (o + a[1], n - a[1])))))]

    def slice_swap(self, fn, a, st, fr, site, span):
        cell, path, o, n = self.win(st, a[0])
        s = self.x.must("swap bounds", fr, span, st, And(lt(a[1], n), lt(a[2], n)))
        if s is None:
            return []
        v = self.x.load(s, cell, path + (o + a[1],))
        w = self.x.load(s, cell, path + (o + a[2],))
        self.x.store(s, cell, path + (o + a[1],), w)
        self.x.store(s, cell, path + (o + a[2],), v)
        return [(s, UNIT)]

    def slice_fill(self, fn, a, st, fr, site, span):
        cell, path, o, n = self.win(st, a[0])
        v = self.x.load(st, cell, path)
        c = n.const()
        if isinstance(v, Agg) and c is not None:
            for k in range(c):
                self.x.store(st, cell, path + (o + K(k),), a[1])
            return [(st, UNIT)]
        if isinstance(v, SArr) and o == ZERO and n == v.n:
            self.x.store(st, cell, path, Fill(a[1], n))
            return [(st, UNIT)]
        raise Unsupported("slice fill")

    def slice_iter(self, fn, a, st, fr, site, span):
        cell, path, o, n = self.win(st, a[0])
        # iterator = (slice pointer, front, back)
        return [(st, Agg((Ptr(cell, path, (o, n)), ZERO, n)))]

    def iter_next(self, fn, a, st, fr, site, span):
        it = self.deref(st, a[0])
        p, i, n = it.f
        c = self.x.known(lt(i, n), st)
        self.x.note_branch_b(fr, site, c)
        out = []
        s = st.cond(c)
        if s is not None:
            self.x.store(s, a[0].cell, a[0].path, Agg((p, i + ONE, n)))
            out.append((s, some(Ptr(p.cell, p.path + (p.sl[0] + i,)))))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, NONE))
        return out

    def iter_next_back(self, fn, a, st, fr, site, span):
        it = self.deref(st, a[0])
        p, i, n = it.f
        c = self.x.known(lt(i, n), st)
        self.x.note_branch_b(fr, site, c)
        out = []
        s = st.cond(c)
        if s is not None:
            self.x.store(s, a[0].cell, a[0].path, Agg((p, i, n - ONE)))
            out.append((s, some(Ptr(p.cell, p.path + (p.sl[0] + n - ONE,)))))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, NONE))
        return out

    def iter_size_hint(self, fn, a, st, fr, site, span):
        it = self.deref(st, a[0])
        p, i, n = it.f
        return [(st, Agg((n - i, some(n - i))))]

    def iter_len(self, fn, a, st, fr, site, span):
        it = self.deref(st, a[0])
        return [(st, it.f[2] - it.f[1])]

    def iter_get_unchecked(self, fn, a, st, fr, site, span):
        it = self.deref(st, a[0])
        p, i, n = it.f
        s = self.x.must("iterator access", fr, span, st, lt(i + a[1], n))
        return [(s, Ptr(p.cell, p.path + (p.sl[0] + i + a[1],)))] if s is not None else []

    def closure_fn(self, fn, k):
        """function implementing closure type argument number k"""
        c = fn.closure
        return c

    def any_all(self, isall):
        def h(fn, a, st, fr, site, span):
            it = self.deref(st, a[0])
            p, i, n = it.f
            clo = self.clo(fn)
            m = (n - i).const()
            cell = self.x.newcell("clo")
            if m is not None:
                if m > 64:
                    raise Unsupported("long concrete iterator")
                out = []
                cur = [st]
                st.m[cell] = a[1]
                for j in range(m):
                    nxt = []
                    for s in cur:
                        e = Ptr(p.cell, p.path + (p.sl[0] + i + K(j),))
                        for s2, r in self.ccall(clo, [Ptr(cell), e], s, fr, site, span):
                            r = self.x.simp(r, s2)
                            stop = Not(r) if isall else r
                            s3 = s2.cond(stop)
                            if s3 is not None:
                                s3.m.pop(cell, None)
                                if isinstance(a[0], Ptr):
                                    self.x.store(s3, a[0].cell, a[0].path, Agg((p, i + K(j + 1), n)))
                                out.append((s3, bconst(not isall)))
                            s4 = s2.cond(Not(stop))
                            if s4 is not None:
                                nxt.append(s4)
                    cur = nxt
                for s in cur:
                    s.m.pop(cell, None)
                    self.x.store(s, a[0].cell, a[0].path, Agg((p, n, n)))
                    out.append((s, bconst(isall)))
                return self.x.group_bool(out)
            # symbolic length: the closure must be pure
            lev = self.x.lamlevel
            self.x.lamlevel += 1
            try:
                k = bound(lev)
                s = st.copy()
                s.m[cell] = a[1]
                before = dict(s.m)
                s = s.cond(lt(k, n - i))
                outs = self.ccall(clo, [Ptr(cell), Ptr(p.cell, p.path + (p.sl[0] + i + k,))], s, fr, site, span)
                base = len(s.pc)
                body = FALSE
                for s2, r in outs:
                    for kk, v in before.items():
                        if kk in s2.m and s2.m[kk] is not v and not X.vsame(s2.m[kk], v):
                            raise Unsupported("iterator closure with side effects")
                    r = self.x.simp(r, s2)
                    c = And(*s2.pc[base:])
                    body = Or(body, And(c, Not(r) if isall else r))
                if self.x.mode == "havoc" and self.x.has_freshb(body):
                    q = bfresh("any")
                    res = q
                else:
                    res = Any(n - i, body, lev)
                out = Not(res) if isall else res
                if self.x.mode == "havoc" and res.k == "any":
                    pass
            finally:
                self.x.lamlevel -= 1
            if self.x.mode == "havoc" and res.k not in "TF":
                # an empty iterator never finds an element
                if res.k == "var":
                    res = And(res, lt(i, n))
                    out = Not(res) if isall else res
            self.x.store(st, a[0].cell, a[0].path, Agg((p, fresh("it", True, 0, IMAX), n)))
            return [(st, out)]
        return h

    def clo(self, fn):
        """the closure passed to a generic std function"""
        for k, i in fn.clos:
            if k == "clo":
                return self.x.p.fns[i]
            if k == "fn":
                return ("fn", self.x.p.fns[i])
        raise Unsupported("unknown closure of " + fn.name)

    def iter_all(self, *a):
        return self.any_all(True)(*a)

    def iter_any(self, *a):
        return self.any_all(False)(*a)

    def iter_fold(self, fn, a, st, fr, site, span):
        it = a[0]
        p, i, n = it.f
        m = (n - i).const()
        if m is None:
            raise Unsupported("fold over a slice of symbolic length")
        clo = self.clo(fn)
        acc = [(st, a[1])]
        cell = self.x.newcell("clo")
        st.m[cell] = a[2]
        for j in range(m):
            nx = []
            for s, v in acc:
                nx.extend(self.ccall(clo, [Ptr(cell), v, Ptr(p.cell, p.path + (p.sl[0] + i + K(j),))], s, fr, site, span))
            acc = self.x.group(nx)
        for s, v in acc:
            s.m.pop(cell, None)
        return acc

    def ident(self, fn, a, st, *r):
        return [(st, a[0])]

    def index_range(self, fn, a, st, fr, site, span):
        """<Range.. as SliceIndex>::index(_mut)(self, slice)"""
        df = fn.df
        rng, p = a[0], a[1]
        if isinstance(p, PIte):
            p2 = p
            out = []
            for cc, q in ((p.c, p.a), (Not(p.c), p.b)):
                s = st.cond(self.x.simp(cc, st))
                if s is not None:
                    out.extend(self.index_range(fn, [rng, q], s, fr, site, span))
            return self.x.group(out)
        cell, path, o, n = self.win(st, p)
        if "RangeFull" in df:
            return [(st, Ptr(cell, path, (o, n)))]
        if "RangeToInclusive" in df:
            lo, hi = ZERO, rng.f[0] + ONE
        elif "RangeTo" in df:
            lo, hi = ZERO, rng.f[0]
        elif "RangeFrom" in df:
            lo, hi = rng.f[0], n
        elif "RangeInclusive" in df:
            raise Unsupported("RangeInclusive index")
        else:
            lo, hi = rng.f[0], rng.f[1]
        s = self.x.must("slice range", fr, span, st, And(le(lo, hi), le(hi, n)))
        if s is None:
            return []
        return [(s, Ptr(cell, path, (o + lo, hi - lo)))]

    def try_from_slice(self, fn, a, st, fr, site, span):
        """slice -> array (or array reference) of N elements: Ok iff len == N"""
        m = re.search(r"\[.*; (\d+)\]", fn.name)
        ret = fn.locals[0] if fn.body else None
        N = None
        for t in fn.targs or []:
            pass
        if fn.body:
            rt = self.x.p.types[fn.locals[0]]
            okty = self.x.p.types[rt["variants"][0]["fields"][0]]
            byref = okty["k"] in ("ref", "ptr")
            if byref:
                okty = self.x.p.types[okty["elem"]]
            N = okty["len"]
        else:
            raise Unsupported("try_from")
        p = a[0]
        cell, path, o, n = self.win(st, p)
        c = self.x.known(eq(n, K(N)), st)
        out = []
        s = st.cond(c)
        if s is not None:
            if byref:
                if o != ZERO or self.x.arrlen(s, cell, path) != K(N):
                    # materialise the view (read-only use)
                    v = Agg(tuple(self.x.load(s, cell, path + (o + K(k),)) for k in range(N)))
                    if "mut" in fn.df:
                        raise Unsupported("mutable array view")
                    nc = self.x.newcell("view")
                    s.m[nc] = v
                    out.append((s, ok(Ptr(nc))))
                else:
                    out.append((s, ok(Ptr(cell, path))))
            else:
                v = Agg(tuple(self.x.load(s, cell, path + (o + K(k),)) for k in range(N)))
                out.append((s, ok(v)))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, err(UNIT)))
        return out

    def copy_from_slice(self, fn, a, st, fr, site, span):
        c1, p1, o1, n1 = self.win(st, a[0])
        c2, p2, o2, n2 = self.win(st, a[1])
        s = self.x.must("copy_from_slice lengths", fr, span, st, eq(n1, n2))
        if s is None:
            return []
        m = n1.const()
        if m is None:
            m = n2.const()
        if m is None:
            raise Unsupported("copy_from_slice of symbolic length")
        vals = [self.x.load(s, c2, p2 + (o2 + K(k),)) for k in range(m)]
        for k in range(m):
            self.x.store(s, c1, p1 + (o1 + K(k),), vals[k])
        return [(s, UNIT)]

    def partition_point(self, fn, a, st, fr, site, span):
        cell, path, o, n = self.win(st, a[0])
        clo = self.clo(fn)
        if self.x.mode == "havoc":
            r = fresh("pp", True, 0, IMAX)
            self.x.facts.append((st.pc, le(r, n)))
            # the predicate may be called on any element: run it once for its obligations
            k = fresh("ppi", True, 0, IMAX)
            s = st.copy().cond(lt(k, n))
            if s is not None:
                cl = self.x.newcell("clo")
                s.m[cl] = a[1]
                self.ccall(clo, [Ptr(cl), Ptr(cell, path + (o + k,))], s, fr, site, span)
            return [(st, r)]
        # exact: the predicate is evaluated at a symbolic index
        v0 = self.x.load(st, cell, path)
        lev = 7
        k = bound(lev)
        s = st.copy()
        cl = self.x.newcell("clo")
        s.m[cl] = a[1]
        outs = self.ccall(clo, [Ptr(cl), Ptr(cell, path + (o + k,))], s, fr, site, span)
        if len(outs) != 1:
            raise Unsupported("partition_point predicate")
        pred = outs[0][1]
        r = uf("pp", (pred, o, n), True, 0, IMAX)
        self.x.assumed.add("slice::partition_point: result p with pred true at p-1 and false at p (binary search on a strictly increasing grid)")
        return [(st, r)]

    def first_index(self, pred_of, st, cell, path, o, n, what):
        """exact mode: the first index whose predicate fails, as a term; pred_of(state, element pointer) -> B"""
        k = bound(7)
        pred = pred_of(st.copy(), Ptr(cell, path + (o + k,)))
        return pred, uf("pp", (pred, o, n), True, 0, IMAX)

    def iter_position(self, fn, a, st, fr, site, span):
        """slice::Iter::position: the first index where the predicate holds"""
        it = self.deref(st, a[0])
        q, i, n = it.f
        clo = self.clo(fn)
        m = n - i

        def pred(s, e):
            cl = self.x.newcell("clo")
            s.m[cl] = a[1]
            outs = self.ccall(clo, [Ptr(cl), e], s, fr, site, span)
            if len(outs) != 1:
                raise Unsupported("position predicate")
            return outs[0][1]
        if self.x.mode == "havoc":
            r = fresh("pos", True, 0, IMAX)
            s = st.copy().cond(lt(r, m))
            if s is not None:
                pred(s, Ptr(q.cell, q.path + (q.sl[0] + i + r,)))
            c = And(bfresh("found"), lt(r, m))
        else:
            b, r = self.first_index(lambda s, e: Not(pred(s, e)), st, q.cell, q.path, q.sl[0] + i, m, "position")
            c = lt(r, m)
        out = []
        s = st.cond(c)
        if s is not None:
            self.x.store(s, a[0].cell, a[0].path, Agg((q, i + r + ONE, n)))
            out.append((s, some(r)))
        s = st.cond(Not(c))
        if s is not None:
            self.x.store(s, a[0].cell, a[0].path, Agg((q, n, n)))
            out.append((s, NONE))
        return out

    def iter_nth(self, fn, a, st, fr, site, span):
        it = self.deref(st, a[0])
        q, i, n = it.f
        c = self.x.known(lt(i + a[1], n), st)
        out = []
        s = st.cond(c)
        if s is not None:
            self.x.store(s, a[0].cell, a[0].path, Agg((q, i + a[1] + ONE, n)))
            out.append((s, some(Ptr(q.cell, q.path + (q.sl[0] + i + a[1],)))))
        s = st.cond(Not(c))
        if s is not None:
            self.x.store(s, a[0].cell, a[0].path, Agg((q, n, n)))
            out.append((s, NONE))
        return out

    def iter_last(self, fn, a, st, fr, site, span):
        q, i, n = a[0].f
        c = self.x.known(lt(i, n), st)
        out = []
        s = st.cond(c)
        if s is not None:
            out.append((s, some(Ptr(q.cell, q.path + (q.sl[0] + n - ONE,)))))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, NONE))
        return out

    def iter_count(self, fn, a, st, fr, site, span):
        return [(st, a[0].f[2] - a[0].f[1])]

    def binary_search_by(self, fn, a, st, fr, site, span):
        """slice::binary_search_by on a strictly increasing slice"""
        cell, path, o, n = self.win(st, a[0])
        clo = self.clo(fn)

        def order(s, e):
            cl = self.x.newcell("clo")
            s.m[cl] = a[1]
            base = len(s.pc)
            outs = self.ccall(clo, [Ptr(cl), e], s, fr, site, span)
            if not outs or any(not isinstance(v, En) for _, v in outs):
                raise Unsupported("binary_search comparison")
            return lambda k: Or(*[And(*s2.pc[base:], eq(v.d, K(k))) for s2, v in outs])
        if self.x.mode == "havoc":
            r = fresh("pp", True, 0, IMAX)
            k = fresh("ppi", True, 0, IMAX)
            s = st.copy().cond(lt(k, n))
            if s is not None:
                order(s, Ptr(cell, path + (o + k,)))
            out = []
            c = bfresh("found")
            s = st.cond(And(c, lt(r, n)))
            if s is not None:
                out.append((s, En(ZERO, {0: (r,)})))
            s = st.cond(And(Not(c), le(r, n)))
            if s is not None:
                out.append((s, En(ONE, {1: (r,)})))
            return out
        d = order(st.copy(), Ptr(cell, path + (o + bound(7),)))
        less, equal = self.x.simp(d(-1), st), self.x.simp(d(0), st)
        if not (equal is FALSE or equal.k == "eq"):
            raise Unsupported("binary_search comparison")
        r = uf("pp", (less, o, n), True, 0, IMAX)
        self.x.assumed.add("slice::binary_search_by: Ok(p) if the element at the partition point p compares equal, else Err(p) "
                           "(strictly increasing grid)")
        hit = And(lt(r, n), bsubst(equal, {bound(7).single_atom().id: r}))
        out = []
        s = st.cond(hit)
        if s is not None:
            out.append((s, En(ZERO, {0: (r,)})))
        s = st.cond(Not(hit))
        if s is not None:
            out.append((s, En(ONE, {1: (r,)})))
        return out

    def arr_map(self, fn, a, st, fr, site, span):
        """[T; N]::map"""
        v = a[0]
        if not isinstance(v, Agg):
            raise Unsupported("map over %r" % (v,))
        clo = self.clo(fn)
        cell = self.x.newcell("clo")
        st.m[cell] = a[1]
        acc = [(st, ())]
        for e in v.f:
            nx = []
            for s, done in acc:
                for s2, r in self.ccall(clo, [Ptr(cell), e], s, fr, site, span):
                    nx.append((s2, Agg(done + (r,))))
            acc = [(s, r.f) for s, r in self.x.group(nx)]
        return [(s, Agg(f)) for s, f in acc]

    def arr_into_iter(self, fn, a, st, fr, site, span):
        v = a[0]
        if not isinstance(v, Agg):
            raise Unsupported("into_iter of %r" % (v,))
        cell = self.x.newcell("arr")
        st.m[cell] = v
        n = K(len(v.f))
        return [(st, Agg((Ptr(cell, (), (ZERO, n)), ZERO, n)))]

    def owned_next(self, fn, a, st, fr, site, span):
        back = fn.name.endswith("next_back")
        out = []
        for s, r in (self.iter_next_back if back else self.iter_next)(fn, a, st, fr, site, span):
            if isinstance(r, En) and r is not NONE:
                r = some(self.deref(s, r.v[1][0]))
            out.append((s, r))
        return out

    def vec_from_elem(self, fn, a, st, *r):
        cell = self.x.newcell("vec")
        n = a[1].const()
        st.m[cell] = Fill(a[0], a[1])
        return [(st, VecV(cell))]

    def vec_deref(self, fn, a, st, *r):
        v = self.deref(st, a[0])
        if not isinstance(v, VecV):
            raise Unsupported("vec deref %r" % (v,))
        n = self.x.load(st, v.cell, ()).n
        return [(st, Ptr(v.cell, (), (ZERO, n)))]

    def vec_len(self, fn, a, st, *r):
        v = self.deref(st, a[0])
        return [(st, self.x.load(st, v.cell, ()).n)]

    def vec_index(self, fn, a, st, fr, site, span):
        v = self.deref(st, a[0])
        if not isinstance(v, VecV) or not isinstance(a[1], Poly):
            raise Unsupported("vec index")
        n = self.x.load(st, v.cell, ()).n
        s = self.x.must("vec index", fr, span, st, lt(a[1], n))
        return [(s, Ptr(v.cell, (a[1],)))] if s is not None else []

    # ---------------------------------------------------------------- sequences collected into a Vec
    def seqof(self, ty, v, st):
        """(length, element function) of an iterator value: element function is
        (state, k, fr, site, span) -> outcomes"""
        p = self.x.p
        t = p.types[ty]
        d = t.get("def", "")
        if t["k"] != "adt":
            raise Unsupported("collect from " + str(t.get("name"))[:80])
        fs = t["variants"][0]["fields"]
        if d == "std::ops::Range":
            lo, hi = v.f
            if not isinstance(lo, Poly):
                raise Unsupported("collect from a range")
            return terms.ite(le(lo, hi), hi - lo, ZERO), lambda s, k, *r: [(s, lo + k)]
        if d in ("std::slice::Iter", "std::slice::IterMut"):
            q, i, n = v.f
            return n - i, lambda s, k, *r: [(s, Ptr(q.cell, q.path + (q.sl[0] + i + k,)))]
        if d == "std::vec::IntoIter":
            q, i, n = v.f
            return n - i, lambda s, k, *r: [(s, self.x.load(s, q.cell, q.path + (q.sl[0] + i + k,)))]
        if d == "itertools::adaptors::multi_product::MultiProduct":
            return v.f[0], v.f[1].fn
        if d in ("std::iter::Copied", "std::iter::Cloned"):
            n, e = self.seqof(fs[0], v.f[0], st)
            return n, lambda s, k, *r: [(s2, self.deref(s2, x)) for s2, x in e(s, k, *r)]
        if d == "std::iter::Rev":
            n, e = self.seqof(fs[0], v.f[0], st)
            return n, lambda s, k, *r: e(s, n - ONE - k, *r)
        if d == "std::iter::Enumerate":
            n, e = self.seqof(fs[0], v.f[0], st)
            c = v.f[1]
            return n, lambda s, k, *r: [(s2, Agg((c + k, x))) for s2, x in e(s, k, *r)]
        if d == "std::iter::Zip":
            n1, e1 = self.seqof(fs[0], v.f[0], st)
            n2, e2 = self.seqof(fs[1], v.f[1], st)

            def ez(s, k, *r):
                return [(s3, Agg((x, y))) for s2, x in e1(s, k, *r) for s3, y in e2(s2, k, *r)]
            return terms.imin(n1, n2), ez
        if d == "std::iter::Map":
            n, e = self.seqof(fs[0], v.f[0], st)
            f = v.f[1]
            if fs[1] not in p.cloty:
                raise Unsupported("collect through a function item")
            clo = p.fns[p.cloty[fs[1]]]

            def em(s, k, *r):
                out = []
                for s2, x in e(s, k, *r):
                    cl = self.x.newcell("clo")
                    s2.m[cl] = f
                    out.extend(self.ccall(clo, [Ptr(cl), x], s2, *r))
                return out
            return n, em
        raise Unsupported("collect from " + d)

    def vec_into_iter(self, fn, a, st, *r):
        v = a[0]
        if not isinstance(v, VecV):
            raise Unsupported("into_iter %r" % (v,))
        n = self.x.load(st, v.cell, ()).n
        return [(st, Agg((Ptr(v.cell, (), (ZERO, n)), ZERO, n)))]

    def cartesian(self, fn, a, st, fr, site, span):
        """Itertools::multi_cartesian_product over the lists of an input vector, all of them, in order"""
        ty = [t["t"] for t in fn.targs if "t" in t][0]
        n, elem = self.seqof(ty, a[0], st)
        lev = self.x.lamlevel
        self.x.lamlevel += 1
        try:
            j = bound(lev)
            s = st.copy().cond(lt(j, n))
            outs = elem(s, j, fr, site, span)
        finally:
            self.x.lamlevel -= 1
        if len(outs) != 1:
            raise Unsupported("product over lists with several outcomes")
        q = outs[0][1]
        # a reference to a vector, a slice, or a slice iterator over all of it
        while True:
            if isinstance(q, Ptr) and q.sl is None:
                q = self.x.load(s, q.cell, q.path)
            elif isinstance(q, VecV):
                q = Ptr(q.cell, (), (ZERO, self.x.load(s, q.cell, ()).n))
            elif isinstance(q, Agg) and len(q.f) == 3 and isinstance(q.f[0], Ptr) and q.f[1] == ZERO:
                if q.f[2] != q.f[0].sl[1]:
                    raise Unsupported("product over part of a list")
                q = q.f[0]
            else:
                break
        c = q.cell if isinstance(q, Ptr) else None
        if not (isinstance(c, tuple) and c[0] == "nest" and isinstance(c[1], Base) and not q.path
                and c[1].pre == (j,) and q.sl[0] == ZERO and q.sl[1] == c[1].n):
            raise Unsupported("product over other lists than the input")
        name, kind = c[1].name, c[1].elem
        if n != var("m." + name, True, 0, IMAX):
            raise Unsupported("product over part of the input lists")
        self.x.assumed.add("Itertools::multi_cartesian_product over all m lists, in order: yields one Vec of m "
                           "references per node of the product, node k referring in list j to element digit(j, k), the j-th "
                           "C-order digit of k (last list varying fastest)")
        cnt = uf("product", (n,), True, 0, IMAX)

        def node(s, k, *r):
            def ref(i):
                ln = sel(name + ".len", (i,), True, 0, X.LMAX)
                d = uf("digit", (i, k), True, 0, IMAX)
                return Ptr(("nest", Base(name, (i,), kind, ln), name, i), (d,))
            cell = self.x.newcell("vec")
            s.m[cell] = X.Refs(ref, n)
            return [(s, VecV(cell))]
        return [(st, Agg((cnt, X.FnV(node))))]

    def from_iter(self, fn, a, st, fr, site, span):
        """Vec::from_iter over a sequence with pure closures, possibly stopping at the first error"""
        p = self.x.p
        it = a[0]
        ty = [t["t"] for t in fn.targs if "t" in t][-1]
        shunt = None
        if p.types[ty].get("def") == "std::iter::adapters::GenericShunt":
            shunt = it.f[1]
            ty = p.types[ty]["variants"][0]["fields"][0]
            it = it.f[0]
        n, elem = self.seqof(ty, it, st)
        lev = self.x.lamlevel
        self.x.lamlevel += 1
        try:
            k = bound(lev)
            s = st.copy()
            before = dict(s.m)
            s = s.cond(lt(k, n))
            outs = elem(s, k, fr, site, span) if s is not None else []
            base = len(s.pc) if s is not None else 0
            for s2, r in outs:
                for kk, v in before.items():
                    if kk in s2.m and s2.m[kk] is not v and not X.vsame(s2.m[kk], v):
                        raise Unsupported("collect with side effects")
            bad = FALSE
            errv = None
            if shunt is not None:
                vals = []
                for s2, r in outs:
                    if not isinstance(r, En):
                        raise Unsupported("collect of results")
                    d = r.d.const()
                    c = And(*s2.pc[base:])
                    ov, ev = r.v.get(0), r.v.get(1)
                    if d == 1 or d is None:
                        bad = Or(bad, And(c, eq(r.d, ONE)))
                        errv = ev if errv is None or X.vsame(errv, ev) else (ANYSTR,)
                    if d != 1:
                        vals.append((c, ov[0]))
                if n.const() == 0:
                    bad = FALSE
            else:
                vals = [(And(*s2.pc[base:]), r) for s2, r in outs]
            body = ZERO
            if vals:
                body = vals[-1][1]
                for c, v in reversed(vals[:-1]):
                    body = self.x.ite(c, v, body)
            hv = self.x.mode == "havoc"
            if bad.k not in "TF":
                if hv and self.x.has_freshb(bad):
                    anybad = And(bfresh("any"), lt(ZERO, n))
                else:
                    anybad = Any(n, bad, lev)
            else:
                anybad = And(bad, lt(ZERO, n))
        finally:
            self.x.lamlevel -= 1
        out = []
        cell = self.x.newcell("vec")
        if isinstance(body, VecV) and shunt is None and len(outs) == 1:
            inner = outs[0][0].m[body.cell]
            if not (isinstance(inner, Lam) and inner.b is None and inner.lo == ZERO):
                raise Unsupported("collect of vectors")
            st.m[cell] = X.VecOf(k.single_atom().id, inner, n)
            return [(st, VecV(cell))]
        if not isinstance(body, Poly) and body is not TOP:
            raise Unsupported("collect of aggregates")
        st.m[cell] = Fill(TOP, n) if body is TOP else Lam(None, ZERO, n, k.single_atom().id, body, n)
        sb = st.cond(anybad)
        if sb is not None:
            # the partial vector is dropped by try_process, the only caller with a shunt
            self.x.store(sb, shunt.cell, shunt.path, some(err(errv[0] if errv else ANYSTR)))
            out.append((sb, VecV(cell)))
        sg = st.cond(Not(anybad))
        if sg is not None:
            out.append((sg, VecV(cell)))
        return out

    def ccall(self, clo, args, st, fr, site, span):
        if isinstance(clo, tuple):
            return self.x.call(clo[1], args[1:], st, fr, site, span)
        return self.x.call(clo, args, st, fr, site, span)

    # ---------------------------------------------------------------- integers
    def o_min(self, fn, a, st, *r):
        x, y = a
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            return NotImplemented
        return [(st, terms.imin(x, y))]

    def o_max(self, fn, a, st, *r):
        x, y = a
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            return NotImplemented
        return [(st, terms.imax(x, y))]

    def rng(self, fn):
        m = re.search(r"impl (\w+)>", fn.df)
        t = m.group(1)
        return {"isize": (IMIN, IMAX), "i64": (IMIN, IMAX), "usize": (0, UMAX), "u64": (0, UMAX),
                "i32": (-(1 << 31), (1 << 31) - 1), "u32": (0, (1 << 32) - 1), "u8": (0, 255)}[t]

    def sat(self, op):
        def h(fn, a, st, *r):
            lo, hi = self.rng(fn)
            v = op(a[0], a[1])
            v = terms.imax(v, K(lo)) if iv(v)[0] is None or iv(v)[0] < lo else v
            v = terms.imin(v, K(hi)) if iv(v)[1] is None or iv(v)[1] > hi else v
            return [(st, v)]
        return h

    def sat_sub(self, *a):
        return self.sat(lambda x, y: x - y)(*a)

    def sat_add(self, *a):
        return self.sat(lambda x, y: x + y)(*a)

    def sat_mul(self, *a):
        return self.sat(lambda x, y: x * y)(*a)

    def checked(self, op):
        def h(fn, a, st, *r):
            lo, hi = self.rng(fn)
            v = op(a[0], a[1])
            c = self.x.known(And(le(K(lo), v), le(v, K(hi))), st)
            out = []
            s = st.cond(c)
            if s is not None:
                out.append((s, some(v)))
            s = st.cond(Not(c))
            if s is not None:
                out.append((s, NONE))
            return out
        return h

    def chk_mul(self, *a):
        return self.checked(lambda x, y: x * y)(*a)

    def chk_add(self, *a):
        return self.checked(lambda x, y: x + y)(*a)

    def chk_sub(self, *a):
        return self.checked(lambda x, y: x - y)(*a)

    def i_pow(self, fn, a, st, *r):
        x, n = a[0].const(), a[1].const()
        lo, hi = self.rng(fn)
        if x is None or n is None or not lo <= x ** n <= hi:
            raise Unsupported("integer pow")
        return [(st, K(x ** n))]

    def wrapping(self, op):
        def h(fn, a, st, *r):
            lo, hi = self.rng(fn)
            return [(st, self.x.wrap(op(a[0], a[1]), lo, hi, st))]
        return h

    def wr_add(self, *a):
        return self.wrapping(lambda x, y: x + y)(*a)

    def wr_sub(self, *a):
        return self.wrapping(lambda x, y: x - y)(*a)

    def i_isneg(self, fn, a, st, *r):
        return [(st, lt(a[0], ZERO))]

    def rem_euclid(self, fn, a, st, *r):
        return NotImplemented

    # intrinsics
    def I_cold_path(self, fn, a, st, *r):
        return [(st, UNIT)]

    I_assert_inhabited = I_cold_path

    def I_saturating_sub(self, fn, a, st, *r):
        t = self.x.p.types[fn.targs[0]]["name"]
        lo, hi = {"isize": (IMIN, IMAX), "usize": (0, UMAX)}[t]
        v = terms.imin(terms.imax(a[0] - a[1], K(lo)), K(hi))
        return [(st, v)]

    def range_next(self, fn, a, st, fr, site, span):
        """Range<usize>::next"""
        p = a[0]
        rg = self.deref(st, p)
        if not (isinstance(rg, Agg) and len(rg.f) == 2 and isinstance(rg.f[0], Poly)):
            return NotImplemented
        i, n = rg.f
        c = self.x.simp(lt(i, n), st)
        out = []
        self.x.note_branch_b(fr, site, c)
        s = st.cond(c)
        if s is not None:
            self.x.store(s, p.cell, p.path, Agg((i + ONE, n)))
            out.append((s, some(i)))
        s = st.cond(Not(c))
        if s is not None:
            out.append((s, NONE))
        return out


TABLE = [
    ("core::slice::<impl [T]>::len", "slice_len"),
    ("core::slice::<impl [T]>::is_empty", "slice_is_empty"),
    ("core::slice::<impl [T]>::first", "slice_first"),
    ("core::slice::<impl [T]>::last", "slice_last"),
    ("core::slice::<impl [T]>::get", "slice_get"),
    ("core::slice::<impl [T]>::get_mut", "slice_get"),
    ("core::slice::<impl [T]>::split_first", "split_first"),
    ("core::slice::<impl [T]>::split_last", "split_first"),
    ("core::slice::<impl [T]>::split_at", "split_at"),
    ("core::slice::<impl [T]>::split_at_mut", "split_at"),
    ("core::slice::<impl [T]>::swap", "slice_swap"),
    ("core::slice::<impl [T]>::fill", "slice_fill"),
    ("core::slice::<impl [T]>::iter", "slice_iter"),
    ("core::slice::<impl [T]>::iter_mut", "slice_iter"),
    ("core::slice::<impl [T]>::copy_from_slice", "copy_from_slice"),
    ("core::slice::<impl [T]>::clone_from_slice", "copy_from_slice"),
    ("core::slice::<impl [T]>::partition_point", "partition_point"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "iter_next"),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "iter_next"),
    ("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "iter_next_back"),
    ("<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back", "iter_next_back"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "iter_size_hint"),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint", "iter_size_hint"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", "iter_get_unchecked"),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", "iter_get_unchecked"),
    ("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "iter_len"),
    ("<std::slice::IterMut<'_, T> as std::iter::ExactSizeIterator>::len", "iter_len"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::all", "iter_all"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::any", "iter_any"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::fold", "iter_fold"),
    ("<I as std::iter::IntoIterator>::into_iter", "ident"),
    ("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next", "range_next"),
    ("std::cmp::Ord::min", "o_min"),
    ("std::cmp::Ord::max", "o_max"),
    ("std::vec::from_elem", "vec_from_elem"),
    ("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "vec_deref"),
    ("<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "vec_deref"),
    ("std::vec::Vec::<T, A>::as_mut_slice", "vec_deref"),
    ("std::vec::Vec::<T, A>::as_slice", "vec_deref"),
    ("std::vec::Vec::<T, A>::len", "vec_len"),
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "from_iter"),
    ("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "vec_into_iter"),
    ("itertools::Itertools::multi_cartesian_product", "cartesian"),
    ("core::panicking::panic_fmt", "panic"),
    ("std::result::unwrap_failed", "panic"),
    ("std::option::unwrap_failed", "panic"),
    ("std::option::expect_failed", "panic"),
    ("core::slice::index::slice_index_fail", "panic"),
    ("core::panicking::panic", "panic"),
    ("core::panicking::panic_nounwind", "panic"),
    ("core::panicking::unreachable_display", "panic"),
]
RTABLE = [
    (r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::position", "iter_position"),
    (r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::nth", "iter_nth"),
    (r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::last", "iter_last"),
    (r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::count", "iter_count"),
    (r"core::slice::<impl \[T\]>::binary_search_by", "binary_search_by"),
    (r"std::array::<impl \[T; N\]>::map", "arr_map"),
    (r"std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter", "arr_into_iter"),
    (r"<std::array::IntoIter<T, N> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?", "owned_next"),
    (r"<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint", "iter_size_hint"),
    (r"<std::vec::IntoIter<T, A> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?", "owned_next"),
    (r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint", "iter_size_hint"),
    (r"core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter", "slice_iter"),
    (r"<std::ops::Range.* as std::slice::SliceIndex<\[T\]>>::index(_mut)?", "index_range"),
    (r"std::array::<impl std::convert::TryFrom<&('a )?(mut )?\[T\]> for (&'a )?(mut )?\[T; N\]>::try_from", "try_from_slice"),
    (r"std::cmp::impls::<impl std::cmp::Ord for \w+>::min", "o_min"),
    (r"std::cmp::impls::<impl std::cmp::Ord for \w+>::max", "o_max"),
    (r"core::num::<impl \w+>::saturating_sub", "sat_sub"),
    (r"core::num::<impl \w+>::saturating_add", "sat_add"),
    (r"core::num::<impl \w+>::saturating_mul", "sat_mul"),
    (r"core::num::<impl \w+>::checked_mul", "chk_mul"),
    (r"core::num::<impl \w+>::checked_add", "chk_add"),
    (r"core::num::<impl \w+>::checked_sub", "chk_sub"),
    (r"core::num::<impl \w+>::wrapping_add", "wr_add"),
    (r"core::num::<impl \w+>::wrapping_sub", "wr_sub"),
    (r"core::num::<impl \w+>::pow", "i_pow"),
    (r"core::num::<impl \w+>::is_negative", "i_isneg"),
    (r"num_traits::<impl num_traits::NumCast for \w+>::from|<\w+ as num_traits::NumCast>::from", "numcast_int"),
    (r"<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?", "vec_index"),
]
