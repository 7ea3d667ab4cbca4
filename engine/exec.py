"""Symbolic execution of MIR with state merging: turns a function body into
its result term and its proof obligations, for all inputs."""
from fractions import Fraction
from terms import *
import terms
import mir

UMAX = (1 << 64) - 1
IMAX = (1 << 63) - 1
LMAX = IMAX // 2      # most elements a slice of numbers can hold: numbers take at least two bytes
IMIN = -(1 << 63)


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.f)) if len(self.f) < 20 else "{..%d..}" % len(self.f)


UNIT = Agg(())


class En:
    """enum value: discriminant value (Poly) and fields per variant index"""
    __slots__ = ("d", "v")

    def __init__(self, d, v):
        self.d = d
        self.v = v

    def __repr__(self):
        return "En(%r,%r)" % (self.d, self.v)


class Ptr:
    """cell + path (+ slice window (offset, length) when sl is set)"""
    __slots__ = ("cell", "path", "sl")

    def __init__(self, cell, path=(), sl=None):
        self.cell = cell
        self.path = path
        self.sl = sl

    def __repr__(self):
        return "&%s%s%s" % (self.cell, self.path or "", self.sl or "")

    def same(self, o):
        return (isinstance(o, Ptr) and samecell(self.cell, o.cell) and self.path == o.path and self.sl == o.sl)


def samecell(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if isinstance(x, SArr) or isinstance(y, SArr):
                if not (isinstance(x, Base) and isinstance(y, Base) and x.key() == y.key()):
                    return False
            elif x != y:
                return False
        return True
    return a == b


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


TOP = Tok("TOP")      # an arbitrary number of the opaque type (havoc semantics)
UNDEF = Tok("UNDEF")
ANYSTR = Tok("str")   # some string


class VecV:
    """heap vector: cell holding a symbolic array"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


# symbolic arrays -----------------------------------------------------------
class SArr:
    __slots__ = ()


class Base(SArr):
    """input array: name, prefix indices, element kind ('T' number, 'U' usize,
    'B' bool or ('S', inner kind) slice of), length"""
    __slots__ = ("name", "pre", "elem", "n", "data")

    def __init__(self, name, pre, elem, n, data=False):
        self.name = name
        self.pre = pre
        self.elem = elem
        self.n = n
        self.data = data

    def key(self):
        return ("base", self.name, self.pre)


class Store(SArr):
    __slots__ = ("b", "i", "v", "n")

    def __init__(self, b, i, v):
        self.b = b
        self.i = i
        self.v = v
        self.n = b.n


class Fill(SArr):
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v = v
        self.n = n


class Lam(SArr):
    """element lo+j is body[var:=j] for 0<=j<cnt, else from b"""
    __slots__ = ("b", "lo", "cnt", "var", "body", "n")

    def __init__(self, b, lo, cnt, var, body, n=None):
        self.b = b
        self.lo = lo
        self.cnt = cnt
        self.var = var      # atom id
        self.body = body
        self.n = b.n if b is not None else n


class AIte(SArr):
    __slots__ = ("c", "x", "y", "n")

    def __init__(self, c, x, y):
        self.c = c
        self.x = x
        self.y = y
        self.n = x.n


class VecOf(SArr):
    """vector of vectors: element k is the array inner with the bound variable var := k"""
    __slots__ = ("var", "inner", "n")

    def __init__(self, var, inner, n):
        self.var = var
        self.inner = inner
        self.n = n


class Refs(SArr):
    """vector of references, element j given by a contract"""
    __slots__ = ("f", "n")

    def __init__(self, f, n):
        self.f = f
        self.n = n


class Prefix(SArr):
    """loop-generalised array: contents unknown during the loop body"""
    __slots__ = ("b", "tag", "n")

    def __init__(self, b, tag):
        self.b = b
        self.tag = tag
        self.n = b.n


class St:
    __slots__ = ("m", "pc")

    def __init__(self, m, pc):
        self.m = m
        self.pc = pc

    def copy(self):
        return St(dict(self.m), self.pc)

    def cond(self, c):
        """copy with c added, or None if contradictory"""
        if c is TRUE:
            return St(dict(self.m), self.pc)
        if c is FALSE:
            return None
        lits = c.a if c.k == "and" else (c,)
        return St(dict(self.m), self.pc + tuple(x for x in lits if x not in self.pc))


def vsubst(v, env, cache):
    if isinstance(v, Poly):
        return subst(v, env, cache)
    if isinstance(v, B):
        return bsubst(v, env, cache)
    if isinstance(v, Agg):
        return Agg(tuple(vsubst(x, env, cache) for x in v.f))
    if isinstance(v, En):
        return En(vsubst(v.d, env, cache), {k: tuple(vsubst(x, env, cache) for x in f) for k, f in v.v.items()})
    if isinstance(v, (Tok, Str, FnV)):
        return v
    if isinstance(v, Ptr):
        cell = v.cell
        if isinstance(cell, tuple):
            cell = tuple(vsubst(x, env, cache) if isinstance(x, (Poly, SArr)) else
                         (tuple(vsubst(y, env, cache) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], Poly) else x)
                         for x in cell)
        path = tuple(vsubst(x, env, cache) if isinstance(x, Poly) else x for x in v.path)
        sl = None if v.sl is None else tuple(vsubst(x, env, cache) for x in v.sl)
        return Ptr(cell, path, sl)
    if isinstance(v, PIte):
        return PIte(bsubst(v.c, env, cache), vsubst(v.a, env, cache), vsubst(v.b, env, cache))
    if isinstance(v, VecV):
        return v
    if isinstance(v, Base):
        if not v.pre and isinstance(v.n, Poly) and v.n.const() is not None:
            return v
        return Base(v.name, tuple(subst(x, env, cache) for x in v.pre), v.elem, subst(v.n, env, cache), v.data)
    if isinstance(v, Store):
        return Store(vsubst(v.b, env, cache), subst(v.i, env, cache), vsubst(v.v, env, cache))
    if isinstance(v, Fill):
        return Fill(vsubst(v.v, env, cache), subst(v.n, env, cache))
    if isinstance(v, Lam):
        e2 = {k: x for k, x in env.items() if k != v.var}
        return Lam(None if v.b is None else vsubst(v.b, env, cache), subst(v.lo, env, cache), subst(v.cnt, env, cache),
                   v.var, vsubst(v.body, e2, cache if e2 is env or len(e2) == len(env) else {}), subst(v.n, env, cache))
    if isinstance(v, AIte):
        return AIte(bsubst(v.c, env, cache), vsubst(v.x, env, cache), vsubst(v.y, env, cache))
    if isinstance(v, Prefix):
        return Prefix(vsubst(v.b, env, cache), v.tag)
    raise Unsupported("substitution in %r" % (v,))


def vatoms(v, out):
    """atom ids and fresh booleans in a value (deep)"""
    if isinstance(v, (Poly, B)):
        deep_atoms(v, out)
    elif isinstance(v, Agg):
        for x in v.f:
            vatoms(x, out)
    elif isinstance(v, En):
        vatoms(v.d, out)
        for f in v.v.values():
            for x in f:
                vatoms(x, out)
    elif isinstance(v, (Tok, Str, FnV)):
        pass
    elif isinstance(v, Ptr):
        if v.sl:
            vatoms(v.sl[0], out)
            vatoms(v.sl[1], out)
        for x in v.path:
            if isinstance(x, Poly):
                vatoms(x, out)
        if isinstance(v.cell, tuple):
            for x in v.cell:
                if isinstance(x, (Poly, SArr)):
                    vatoms(x, out)
    elif isinstance(v, PIte):
        vatoms(v.c, out)
        vatoms(v.a, out)
        vatoms(v.b, out)
    elif isinstance(v, VecV):
        pass
    elif isinstance(v, Base):
        for x in v.pre:
            vatoms(x, out)
        vatoms(v.n, out)
    elif isinstance(v, Store):
        vatoms(v.b, out)
        vatoms(v.i, out)
        vatoms(v.v, out)
    elif isinstance(v, Fill):
        vatoms(v.v, out)
    elif isinstance(v, Lam):
        if v.b is not None:
            vatoms(v.b, out)
        vatoms(v.lo, out)
        vatoms(v.cnt, out)
        vatoms(v.body, out)
    elif isinstance(v, AIte):
        vatoms(v.c, out)
        vatoms(v.x, out)
        vatoms(v.y, out)
    elif isinstance(v, Prefix):
        vatoms(v.b, out)
    else:
        raise Unsupported("atoms of %r" % (v,))


def bools_in(v, out):
    """ids of boolean variables occurring in v"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, Agg):
            st.extend(x.f)
        elif isinstance(x, En):
            st.append(x.d)
            for f in x.v.values():
                st.extend(f)
        elif isinstance(x, Poly):
            for i in x.atoms():
                if i not in seen:
                    seen.add(i)
                    for z in ATOMS[i].args:
                        if isinstance(z, tuple):
                            st.extend(z)
                        else:
                            st.append(z)
        elif isinstance(x, B):
            if ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            if x.k == "var":
                out.add(x.id)
            elif x.k in ("le", "lt", "eq", "not"):
                st.append(x.a)
            elif x.k in ("and", "or", "any", "ufb"):
                st.extend(y for y in x.a if isinstance(y, (Poly, B)))
    return out


def vsame(a, b):
    if a is b:
        return True
    if isinstance(a, (Poly, B)) or isinstance(b, (Poly, B)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return len(a.f) == len(b.f) and all(vsame(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En):
        return a.d == b.d and a.v.keys() == b.v.keys() and all(
            len(a.v[k]) == len(b.v[k]) and all(vsame(x, y) for x, y in zip(a.v[k], b.v[k])) for k in a.v)
    if isinstance(a, Ptr):
        return a.same(b)
    if isinstance(a, Str):
        return a.s == b.s
    if isinstance(a, FnV):
        return a.fn is b.fn
    if isinstance(a, VecV):
        return a.cell == b.cell
    if isinstance(a, Base):
        return a.key() == b.key()
    if isinstance(a, PIte):
        return a.c is b.c and vsame(a.a, b.a) and vsame(a.b, b.b)
    if isinstance(a, Fill):
        return vsame(a.v, b.v) and a.n == b.n
    if isinstance(a, Store):
        return a.i == b.i and vsame(a.v, b.v) and vsame(a.b, b.b)
    if isinstance(a, Prefix):
        return a.tag == b.tag
    if isinstance(a, Lam):
        return a.var == b.var and a.lo == b.lo and a.cnt == b.cnt and vsame(a.body, b.body) and \
            ((a.b is None and b.b is None) or (a.b is not None and b.b is not None and vsame(a.b, b.b)))
    if isinstance(a, AIte):
        return a.c is b.c and vsame(a.x, b.x) and vsame(a.y, b.y)
    return False


def flat(elems):
    """blocks of a region"""
    out = set()
    st = list(elems)
    while st:
        e = st.pop()
        if type(e) is int:
            out.add(e)
        else:
            out.add(e[1])
            st.extend(e[2])
    return out


class SymLoop(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class LoopCtx:
    __slots__ = ("fn", "head", "frame", "conds", "it", "unroll", "body")

    def __init__(self, fn, head, frame, unroll, body=()):
        self.body = body
        self.fn = fn
        self.head = head
        self.frame = frame
        self.conds = {}
        self.it = 0
        self.unroll = unroll


class Frame:
    __slots__ = ("id", "fn", "base", "parent", "site")

    def __init__(self, i, fn, parent, site):
        self.id = i
        self.fn = fn
        self.parent = parent
        self.site = site


class Panic:
    __slots__ = ("fn", "span", "kind", "pc", "cond")


class Exec:
    def __init__(self, prog, mode, obligations=None):
        self.p = prog
        self.mode = mode              # 'real' or 'havoc'
        self.facts = []               # list of (pc tuple, B) facts known to hold globally
        self.obl = obligations        # callable(kind, fn, span, pc, cond) or None
        self.loops = []
        self.nframe = 0
        self.ncell = 0
        self.contracts = []           # (predicate(fn), handler)
        self.fnctr = {}
        self.depth = 0
        self.steps = 0
        self.max_steps = 3_000_000
        self.assumed = set()          # std contracts used
        self.tuples_cache = {}
        self.skip_asserts = mode == "real"
        import builtins_std
        self.bi = builtins_std.Builtins(self)
        self._bcache = {}
        self.lamlevel = 0
        self.unroll_mul = None

    # -------------------------------------------------------------- types
    def tk(self, t):
        return self.p.types[t]

    def is_R(self, t):
        ty = self.p.types[t]
        return ty["k"] == "adt" and ty["name"].endswith("r::R")

    def newcell(self, tag="h"):
        self.ncell += 1
        return (tag, self.ncell)

    # -------------------------------------------------------------- merging
    def ite(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return terms.ite(c, a, b)
        if isinstance(a, B) and isinstance(b, B):
            return bite(c, a, b)
        if a is TOP or b is TOP:
            return TOP
        ta, tb = type(a), type(b)
        if ta is Agg and tb is Agg:
            if len(a.f) != len(b.f):
                raise Unsupported("merge of aggregates of different sizes")
            return Agg(tuple(self.ite(c, x, y) for x, y in zip(a.f, b.f)))
        if ta is En and tb is En:
            v = dict(a.v)
            for k, f in b.v.items():
                if k in v:
                    v[k] = tuple(self.ite(c, x, y) for x, y in zip(v[k], f))
                else:
                    v[k] = f
            return En(terms.ite(c, a.d, b.d), v)
        if vsame(a, b):
            return a
        if ta in (Str, Tok) and tb in (Str, Tok):
            return ANYSTR
        if ta in (Ptr, PIte) and tb in (Ptr, PIte):
            if ta is Ptr and tb is Ptr and samecell(a.cell, b.cell) and len(a.path) == len(b.path) and (a.sl is None) == (b.sl is None):
                ok = True
                path = []
                for x, y in zip(a.path, b.path):
                    if x == y:
                        path.append(x)
                    elif isinstance(x, (Poly, int)) and isinstance(y, (Poly, int)):
                        # indices into the same array
                        px = x if isinstance(x, Poly) else K(x)
                        py = y if isinstance(y, Poly) else K(y)
                        ok = ok and (isinstance(x, Poly) or isinstance(y, Poly))
                        path.append(terms.ite(c, px, py))
                    else:
                        ok = False
                if ok:
                    sl = None if a.sl is None else (terms.ite(c, a.sl[0], b.sl[0]), terms.ite(c, a.sl[1], b.sl[1]))
                    return Ptr(a.cell, tuple(path), sl)
            return PIte(c, a, b)
        if isinstance(a, SArr) and isinstance(b, SArr):
            if a.n != b.n:
                raise Unsupported("merge of arrays of different lengths")
            return AIte(c, a, b)
        raise Unsupported("merge of %r and %r" % (ta, tb))

    def merge2(self, a, b):
        pa, pb = a.pc, b.pc
        n = 0
        for x, y in zip(pa, pb):
            if x is not y:
                break
            n += 1
        ra, rb = pa[n:], pb[n:]
        ca, cb = And(*ra), And(*rb)
        if ca is TRUE or cb is TRUE:
            # one condition subsumes the other syntactically: overlapping states
            # (havoc branches); keep the one with conditions as the discriminator
            if ca is TRUE and cb is TRUE:
                raise Unsupported("indistinguishable states")
            if ca is TRUE:
                a, b, ca, cb = b, a, cb, ca
        c = ca
        m = {}
        am, bm = a.m, b.m
        for k, v in am.items():
            w = bm.get(k)
            if w is v:
                m[k] = v
            elif w is not None:
                m[k] = self.ite(c, v, w)
        d = Or(ca, cb)
        pc = pa[:n] + (() if d is TRUE else tuple(d.a) if d.k == "and" else (d,))
        return St(m, pc)

    def merge(self, states):
        while len(states) > 1:
            best = None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    n = 0
                    for x, y in zip(states[i].pc, states[j].pc):
                        if x is not y:
                            break
                        n += 1
                    if best is None or n > best[0]:
                        best = (n, i, j)
            _, i, j = best
            m = self.merge2(states[i], states[j])
            states = [s for k, s in enumerate(states) if k not in (i, j)] + [m]
        return states[0]

    # -------------------------------------------------------------- memory
    def load_cell(self, st, cell):
        if isinstance(cell, tuple) and cell[0] == "nest":
            b = cell[1]
            return b
        try:
            return st.m[cell]
        except KeyError:
            raise Unsupported("read of dead cell %r" % (cell,))

    def sget(self, st, arr, i):
        """element i of a symbolic array"""
        if isinstance(arr, Base):
            return self.base_get(arr, i)
        if isinstance(arr, Store):
            d = arr.i - i
            c = d.const()
            if c is not None:
                return arr.v if c == 0 else self.sget(st, arr.b, i)
            e = self.simp(eq(d), st)
            if e is TRUE:
                return arr.v
            if e is FALSE:
                return self.sget(st, arr.b, i)
            return self.ite(e, arr.v, self.sget(st, arr.b, i))
        if isinstance(arr, Fill):
            return arr.v
        if isinstance(arr, Refs):
            return arr.f(i)
        if isinstance(arr, Lam):
            j = i - arr.lo
            c = And(le(ZERO, j), lt(j, arr.cnt))
            c = self.simp(c, st)
            v = None
            if c is not FALSE:
                v = vsubst(arr.body, {arr.var: j}, {})
                if c is TRUE or arr.b is None:
                    return v
            w = self.sget(st, arr.b, i)
            return w if v is None else self.ite(c, v, w)
        if isinstance(arr, AIte):
            c = self.simp(arr.c, st)
            if c is TRUE:
                return self.sget(st, arr.x, i)
            if c is FALSE:
                return self.sget(st, arr.y, i)
            return self.ite(c, self.sget(st, arr.x, i), self.sget(st, arr.y, i))
        if isinstance(arr, Prefix):
            if self.mode == "havoc":
                v = self.sget(st, arr.b, i)
                if v is TOP:
                    return TOP
            raise Unsupported("read of an array written by the enclosing loop")
        raise Unsupported("sget %r" % (arr,))

    def base_get(self, arr, i):
        e = arr.elem
        if e == "T":
            if self.mode == "havoc":
                return TOP
            return sel(arr.name, arr.pre + (i,), False, None, None, arr.data)
        if e == "U":
            return sel(arr.name, arr.pre + (i,), True, 0, UMAX)
        if e == "B":
            return ufb(arr.name, arr.pre + (i,))
        if e[0] == "S":
            n = sel(arr.name + ".len", arr.pre + (i,), True, 0, LMAX)
            inner = Base(arr.name, arr.pre + (i,), e[1], n, arr.data)
            return Ptr(("nest", inner, arr.name, i), (), (ZERO, n))
        if e[0] == "V":
            # reference to a vector
            n = sel(arr.name + ".len", arr.pre + (i,), True, 0, LMAX)
            inner = Base(arr.name, arr.pre + (i,), e[1], n, arr.data)
            return Ptr(("nest", VecV(("nest", inner, arr.name, i)), arr.name, i, "v"))
        raise Unsupported("element kind %r" % (e,))

    def child(self, st, v, step):
        if isinstance(v, Agg):
            if isinstance(step, int):
                return v.f[step]
            if isinstance(step, Poly):
                c = step.const()
                if c is not None:
                    if not 0 <= c < len(v.f):
                        return UNDEF
                    return v.f[c]
                r = v.f[-1]
                for k in range(len(v.f) - 2, -1, -1):
                    e = self.simp(eq(step, K(k)), st)
                    r = self.ite(e, v.f[k], r) if e.k not in "TF" else (v.f[k] if e is TRUE else r)
                return r
        if isinstance(v, SArr):
            return self.sget(st, v, step if isinstance(step, Poly) else K(step))
        if isinstance(v, En):
            if isinstance(step, tuple):
                f = v.v.get(step[1])
                if f is None:
                    return UNDEF
                return Agg(f)
        if v is UNDEF:
            return UNDEF
        raise Unsupported("projection %r of %r" % (step, v))

    def load(self, st, cell, path):
        v = self.load_cell(st, cell)
        for s in path:
            v = self.child(st, v, s)
        return v

    def update(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        if isinstance(v, Agg):
            if isinstance(s, Poly):
                c = s.const()
                if c is None:
                    f = []
                    for k in range(len(v.f)):
                        e = self.simp(eq(s, K(k)), st)
                        f.append(v.f[k] if e is FALSE else
                                 self.ite(e, self.update(st, v.f[k], path[1:], val), v.f[k]))
                    return Agg(tuple(f))
                s = c
            f = list(v.f)
            f[s] = self.update(st, f[s], path[1:], val)
            return Agg(tuple(f))
        if isinstance(v, SArr):
            i = s if isinstance(s, Poly) else K(s)
            if len(path) > 1:
                val = self.update(st, self.sget(st, v, i), path[1:], val)
            return Store(v, i, val)
        if isinstance(v, En) and isinstance(s, tuple):
            nv = dict(v.v)
            cur = Agg(nv.get(s[1], ()))
            if len(path) > 1:
                k = path[1]
                f = list(cur.f)
                while len(f) <= k:
                    f.append(UNDEF)
                f[k] = self.update(st, f[k], path[2:], val)
                nv[s[1]] = tuple(f)
            return En(v.d, nv)
        raise Unsupported("update %r of %r" % (s, v))

    def store(self, st, cell, path, val):
        if not path:
            st.m[cell] = val
            return
        if isinstance(cell, tuple) and cell[0] == "nest":
            raise Unsupported("write through nested input slice")
        st.m[cell] = self.update(st, st.m.get(cell, UNDEF), path, val)

    # -------------------------------------------------------------- simplification under the path condition
    def simp(self, b, st):
        if b.k in "TF":
            return b
        pc = st.pc
        if b in pc:
            return TRUE
        n = Not(b)
        if n in pc:
            return FALSE
        if b.k == "and":
            return And(*[self.simp(x, st) for x in b.a])
        if b.k == "or":
            return Or(*[self.simp(x, st) for x in b.a])
        if b.k in ("le", "lt", "eq"):
            # single inequality implied by a literal with the same linear part
            p = b.a
            base = p - K(p.c0())
            for l in pc:
                if l.k in ("le", "lt", "eq"):
                    q = l.a
                    if len(q.t) - (() in q.t) != len(base.t):
                        continue
                    d = p - q
                    c = d.const()
                    if c is not None:
                        # p = q + c
                        if l.k == "eq":
                            return bconst(c <= 0 if b.k == "le" else c < 0 if b.k == "lt" else c == 0)
                        if b.k != "eq":
                            if c < 0 or (c == 0 and (l.k == "lt" or b.k == "le")):
                                return TRUE
                        elif c < 0:
                            return FALSE  # p = q + c < 0
                        elif c == 0 and l.k == "lt":
                            return FALSE
                        continue
                    d = p + q
                    c = d.const()
                    if c is not None:
                        # p = c - q ; q<=0 -> p >= c
                        if l.k == "eq":
                            return bconst(c <= 0 if b.k == "le" else c < 0 if b.k == "lt" else c == 0)
                        if c > 0 or (c == 0 and (l.k == "lt" or b.k == "lt")):
                            return FALSE if (b.k != "lt" or c >= 0) else b
        return b

    def simpv(self, p, st):
        """simplify an integer/real poly that is an ite with decided condition"""
        while True:
            a = p.single_atom()
            if a is None or a.kind != "ite":
                return p
            c = self.simp(a.args[0], st)
            if c is TRUE:
                p = a.args[1]
            elif c is FALSE:
                p = a.args[2]
            else:
                return p

    # -------------------------------------------------------------- places
    def place(self, fr, st, pl):
        """resolve to (cell, path, slicewin) ; PIte derefs are returned as ('pite', c, A, B)"""
        loc, proj = pl
        return self._place(fr, st, (fr.id, loc), (), None, proj, 0)

    def _place(self, fr, st, cell, path, win, proj, k):
        n = len(proj)
        while k < n:
            e = proj[k]
            k += 1
            if e == "*":
                v = self.load(st, cell, path)
                return self._deref(fr, st, v, proj, k)
            t = e[0]
            if t == "f":
                path = path + (e[1],)
            elif t == "i":
                iv_ = self.load(st, (fr.id, e[1]), ())
                iv_ = self.simpv(iv_, st)
                path = path + ((iv_ if win is None else iv_ + win[0]),)
                win = None
            elif t == "c":
                off, _, fe = e[1], e[2], e[3]
                if fe:
                    ln = win[1] if win else self.arrlen(st, cell, path)
                    i = ln - K(off)
                else:
                    i = K(off)
                path = path + ((i if win is None else i + win[0]),)
                win = None
            elif t == "s":
                f, to, fe = e[1], e[2], e[3]
                ln = win[1] if win else self.arrlen(st, cell, path)
                o = win[0] if win else ZERO
                win = (o + K(f), (ln - K(to) - K(f)) if fe else K(to - f))
            elif t == "d":
                path = path + (("v", e[1]),)
            elif t == "o":
                pass
            else:
                raise Unsupported("projection " + str(e))
        return (cell, path, win)

    def _deref(self, fr, st, v, proj, k):
        if isinstance(v, Ptr):
            return self._place(fr, st, v.cell, v.path, v.sl, proj, k)
        if isinstance(v, PIte):
            c = self.simp(v.c, st)
            if c is TRUE:
                return self._deref(fr, st, v.a, proj, k)
            if c is FALSE:
                return self._deref(fr, st, v.b, proj, k)
            return ("pite", c, self._deref(fr, st, v.a, proj, k), self._deref(fr, st, v.b, proj, k))
        if (isinstance(v, Str) or v is ANYSTR) and k == len(proj):
            return ("str", v)
        raise Unsupported("deref of %r" % (v,))

    def arrlen(self, st, cell, path):
        v = self.load(st, cell, path)
        if isinstance(v, Agg):
            return K(len(v.f))
        if isinstance(v, SArr):
            return v.n
        raise Unsupported("length of %r" % (v,))

    def rd(self, st, r):
        if r[0] == "pite":
            return self.ite(r[1], self.rd(st, r[2]), self.rd(st, r[3]))
        cell, path, win = r
        if win is not None:
            raise Unsupported("read of an unsized place")
        return self.load(st, cell, path)

    def wr(self, st, r, val):
        if r[0] == "pite":
            self.wr(st, r[2], self.ite(r[1], val, self.rd(st, r[2])))
            self.wr(st, r[3], self.ite(Not(r[1]), val, self.rd(st, r[3])))
            return
        cell, path, win = r
        if win is not None:
            raise Unsupported("write of an unsized place")
        self.store(st, cell, path, val)

    def addr(self, st, r):
        if r[0] == "pite":
            return PIte(r[1], self.addr(st, r[2]), self.addr(st, r[3]))
        if r[0] == "str":
            return r[1]
        return Ptr(r[0], r[1], r[2])

    # -------------------------------------------------------------- constants
    def const(self, c, t):
        ty = self.p.types[t]
        k = ty["k"]
        if "i" in c:
            v = int(c["i"])
            if k == "bool":
                return bconst(v != 0)
            return K(v)
        if "zst" in c:
            if k == "fndef":
                return FnV(ty["fn"])
            if k == "adt" and ty["adt"] == "enum":
                return En(K(0), {0: ()})
            return UNIT
        if "str" in c:
            return Str(c["str"])
        if "arr" in c:
            return Agg(tuple(self.const(x, ty["elem"]) for x in c["arr"]))
        if "tup" in c:
            return Agg(tuple(self.const(x, e) for x, e in zip(c["tup"], ty["elems"])))
        if "adt" in c:
            vi = c["adt"]
            var_ = ty["variants"][vi]
            f = tuple(self.const(x, e) for x, e in zip(c["fields"], var_["fields"]))
            if ty["adt"] == "enum":
                return En(K(self.discr_of(t, vi)), {vi: f})
            return Agg(f)
        if "fbits" in c:
            import struct
            b = int(c["fbits"])
            f = struct.unpack("<d", struct.pack("<Q", b))[0] if c["bits"] == 64 else struct.unpack("<f", struct.pack("<I", b))[0]
            if f != f or f in (float("inf"), float("-inf")):
                raise Unsupported("non-finite constant")
            return K(norm(Fraction(f)))
        if "ref" in c:
            v = self.const(c["ref"], ty["elem"])
            cell = ("const", len(self.tuples_cache))
            self.tuples_cache[cell] = v
            return Ptr(("nest", v, "const", len(self.tuples_cache)))
        if "slice" in c:
            et = self.p.types[ty["elem"]]["elem"]
            v = Agg(tuple(self.const(x, et) for x in c["slice"]))
            return Ptr(("nest", v, "const", str(c["slice"])), (), (ZERO, K(len(v.f))))
        raise Unsupported("constant %r of type %s" % (c, ty["name"]))

    def discr_of(self, t, vi):
        d = self.p.types[t]["variants"][vi]["discr"]
        v = int(d)
        if v >= 1 << 127:
            v -= 1 << 128
        if v >= 128 and self.p.types[t].get("def") == "std::cmp::Ordering":
            v -= 256
        return v

    def operand(self, fr, st, o):
        if "cp" in o:
            return self.rd(st, self.place(fr, st, o["cp"]))
        if "mv" in o:
            return self.rd(st, self.place(fr, st, o["mv"]))
        if "rt" in o:
            return FALSE
        return self.const(o["c"], o["ty"])

    def oty(self, fr, o):
        """type id of an operand, when syntactically available"""
        if "ty" in o:
            return o["ty"]
        loc, proj = o.get("cp") or o.get("mv")
        t = fr.fn.locals[loc]
        for e in proj:
            if t is None:
                return None
            ty = self.p.types[t]
            if e == "*":
                t = ty.get("elem")
                if t is None:
                    return None
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = ty.get("elem")
            elif e[0] == "d":
                pass
            elif e[0] == "o":
                t = e[1]
            else:
                return None
        return t

    # -------------------------------------------------------------- integer semantics
    def bits(self, t):
        ty = self.p.types[t]
        if ty["k"] == "uint":
            return 0, (1 << ty["bits"]) - 1, ty["bits"]
        if ty["k"] == "int":
            b = ty["bits"]
            return -(1 << (b - 1)), (1 << (b - 1)) - 1, b
        if ty["k"] == "char":
            return 0, (1 << 32) - 1, 32
        if ty["k"] == "bool":
            return 0, 1, 1
        return None

    def wrap(self, v, lo, hi, st):
        """v modulo 2^bits into [lo, hi], for |v| within one wrap"""
        m = hi - lo + 1
        c = v.const()
        if c is not None:
            return K((c - lo) % m + lo)
        l, h = iv(v)
        if l is not None and h is not None and l >= lo and h <= hi:
            return v
        under = self.known(lt(v, K(lo)), st)
        over = self.known(lt(K(hi), v), st)
        if under is FALSE and over is FALSE:
            return v
        if l is not None and h is not None and l >= lo - m and h <= hi + m:
            return terms.ite(under, v + K(m), terms.ite(over, v - K(m), v))
        return uf("wrap%d" % m, (v, K(lo)), True, lo, hi)

    def known(self, b, st):
        """decide b under the path condition and facts, using the solver if needed"""
        b = self.simp(b, st)
        if b.k in "TF":
            return b
        if self.prover is not None:
            if self.prover(self, st, Not(b)):
                return FALSE
            if self.prover(self, st, b):
                return TRUE
        return b

    prover = None

    def nonneg(self, x, st):
        l = iv(x)[0]
        return l is not None and l >= 0 or self.known(le(ZERO, x), st) is TRUE

    def binop(self, fr, st, op, x, y, xo):
        if op in ("AddUnchecked",):
            op = "Add"
        elif op == "SubUnchecked":
            op = "Sub"
        elif op == "MulUnchecked":
            op = "Mul"
        if isinstance(x, B) and isinstance(y, B):
            if op == "Eq":
                return Iff(x, y)
            if op == "Ne":
                return Not(Iff(x, y))
            if op == "BitAnd":
                return And(x, y)
            if op == "BitOr":
                return Or(x, y)
            if op == "BitXor":
                return Not(Iff(x, y))
            x = terms.ite(x, ONE, ZERO)
            y = terms.ite(y, ONE, ZERO)
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            raise Unsupported("binop %s on %r, %r" % (op, x, y))
        if op == "Lt":
            return lt(x, y)
        if op == "Le":
            return le(x, y)
        if op == "Gt":
            return lt(y, x)
        if op == "Ge":
            return le(y, x)
        if op == "Eq":
            return eq(x, y)
        if op == "Ne":
            return Not(eq(x, y))
        if op == "Cmp":
            return En(terms.ite(lt(x, y), K(-1), terms.ite(eq(x, y), ZERO, ONE)), {0: (), 1: (), 2: ()})
        t = self.oty(fr, xo)
        rng = self.bits(t) if t is not None else None
        if rng is None:
            raise Unsupported("binop on type")
        lo, hi, bits = rng
        if op == "Add":
            return self.wrap(x + y, lo, hi, st)
        if op == "Sub":
            return self.wrap(x - y, lo, hi, st)
        if op == "Mul":
            v = x * y
            c = v.const()
            if c is not None:
                return K((c - lo) % (hi - lo + 1) + lo)
            l, h = iv(v)
            if l is not None and h is not None and l >= lo and h <= hi:
                return v
            if self.known(lt(K(hi), v), st) is FALSE and self.known(lt(v, K(lo)), st) is FALSE:
                return v
            return uf("wrapmul", (v, K(lo)), True, lo, hi)
        cx, cy = x.const(), y.const()
        if op in ("Div", "Rem"):
            if cx is not None and cy is not None and cy != 0:
                q = abs(cx) // abs(cy)
                q = q if (cx < 0) == (cy < 0) else -q
                return K(q) if op == "Div" else K(cx - q * cy)
            if cy is not None and cy > 0 and self.nonneg(x, st):
                q = floor(x.scale(Fraction(1, cy)))
                return q if op == "Div" else x - q.scale(cy)
            raise Unsupported("integer division")
        if cx is not None and cy is not None:
            if op == "BitAnd":
                return K(cx & cy)
            if op == "BitOr":
                return K(cx | cy)
            if op == "BitXor":
                return K(cx ^ cy)
            if op in ("Shl", "ShlUnchecked"):
                return K(((cx << (cy % bits)) - lo) % (hi - lo + 1) + lo)
            if op in ("Shr", "ShrUnchecked"):
                return K(cx >> (cy % bits))
        if cy is not None and op in ("Shr", "ShrUnchecked") and self.nonneg(x, st):
            return floor(x.scale(Fraction(1, 1 << cy)))
        if op == "BitAnd" and cy is not None and iv(x)[0] is not None and iv(x)[0] >= 0 and (cy & (cy + 1)) == 0:
            return x - floor(x.scale(Fraction(1, cy + 1))).scale(cy + 1)
        if op == "Offset":
            raise Unsupported("pointer arithmetic")
        raise Unsupported("binop " + op)

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref" or k == "addr":
            return self.addr(st, self.place(fr, st, r[1]))
        if k == "bin":
            x = self.operand(fr, st, r[2])
            y = self.operand(fr, st, r[3])
            return self.binop(fr, st, r[1], x, y, r[2])
        if k == "cbin":
            x = self.operand(fr, st, r[2])
            y = self.operand(fr, st, r[3])
            t = self.oty(fr, r[2])
            lo, hi, bits = self.bits(t)
            op = r[1]
            if not isinstance(x, Poly):
                raise Unsupported("checked op on %r" % (x,))
            v = x + y if op == "Add" else x - y if op == "Sub" else x * y if op == "Mul" else None
            if v is None:
                raise Unsupported("checked " + op)
            ov = Or(lt(v, K(lo)), lt(K(hi), v))
            return Agg((v, ov))
        if k == "cast":
            return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), r[3], r[2])
        if k == "agg":
            ops = tuple(self.operand(fr, st, o) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                ty = self.p.types[kk[1]]
                if ty["adt"] == "enum":
                    return En(K(self.discr_of(kk[1], kk[2])), {kk[2]: ops})
                if kk[3] is not None:
                    raise Unsupported("union")
                return Agg(ops)
            if kk[0] in ("tuple", "array", "closure"):
                return Agg(ops)
            if kk[0] == "rawptr":
                p, n = ops
                if isinstance(p, Ptr) and isinstance(n, Poly):
                    raise Unsupported("raw slice pointer")
                return p
            raise Unsupported("aggregate " + str(kk))
        if k == "discr":
            v = self.rd(st, self.place(fr, st, r[1]))
            if isinstance(v, En):
                return self.simpv(v.d, st)
            raise Unsupported("discriminant of %r" % (v,))
        if k == "len":
            rr = self.place(fr, st, r[1])
            return self.plen(st, rr)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            return Agg((v,) * r[2])
        if k == "un":
            v = self.operand(fr, st, r[2])
            op = r[1]
            if op == "Not":
                if isinstance(v, B):
                    return Not(v)
                t = self.oty(fr, r[2])
                lo, hi, _ = self.bits(t)
                return K(hi) - v if lo == 0 else K(-1) - v
            if op == "Neg":
                return -v
            if op == "PtrMetadata":
                return self.ptrlen(v)
            raise Unsupported("unop " + op)
        raise Unsupported("rvalue " + k)

    def ptrlen(self, v):
        if isinstance(v, Ptr):
            if v.sl is None:
                return UNIT
            return v.sl[1]
        if isinstance(v, PIte):
            return terms.ite(v.c, self.ptrlen(v.a), self.ptrlen(v.b))
        if isinstance(v, Str):
            return K(len(v.s.encode()))
        raise Unsupported("metadata of %r" % (v,))

    def ptrlen_of(self, st, v):
        if isinstance(v, Ptr) and v.sl is None:
            w = self.load(st, v.cell, v.path)
            if isinstance(w, (Ptr, PIte)):
                return self.ptrlen_of(st, w)
            if isinstance(w, VecV):
                return self.load(st, w.cell, ()).n
            return self.arrlen(st, v.cell, v.path)
        if isinstance(v, PIte):
            return terms.ite(v.c, self.ptrlen_of(st, v.a), self.ptrlen_of(st, v.b))
        return self.ptrlen(v)

    def group_bool(self, outs):
        g = {}
        for s, r in outs:
            g.setdefault(r, []).append(s)
        return [(self.merge(l) if len(l) > 1 else l[0], r) for r, l in g.items()]

    def has_freshb(self, b):
        for i in bools_in(b, set()):
            if "#" in str(terms.BS[i].a):
                return True
        return False

    def note_branch_b(self, fr, site, c):
        if fr is not None and c.k in ("le", "lt", "eq"):
            self.note_branch(fr, ("rn", site[0] if site else None), c)

    def plen(self, st, rr):
        if rr[0] == "pite":
            return terms.ite(rr[1], self.plen(st, rr[2]), self.plen(st, rr[3]))
        cell, path, win = rr
        if win is not None:
            return win[1]
        return self.arrlen(st, cell, path)

    def cast(self, fr, st, kind, v, t, o):
        ty = self.p.types[t]
        if kind == "IntToInt":
            if isinstance(v, B):
                v = terms.ite(v, ONE, ZERO)
            if isinstance(v, En):
                v = v.d
            rng = self.bits(t)
            if rng is None:
                raise Unsupported("cast to " + ty["name"])
            return self.wrap(v, rng[0], rng[1], st)
        if kind.startswith("PointerCoercion(Unsize"):
            return self.unsize(v, self.oty(fr, o), t)
        if kind.startswith("PointerCoercion(ClosureFnPointer") or kind.startswith("PointerCoercion(Reify"):
            return v
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion(Mut"):
            if isinstance(v, Ptr):
                so = self.oty(fr, o)
                if so is not None:
                    a = self.p.types[self.p.types[so]["elem"]]
                    b = self.p.types[ty["elem"]]
                    if a["name"] == b["name"]:
                        return v
            raise Unsupported("pointer cast")
        if kind == "Transmute":
            raise Unsupported("transmute")
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            raise Unsupported(kind)
        raise Unsupported("cast " + kind)

    def unsize(self, v, st_, t):
        if isinstance(v, PIte):
            return PIte(v.c, self.unsize(v.a, st_, t), self.unsize(v.b, st_, t))
        src = self.p.types[st_]
        e = self.p.types[src["elem"]] if "elem" in src else None
        if e is not None and e["k"] == "array" and isinstance(v, Ptr):
            return Ptr(v.cell, v.path, (ZERO, K(e["len"])))
        if isinstance(v, Ptr):
            raise Unsupported("unsize coercion to " + self.p.types[t]["name"])
        raise Unsupported("unsize")

    # -------------------------------------------------------------- obligations
    def must(self, kind, fr, span, st, cond):
        """cond has to hold here. In value mode it is assumed (proved separately)."""
        cond = self.simp(cond, st)
        if cond is TRUE:
            if self.obl is not None:
                self.obl(self, kind, fr, span, st, cond)
            return st
        if self.obl is not None:
            self.obl(self, kind, fr, span, st, cond)
        if cond is FALSE:
            return None
        self.facts.append((st.pc, cond))
        return st

    # -------------------------------------------------------------- blocks
    def run(self, fn, args, st, fr_parent=None, site=None):
        """execute fn; returns list of (St, ret) grouped by result variant"""
        if fn.body is None:
            raise Unsupported("no body for " + fn.name)
        mir.prepare(fn)
        self.nframe += 1
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        fr = Frame(self.nframe, fn, fr_parent, site)
        m = dict(st.m)
        argc = fn.argc
        if fn.spread is not None and len(args) != argc:
            # rust-call ABI: last parameter gathers the tuple
            k = fn.spread - 1
            args = list(args[:k]) + [Agg(tuple(args[k:]))]
        if len(args) != argc:
            raise Unsupported("argument count of " + fn.name)
        for i, a in enumerate(args):
            m[(fr.id, i + 1)] = a
        inbox = {0: [St(m, st.pc)]}
        rets = []
        self.region(fr, fn.wto, inbox, rets)
        self.depth -= 1
        out = []
        fid = fr.id
        for s in rets:
            rv = s.m.get((fid, 0), UNIT)
            s.m = {k: v for k, v in s.m.items() if k[0] != fid}
            out.append((s, rv))
        if fn.krate == "interpn":
            self.fnctr[fn.name] = self.fnctr.get(fn.name, 0) + 1
        return self.group(out)

    def group(self, outs):
        """merge return states except those with different constant variants"""
        if len(outs) <= 1:
            return outs
        g = {}
        for s, r in outs:
            key = None
            if isinstance(r, En):
                key = r.d.const()
            g.setdefault(key, []).append((s, r))
        res = []
        for key, l in g.items():
            if len(l) == 1:
                res.append(l[0])
                continue
            for s, r in l:
                s.m[("ret", 0)] = r
            s = self.merge([s for s, _ in l])
            r = s.m.pop(("ret", 0))
            res.append((s, r))
        return res

    def region(self, fr, elems, inbox, rets):
        fn = fr.fn
        npred = fn.npred
        for el in elems:
            if type(el) is int:
                ss = inbox.pop(el, None)
                if not ss:
                    continue
                if len(ss) > 1 and npred[el] > 1:
                    ss = self.merge_by_ret(fr, ss)
                for s in ss:
                    self.block(fr, el, s, inbox, rets)
            else:
                self.loop(fr, el, inbox, rets)

    def merge_by_ret(self, fr, ss):
        """merge states, keeping those with different result variants apart"""
        g = {}
        k = (fr.id, 0)
        for s in ss:
            r = s.m.get(k)
            g.setdefault(r.d.const() if isinstance(r, En) else None, []).append(s)
        return [self.merge(l) if len(l) > 1 else l[0] for l in g.values()]

    def loop(self, fr, el, inbox, rets, unroll=False):
        head, body = el[1], el[2]
        ss = inbox.pop(head, None)
        if not ss:
            return
        entry = self.merge(ss) if len(ss) > 1 else ss[0]
        ctx = LoopCtx(fr.fn, head, fr, unroll, body)
        self.loops.append(ctx)
        nloops = len(self.loops)
        saved_in = {k: list(v) for k, v in inbox.items()}
        saved_rets = list(rets)
        depth = self.depth
        heads = [St(dict(entry.m), entry.pc)]
        cur = St(dict(entry.m), entry.pc)
        nfacts = len(self.facts)
        mark = self.obl.mark() if self.obl is not None else None
        try:
            while cur is not None:
                ctx.it += 1
                if ctx.it > 600:
                    raise Unsupported("loop does not terminate concretely")
                sub = inbox
                sub[head] = [cur]
                self.loop_body(fr, body, sub, rets)
                nxt = sub.pop(head, None)
                if not nxt:
                    cur = None
                else:
                    cur = self.merge(nxt) if len(nxt) > 1 else nxt[0]
                    if len(heads) < 3:
                        heads.append(St(dict(cur.m), cur.pc))
        except SymLoop as e:
            if e.ctx is not ctx:
                raise
            del self.loops[nloops - 1:]
            self.depth = depth
            inbox.clear()
            inbox.update(saved_in)
            del rets[:]
            rets.extend(saved_rets)
            del self.facts[nfacts:]
            if mark is not None:
                self.obl.reset(mark)
            import symloop
            try:
                symloop.run(self, fr, el, heads, inbox, rets)
                return
            except Unsupported:
                del self.loops[nloops - 1:]
                self.depth = depth
                inbox.clear()
                inbox.update({k: list(v) for k, v in saved_in.items()})
                del rets[:]
                rets.extend(saved_rets)
                if mark is not None:
                    self.obl.reset(mark)
                raise
        finally:
            del self.loops[nloops - 1:]

    def loop_body(self, fr, body, inbox, rets):
        """one iteration: the head block, then the rest; back edges stay in inbox[head]"""
        head = body[0]
        ss = inbox.pop(head)
        for s in ss:
            self.block(fr, head, s, inbox, rets)
        keep = inbox.pop(head, None)
        self.region(fr, body[1:], inbox, rets)
        if keep:
            inbox.setdefault(head, []).extend(keep)

    def block(self, fr, bi, st, inbox, rets):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")
        blk = fr.fn.blocks[bi]
        m = st.m
        fid = fr.id
        for s in blk[0]:
            k = s[0]
            if k == "=":
                v = self.rvalue(fr, st, s[2])
                pl = s[1]
                if not pl[1]:
                    m[(fid, pl[0])] = v
                else:
                    self.wr(st, self.place(fr, st, pl), v)
            elif k == "dead":
                m.pop((fid, s[1]), None)
            elif k == "sd":
                r = self.place(fr, st, s[1])
                t = None
                raise Unsupported("set discriminant")
            elif k == "assume":
                pass
            elif k == "cpy":
                raise Unsupported("copy_nonoverlapping")
        t = blk[1]
        k = t[0]
        if k == "goto":
            inbox.setdefault(t[1], []).append(st)
        elif k == "switch":
            self.switch(fr, bi, st, t, inbox)
        elif k == "return":
            rets.append(st)
        elif k == "call":
            self.do_call(fr, bi, st, t, inbox)
        elif k == "assert":
            c = self.operand(fr, st, t[1])
            if not t[2]:
                c = Not(c)
            s2 = self.must("assert:" + str(t[3][0]) + (":" + t[3][1] if t[3][0] == "overflow" else ""), fr, t[5], st, c)
            if s2 is not None:
                inbox.setdefault(t[4], []).append(s2)
        elif k == "drop":
            inbox.setdefault(t[2], []).append(st)
        elif k == "unreachable":
            self.must("unreachable", fr, "", st, FALSE)
        elif k in ("resume", "abort"):
            pass
        else:
            raise Unsupported("terminator " + k)

    def switch(self, fr, bi, st, t, inbox):
        d = self.operand(fr, st, t[1])
        if isinstance(d, B):
            d = self.simp(d, st)
            tgt = {int(v): b for v, b in t[2]}
            bt = tgt.get(1, t[3])
            bf = tgt.get(0, t[3])
            if d is TRUE or bt == bf:
                inbox.setdefault(bt, []).append(st)
                return
            if d is FALSE:
                inbox.setdefault(bf, []).append(st)
                return
            self.note_branch(fr, bi, d)
            inbox.setdefault(bt, []).append(st.cond(d))
            st2 = St(st.m, st.pc)
            n = Not(d)
            st2.pc = st.pc + tuple(x for x in (n.a if n.k == "and" else (n,)) if x not in st.pc)
            inbox.setdefault(bf, []).append(st2)
            return
        if not isinstance(d, Poly):
            raise Unsupported("switch on %r" % (d,))
        d = self.simpv(d, st)
        c = d.const()
        signed = None
        ty = self.p.types[t[4]] if t[4] is not None else None
        def val(s):
            v = int(s)
            if ty is not None and ty["k"] == "int" and v >> (ty["bits"] - 1):
                v -= 1 << ty["bits"]
            return v
        if c is not None:
            for v, b in t[2]:
                if val(v) == c:
                    inbox.setdefault(b, []).append(st)
                    return
            inbox.setdefault(t[3], []).append(st)
            return
        rest = st
        first = None
        other = fr.fn.blocks[t[3]]
        other_unreach = other is None or other[1][0] == "unreachable" and not other[0]
        br = t[2]
        for k, (v, b) in enumerate(br):
            e = self.simp(eq(d, K(val(v))), rest)
            if e is FALSE:
                continue
            if e is TRUE or (other_unreach and k == len(br) - 1):
                inbox.setdefault(b, []).append(rest)
                return
            if first is None:
                first = e
                self.note_branch(fr, bi, e)
            s2 = rest.cond(e)
            if s2 is not None:
                inbox.setdefault(b, []).append(s2)
            r2 = rest.cond(Not(e))
            if r2 is None:
                return
            rest = r2
        if not other_unreach:
            inbox.setdefault(t[3], []).append(rest)

    def p_dead(self, fn, b):
        b = fn.blocks[b]
        return b is None or b[1][0] == "unreachable" and not b[0]

    def note_branch(self, fr, bi, c):
        """detect a loop whose trip count is symbolic"""
        if not self.loops:
            return
        ctx = self.loops[-1]
        if ctx.unroll or c.k not in ("le", "lt", "eq"):
            return
        site = []
        f = fr
        if ctx.it >= 12 and fr is ctx.frame and type(bi) is int and c.a.is_int():
            # still undecided whether to leave: the number of iterations is unknown
            inner = flat(ctx.body)
            if any(b not in inner and not self.p_dead(fr.fn, b) for b in mir.succs(fr.fn.blocks[bi])):
                raise SymLoop(ctx)
        while f is not None and f is not ctx.frame:
            site.append(f.site)
            f = f.parent
        if f is None:
            return
        key = (fr.fn.id, bi, tuple(site))
        prev = ctx.conds.get(key)
        if prev is not None and prev[1] < ctx.it and prev[0].k == c.k:
            d = (c.a - prev[0].a).const()
            if d is None:
                d = (c.a + prev[0].a).const()
                if d is not None and c.k == "eq":
                    pass
                else:
                    d = None
            if d is not None and d != 0 and c.a.is_int():
                raise SymLoop(ctx)
        if prev is None or prev[1] < ctx.it:
            ctx.conds[key] = (c, ctx.it)

    # -------------------------------------------------------------- calls
    def do_call(self, fr, bi, st, t, inbox):
        _, fid, fop, aops, dest, target, span = t
        args = [self.operand(fr, st, o) for o in aops]
        if fid is None:
            f = self.operand(fr, st, fop)
            if isinstance(f, FnV) and f.fn is not None:
                fid = f.fn
            else:
                raise Unsupported("indirect call")
        fn = self.p.fns[fid]
        if fn.closure and fn.spread is None and fn.body is not None and len(args) == 2 and isinstance(args[1], Agg):
            # FnMut::call_mut(f, (args..)): the tuple is spread over the parameters
            args = [args[0]] + list(args[1].f)
        outs = self.call(fn, args, st, fr, (bi, fr.fn.id), span)
        for s, rv in outs:
            if target is None:
                continue
            if not dest[1]:
                s.m[(fr.id, dest[0])] = rv
            else:
                self.wr(s, self.place(fr, s, dest), rv)
            inbox.setdefault(target, []).append(s)

    def call(self, fn, args, st, fr=None, site=None, span=""):
        """returns list of (state, value)"""
        for pred, h in self.contracts:
            if pred(fn):
                r = h(self, fn, args, st, fr, span)
                if r is not None:
                    return r
        h = self.bi.find(fn)
        if h is not None:
            r = h(fn, args, st, fr, site, span)
            if r is not NotImplemented:
                return r
        return self.run(fn, args, st, fr, site)

    def call_closure(self, fn, closure, args, st, fr, site):
        """call closure body fn (FnMut/Fn/FnOnce call shims resolved by the compiler)"""
        return self.call(fn, [closure] + list(args), st, fr, site)
