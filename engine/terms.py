"""Terms of the verification-condition generator.

Poly: exact multivariate polynomials with rational coefficients over atoms
(integer or real sorted).  B: boolean terms.  Everything is immutable and
hash-consed (atoms, booleans) or compared by content (polynomials)."""
from fractions import Fraction
from math import gcd

INF = None


class Unsupported(Exception):
    """The engine cannot handle this code (tool limit, never an alarm)."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "int", "lo", "hi", "data", "h")

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_atab = {}


def _atom(kind, key, args, isint, lo=None, hi=None, data=False):
    k = (kind, key)
    a = _atab.get(k)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.args = args
    a.int = isint
    a.lo = lo
    a.hi = hi
    a.data = data
    ATOMS.append(a)
    _atab[k] = a
    return a


def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "sel":
        return "%s[%s]" % (a.args[0], ",".join(str(i) for i in a.args[1]))
    if k == "ite":
        return "ite(%s, %s, %s)" % a.args
    return "%s(%s)" % (k, ", ".join(str(x) for x in a.args))


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_k", "_int", "_iv")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._int = None
        self._iv = False

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    # arithmetic
    def __add__(self, o):
        a, b = self.t, o.t
        if not b:
            return self
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) * len(b) > 400000:
            raise Unsupported("polynomial blow-up")
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = v
        for m, c in r.items():
            if type(c) is Fraction and c.denominator == 1:
                r[m] = c.numerator
        return Poly(r)

    def scale(self, c):
        c = norm(c)
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: norm(k * c) for m, k in self.t.items()})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        """value if constant else None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1:
            return t.get(())
        return None

    def c0(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def is_int(self):
        """all atoms integer-sorted and coefficients integral"""
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if type(c) is Fraction and c.denominator != 1:
                    r = False
                    break
                for i in m:
                    if not ATOMS[i].int:
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int

    def single_atom(self):
        """atom if the polynomial is exactly 1*atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if len(m) == 1 and c == 1:
                return ATOMS[m[0]]
        return None

    def __repr__(self):
        return show(self)

    def __iter__(self):
        raise TypeError


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        s = "*".join(show_atom(ATOMS[i]) for i in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
        if len(out) > 12:
            out.append("...(%d terms)" % len(p.t))
            break
    return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]


ZERO = Poly({})
_consts = {}


def K(c):
    c = norm(c) if type(c) is Fraction else c
    p = _consts.get(c)
    if p is None:
        p = Poly({(): c}) if c != 0 else ZERO
        _consts[c] = p
    return p


ONE = K(1)


def P(atom):
    return Poly({(atom.id,): 1})


def var(name, isint, lo=None, hi=None):
    return P(_atom("var", name, (name,), isint, lo, hi))


_fresh = [0]


def fresh(name, isint, lo=None, hi=None):
    _fresh[0] += 1
    return var("%s#%d" % (name, _fresh[0]), isint, lo, hi)


def sel(arr, idx, isint, lo=None, hi=None, data=False):
    """arr[idx...]: arr is a name, idx a tuple of Poly"""
    return P(_atom("sel", (arr, idx), (arr, idx), isint, lo, hi, data))


def uf(name, args, isint, lo=None, hi=None, data=False):
    return P(_atom("uf", (name, args), (name,) + tuple(args), isint, lo, hi, data))


def mono_split(p):
    """split a polynomial by the data part of its monomials: {datamono: Poly}"""
    out = {}
    for m, c in p.t.items():
        d = tuple(i for i in m if ATOMS[i].data)
        r = tuple(i for i in m if not ATOMS[i].data) if d else m
        out.setdefault(d, {})[r] = c
    return {d: Poly(t) for d, t in out.items()}


def has_data(p):
    for m in p.t:
        for i in m:
            if ATOMS[i].data:
                return True
    return False


def mono_gcd(ms):
    g = None
    for m in ms:
        if g is None:
            g = list(m)
        else:
            rest = list(m)
            ng = []
            for i in g:
                if i in rest:
                    rest.remove(i)
                    ng.append(i)
            g = ng
        if not g:
            return ()
    return tuple(g) if g else ()


def mono_div(p, g):
    if not g:
        return p
    out = {}
    for m, c in p.t.items():
        r = list(m)
        for i in g:
            r.remove(i)
        out[tuple(r)] = c
    return Poly(out)


# ---------------------------------------------------------------- intervals
def atom_iv(a):
    return a.lo, a.hi


def iv(p):
    """(lo, hi) bounds, None for unbounded"""
    if p._iv is not False:
        return p._iv
    lo = hi = 0
    for m, c in p.t.items():
        l, h = 1, 1
        i = 0
        n = len(m)
        while i < n:
            a = ATOMS[m[i]]
            j = i
            while j < n and m[j] == m[i]:
                j += 1
            e = j - i
            al, ah = a.lo, a.hi
            if e % 2 == 0 and (al is None or al < 0):
                al, ah = (0, None)
                pl, ph = 0, None
            else:
                pl = None if al is None else al ** e
                ph = None if ah is None else ah ** e
            l, h = iv_mul(l, h, pl, ph)
            i = j
        if c < 0:
            l, h = (None if h is None else h * c), (None if l is None else l * c)
        else:
            l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None:
            break
    p._iv = (lo, hi)
    return p._iv


def iv_mul(al, ah, bl, bh):
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return al * bl, (None if ah is None or bh is None else ah * bh)
    if None in (al, ah, bl, bh):
        if (al, ah) == (0, 0) or (bl, bh) == (0, 0):
            return 0, 0
        return None, None
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return min(c), max(c)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "id", "_n")

    def __repr__(self):
        return showb(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_btab = {}
BS = []


def _b(k, a):
    key = (k, a)
    r = _btab.get(key)
    if r is None:
        r = B()
        r.k = k
        r.a = a
        r.id = len(BS)
        r._n = None
        BS.append(r)
        _btab[key] = r
    return r


TRUE = _b("T", None)
FALSE = _b("F", None)


def bconst(v):
    return TRUE if v else FALSE


def bvar(name):
    return _b("var", name)


_fb = [0]


def bfresh(name="b"):
    _fb[0] += 1
    return bvar("%s#%d" % (name, _fb[0]))


def content(p):
    """positive rational c such that p/c has coprime integer coefficients"""
    g = 0
    l = 1
    for c in p.t.values():
        if type(c) is Fraction:
            l = l * c.denominator // gcd(l, c.denominator)
    for c in p.t.values():
        g = gcd(g, int(c * l))
    return Fraction(g, l)


def _normineq(p):
    if len(p.t) == 0:
        return p
    c = content(p)
    if c != 1:
        p = p.scale(1 / c)
    return p


def push(p):
    """if p = c*ite + const, with an ite atom: (cond, p_then, p_else) else None"""
    t = p.t
    n = len(t)
    if n == 0 or n > 2 or (n == 2 and () not in t):
        return None
    for m, c in t.items():
        if m:
            if len(m) != 1:
                return None
            a = ATOMS[m[0]]
            if a.kind != "ite":
                return None
            k = K(t.get((), 0))
            return a.args[0], a.args[1].scale(c) + k, a.args[2].scale(c) + k
    return None


def _cmp(k, p):
    c = p.const()
    if c is not None:
        return bconst(c <= 0 if k == "le" else c < 0 if k == "lt" else c == 0)
    lo, hi = iv(p)
    if k == "le":
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    elif k == "lt":
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    else:
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return FALSE
    q = push(p)
    if q is not None:
        x = _cmp(k, q[1])
        y = _cmp(k, q[2])
        if (x.k in "TF" or y.k in "TF"):
            return bite(q[0], x, y)
    if p.is_int():
        if k == "lt":
            return _cmp("le", p + ONE)
        cont = content(Poly({m: c for m, c in p.t.items() if m}))
        if cont != 1:
            # integer tightening
            c0 = Fraction(p.c0()) / cont
            q = Poly({m: norm(Fraction(c) / cont) for m, c in p.t.items() if m})
            if k == "eq":
                if c0.denominator != 1:
                    return FALSE
                p = q + K(c0.numerator)
            else:
                p = q + K(-((-c0.numerator) // c0.denominator))  # ceil
    else:
        p = _normineq(p)
    if k == "eq":
        m = min(p.t)
        if m == ():
            m = min(x for x in p.t if x)
        if p.t[m] < 0:
            p = -p
    return _b(k, p)


def le(p, q=None):
    return _cmp("le", p if q is None else p - q)


def lt(p, q=None):
    return _cmp("lt", p if q is None else p - q)


def eq(p, q=None):
    return _cmp("eq", p if q is None else p - q)


def ge(p, q):
    return le(q, p)


def gt(p, q):
    return lt(q, p)


def Not(b):
    if b._n is not None:
        return b._n
    k = b.k
    if k == "T":
        r = FALSE
    elif k == "F":
        r = TRUE
    elif k == "not":
        r = b.a
    elif k == "le":
        r = _cmp("lt", -b.a)
    elif k == "lt":
        r = _cmp("le", -b.a)
    elif k == "and":
        r = Or(*[Not(x) for x in b.a])
    elif k == "or":
        r = And(*[Not(x) for x in b.a])
    else:
        r = _b("not", b)
    b._n = r
    if r._n is None:
        r._n = b
    return r


def And(*bs):
    s = []
    seen = set()
    for b in bs:
        for x in (b.a if b.k == "and" else (b,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x.id in seen:
                continue
            seen.add(x.id)
            s.append(x)
    for x in s:
        n = x._n
        if n is not None and n.id in seen:
            return FALSE
        if x.k in ("not",) and x.a.id in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    # absorption: a & (a | b)
    t = []
    for x in s:
        if x.k == "or" and any(y.id in seen and y is not x for y in x.a):
            continue
        if x.k == "or":
            # unit resolution
            rest = [y for y in x.a if Not(y).id not in seen]
            if len(rest) != len(x.a):
                return And(*([z for z in s if z is not x] + [Or(*rest)]))
        t.append(x)
    if len(t) == 1:
        return t[0]
    return _b("and", tuple(t))


def Or(*bs):
    s = []
    seen = set()
    for b in bs:
        for x in (b.a if b.k == "or" else (b,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x.id in seen:
                continue
            seen.add(x.id)
            s.append(x)
    for x in s:
        if Not(x).id in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    t = []
    for x in s:
        if x.k == "and" and any(y.id in seen for y in x.a):
            continue
        if x.k == "and":
            rest = [y for y in x.a if Not(y).id not in seen]
            if len(rest) != len(x.a):
                return Or(*([z for z in s if z is not x] + [And(*rest)]))
        t.append(x)
    if len(t) == 1:
        return t[0]
    # (a & r) | (!a & r) -> r
    ands = [x for x in t if x.k == "and"]
    for i in range(len(ands)):
        si = {y.id for y in ands[i].a}
        for j in range(i + 1, len(ands)):
            sj = {y.id for y in ands[j].a}
            di = si - sj
            dj = sj - si
            if len(di) == 1 and len(dj) == 1:
                (p,), (q,) = di, dj
                if Not(BS[p]) is BS[q]:
                    common = And(*[BS[y] for y in si & sj])
                    return Or(*([z for z in t if z is not ands[i] and z is not ands[j]] + [common]))
    return _b("or", tuple(t))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return Or(c, b)
    if a is FALSE:
        return And(Not(c), b)
    if b is TRUE:
        return Or(Not(c), a)
    if b is FALSE:
        return And(c, a)
    return Or(And(c, a), And(Not(c), b))


def showb(b):
    k = b.k
    if k == "T":
        return "true"
    if k == "F":
        return "false"
    if k == "var":
        return str(b.a)
    if k == "not":
        return "!" + showb(b.a)
    if k == "le":
        return "%s<=0" % show(b.a)
    if k == "lt":
        return "%s<0" % show(b.a)
    if k == "eq":
        return "%s==0" % show(b.a)
    if k == "and":
        return "(" + " & ".join(showb(x) for x in b.a) + ")"
    if k == "or":
        return "(" + " | ".join(showb(x) for x in b.a) + ")"
    if k == "any":
        return "any(%s,%s: %s)" % (b.a[0], b.a[1], showb(b.a[2]))
    return str((k, b.a))


# bound variable of quantified booleans / lambdas, one per nesting level
def bound(level):
    return var("@k%d" % level, True, 0, (1 << 63) - 1)


def Any(n, body, level):
    """exists k in [0,n): body, with bound variable bound(level)"""
    if body is FALSE:
        return FALSE
    c = n.const()
    if c == 0:
        return FALSE
    if body is TRUE:
        return lt(ZERO, n)
    return _b("any", (n, level, body))


# ---------------------------------------------------------------- ite / floor / div
def known(c, a):
    """cofactor helper: given condition c true, value of boolean a if obvious"""
    if a is c:
        return True
    if Not(c) is a:
        return False
    if c.k == "and":
        for x in c.a:
            if x is a:
                return True
            if Not(x) is a:
                return False
    return None


def simp_under(p, c):
    """p (Poly) when it is an ite atom whose condition is decided by c"""
    while True:
        a = p.single_atom()
        if a is None or a.kind != "ite":
            return p
        k = known(c, a.args[0])
        if k is None:
            return p
        p = a.args[1] if k else a.args[2]


def _ite_atom(c, p, q):
    p = simp_under(p, c)
    q = simp_under(q, Not(c))
    if p == q:
        return p
    # normal form: condition not a negation
    if c.k == "not":
        c, p, q = c.a, q, p
    # ite(c, a, ite(d, a, b)) etc. left alone
    isint = p.is_int() and q.is_int()
    pl, ph = iv(p)
    ql, qh = iv(q)
    lo = None if pl is None or ql is None else min(pl, ql)
    hi = None if ph is None or qh is None else max(ph, qh)
    return P(_atom("ite", (c, p.key, q.key), (c, p, q), isint, lo, hi))


def ite(c, p, q):
    if c is TRUE or p == q:
        return p
    if c is FALSE:
        return q
    if has_data(p) or has_data(q):
        sp, sq = mono_split(p), mono_split(q)
        out = {}
        for d in set(sp) | set(sq):
            r = _ite_fact(c, sp.get(d, ZERO), sq.get(d, ZERO))
            for m, k in r.t.items():
                out[mmul(m, d)] = k
        return Poly(out)
    return _ite_atom(c, p, q)


def _ite_fact(c, p, q):
    if p == q:
        return p
    g = mono_gcd(list(p.t) + list(q.t))
    if g:
        r = _ite_atom(c, mono_div(p, g), mono_div(q, g))
        return r * Poly({g: 1})
    return _ite_atom(c, p, q)


def imin(a, b):
    r = ite(le(a, b), a, b)
    return _tight(r, a, b, True)


def imax(a, b):
    r = ite(le(b, a), a, b)
    return _tight(r, a, b, False)


def _tight(r, a, b, mn):
    """interval of a minimum or maximum"""
    t = r.single_atom()
    if t is None or t.kind != "ite":
        return r
    (al, ah), (bl, bh) = iv(a), iv(b)
    if mn:
        hs = [h for h in (ah, bh) if h is not None]
        if hs and (t.hi is None or min(hs) < t.hi):
            t.hi = min(hs)
    else:
        ls = [l for l in (al, bl) if l is not None]
        if ls and (t.lo is None or max(ls) > t.lo):
            t.lo = max(ls)
    r._iv = False
    return r


def floor(p):
    c = p.const()
    if c is not None:
        return K(c.numerator // c.denominator if type(c) is Fraction else c)
    if p.is_int():
        return p
    # floor(p + integer) = floor(p) + integer
    c0 = Fraction(p.c0())
    k = c0.numerator // c0.denominator
    if k != 0:
        return floor(p - K(k)) + K(k)
    a = p.single_atom()
    if a is not None and a.kind == "ite":
        return ite(a.args[0], floor(a.args[1]), floor(a.args[2]))
    lo, hi = iv(p)
    return P(_atom("floor", p.key, (p,), True,
                   None if lo is None else Fraction(lo).__floor__(),
                   None if hi is None else Fraction(hi).__floor__()))


def inv(p):
    """1/p (meaningful when p != 0); p normalised to leading coefficient 1"""
    c = p.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by the constant zero")
        return K(Fraction(1) / c)
    lead = p.t[min(x for x in p.t if x)]
    if lead != 1:
        return inv(p.scale(Fraction(1) / lead)).scale(Fraction(1) / lead)
    if len(p.t) == 1:
        (m, k), = p.t.items()
        r = K(1)
        for i in m:
            a = ATOMS[i]
            if a.kind == "inv":
                r = r * a.args[0]
            elif a.kind == "div":
                r = r * div(a.args[1], a.args[0])
            else:
                r = r * P(_atom("inv", P(a).key, (P(a),), False))
        return r
    return P(_atom("inv", p.key, (p,), False))


def div(n, d):
    """n/d as a lazy atom"""
    c = d.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by the constant zero")
        return n.scale(Fraction(1) / c)
    if not n.t:
        return ZERO
    if n == d:
        return ONE
    if has_data(n):
        if has_data(d):
            raise Unsupported("division by data")
        return n * P(_div_atom(ONE, d)) if False else n * inv(d)
    return P(_div_atom(n, d)) if True else None


def _div_atom(n, d):
    # normalise sign/scale of the denominator and numerator content
    lead = d.t[min(x for x in d.t if x)]
    if lead != 1:
        n = n.scale(Fraction(1) / lead)
        d = d.scale(Fraction(1) / lead)
    return _atom("div", (n.key, d.key), (n, d), False)


_canon = {}


def canon(p):
    """replace every div atom by num*inv(den), recursively inside the polynomial
    (not inside ite conditions)"""
    r = _canon.get(p)
    if r is not None:
        return r
    if not any(ATOMS[i].kind == "div" for m in p.t for i in m):
        _canon[p] = p
        return p
    out = ZERO
    for m, c in p.t.items():
        q = K(c)
        for i in m:
            a = ATOMS[i]
            if a.kind == "div":
                q = q * (canon(a.args[0]) * inv(canon(a.args[1])))
            else:
                q = q * P(a)
        out = out + q
    _canon[p] = out
    return out


# ---------------------------------------------------------------- substitution
def subst(p, env, cache=None):
    """substitute atoms (by id -> Poly) everywhere, including inside atoms"""
    if cache is None:
        cache = {}
    out = None
    t = p.t
    changed = False
    ats = {}
    for i in p.atoms():
        r = subst_atom(i, env, cache)
        ats[i] = r
        if r is not None:
            changed = True
    if not changed:
        return p
    acc = {}
    out = ZERO
    for m, c in t.items():
        if all(ats[i] is None for i in m):
            v = acc.get(m, 0) + c
            if v == 0:
                acc.pop(m, None)
            else:
                acc[m] = v
            continue
        q = None
        rest = []
        for i in m:
            r = ats[i]
            if r is None:
                rest.append(i)
            else:
                q = r if q is None else q * r
        rest = tuple(rest)
        for m2, c2 in q.t.items():
            mm = mmul(rest, m2)
            v = norm(acc.get(mm, 0) + c * c2)
            if v == 0:
                acc.pop(mm, None)
            else:
                acc[mm] = v
    return Poly(acc)


def subst_atom(i, env, cache):
    """None if unchanged"""
    if i in env:
        return env[i]
    key = ("a", i)
    if key in cache:
        return cache[key]
    a = ATOMS[i]
    k = a.kind
    r = None
    if k == "var":
        r = None
    elif k == "sel":
        new = tuple(subst(x, env, cache) for x in a.args[1])
        if new != a.args[1]:
            r = sel(a.args[0], new, a.int, a.lo, a.hi, a.data)
    elif k == "uf":
        new = tuple(sub_any(x, env, cache) for x in a.args[1:])
        if new != a.args[1:]:
            r = uf(a.args[0], new, a.int, a.lo, a.hi, a.data)
    elif k == "ite":
        c = bsubst(a.args[0], env, cache)
        x = subst(a.args[1], env, cache)
        y = subst(a.args[2], env, cache)
        if c is not a.args[0] or x != a.args[1] or y != a.args[2]:
            r = ite(c, x, y)
    elif k == "floor":
        x = subst(a.args[0], env, cache)
        if x != a.args[0]:
            r = floor(x)
    elif k == "inv":
        x = subst(a.args[0], env, cache)
        if x != a.args[0]:
            r = inv(x)
    elif k == "div":
        x = subst(a.args[0], env, cache)
        y = subst(a.args[1], env, cache)
        if x != a.args[0] or y != a.args[1]:
            r = div(x, y)
    else:
        raise Unsupported("subst " + k)
    cache[key] = r
    return r


def sub_any(x, env, cache):
    if isinstance(x, Poly):
        return subst(x, env, cache)
    if isinstance(x, B):
        return bsubst(x, env, cache)
    if isinstance(x, tuple):
        return tuple(sub_any(y, env, cache) for y in x)
    return x


def bsubst(b, env, cache=None):
    if cache is None:
        cache = {}
    key = ("b", b.id)
    if key in cache:
        return cache[key]
    k = b.k
    if k in "TF":
        r = b
    elif k == "var":
        r = env.get(("b", b.id), b)
    elif k == "not":
        r = Not(bsubst(b.a, env, cache))
    elif k in ("le", "lt", "eq"):
        x = subst(b.a, env, cache)
        r = b if x is b.a else _cmp(k, x)
    elif k == "and":
        r = And(*[bsubst(x, env, cache) for x in b.a])
    elif k == "or":
        r = Or(*[bsubst(x, env, cache) for x in b.a])
    elif k == "any":
        n, lev, body = b.a
        bid = bound(lev).single_atom().id
        if bid in env or any(isinstance(x, Poly) and bid in deep_atoms(x) for x in env.values()):
            # rename the bound variable: it must not capture or be replaced
            nl = lev + 1000 + bid % 7
            while any(isinstance(x, Poly) and bound(nl).single_atom().id in deep_atoms(x) for x in env.values()) \
                    or bound(nl).single_atom().id in env or bound(nl).single_atom().id in deep_atoms(body):
                nl += 1
            body = bsubst(body, {bid: bound(nl)}, {})
            lev = nl
        r = Any(subst(n, env, cache), bsubst(body, env, cache), lev)
    elif k == "ufb":
        new = tuple(sub_any(x, env, cache) for x in b.a)
        r = b if new == b.a else _b("ufb", new)
    else:
        raise Unsupported("bsubst " + k)
    cache[key] = r
    return r


def ufb(name, args):
    return _b("ufb", (name,) + tuple(args))


# ---------------------------------------------------------------- atoms reachable
def deep_atoms(x, seen=None):
    """ids of all atoms occurring anywhere in x (Poly or B)"""
    if seen is None:
        seen = set()
    st = [x]
    bseen = set()
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for i in y.atoms():
                if i not in seen:
                    seen.add(i)
                    a = ATOMS[i]
                    for z in a.args:
                        if isinstance(z, (Poly, B)):
                            st.append(z)
                        elif isinstance(z, tuple):
                            st.extend(w for w in z if isinstance(w, (Poly, B)))
        elif isinstance(y, B):
            if y.id in bseen:
                continue
            bseen.add(y.id)
            if y.k in ("le", "lt", "eq", "not"):
                st.append(y.a)
            elif y.k in ("and", "or"):
                st.extend(y.a)
            elif y.k == "any":
                st.append(y.a[0])
                st.append(y.a[2])
            elif y.k == "ufb":
                st.extend(w for w in y.a if isinstance(w, (Poly, B)))
    return seen
