"""Modular treatment of a self-recursive function: each level is verified once
against the contract of the level below (value and frame), for generalised
contents of the memory it is passed."""
from terms import *
from exec import Unsupported
import terms
import exec as X
from exec import Agg, Ptr, St, TOP, UNDEF, UNIT, En
import mir


def is_self_recursive(fn, memo={}):
    k = id(fn)
    r = memo.get(k)
    if r is None:
        r = False
        if fn.body is not None:
            for b in fn.blocks:
                if b is not None and b[1][0] == "call" and b[1][1] == fn.id:
                    r = True
                    break
        memo[k] = r
    return r


class Level:
    __slots__ = ("key", "pos", "args", "ret", "fresh", "calls", "outs")


class Rec:
    def __init__(self, ex, min_level=0):
        self.ex = ex
        self.levels = {}
        self.top = None
        self.active = False
        self.fn = None
        self.requires = None     # callable(pos, value, level, st) -> B required at calls / assumed for fresh
        ex.contracts.append((is_self_recursive, self.handle))
        self.pending = []

    def pointees(self, st, args):
        """contents of the local arrays passed by reference: {(arg, idx): value}"""
        out = {}
        for k, a in enumerate(args):
            if isinstance(a, Ptr):
                try:
                    v = self.ex.load(st, a.cell, a.path)
                except Unsupported:
                    continue
                if isinstance(v, Agg) and not (isinstance(a.cell, tuple) and a.cell[0] in ("nest", "self")):
                    for j, e in enumerate(v.f):
                        out[(k, j)] = e
        return out

    def key(self, args):
        return tuple(a.const() if isinstance(a, Poly) and a.const() is not None else None for a in args)

    def handle(self, ex, fn, args, st, fr, span):
        if not self.active:
            # call from outside: start of the recursion
            if self.top is not None:
                raise Unsupported("several recursions")
            self.fn = fn
            self.top = (St(dict(st.m), st.pc), list(args), fr)
            self.c0 = self.pointees(st, args)
            self.pset = {}
            for _ in range(64):
                self.levels = {}
                self.pending = []
                self.grown = False
                r = self.summary(St(dict(st.m), st.pc), args, fr, span)
                self.run_all()
                if not self.grown:
                    return r
                self.grown = False
            raise Unsupported("recursion does not stabilise")
        if fn is not self.fn:
            raise Unsupported("mutual recursion")
        return self.summary(st, args, fr, span)

    def summary(self, st, args, fr, span):
        ex = self.ex
        key = self.key(args)
        for a, b in zip(args, self.top[1]):
            if isinstance(a, Poly) and a.const() is not None:
                continue
            if not X.vsame(a, b):
                raise Unsupported("recursive call with a changed argument")
        cur = self.pointees(st, args)
        pos = self.pset.setdefault(key, set())
        n0 = len(pos)
        for p, v in self.c0.items():
            w = cur.get(p)
            if not X.vsame(v, w):
                pos.add(p)
        if len(pos) != n0:
            self.grown = True
        pos = tuple(sorted(pos))
        lv = self.levels.get(key)
        if lv is None:
            lv = Level()
            lv.key = key
            lv.pos = pos
            lv.args = list(args)
            lv.calls = []
            self.levels[key] = lv
            self.pending.append(lv)
        elif lv.pos != pos:
            lv.pos = pos      # positions are completed over all calls; another round follows
        vals = tuple(cur[p] for p in pos)
        lv.calls.append(vals)
        if self.requires is not None:
            for p, v in zip(pos, vals):
                b = self.requires(p, v, st)
                if b is not None:
                    s = ex.must("recursive call precondition", fr, span, st, b)
                    if s is None:
                        return []
        if ex.mode == "havoc":
            return [(st, TOP)]
        for v in vals:
            if not isinstance(v, Poly):
                raise Unsupported("recursive argument %r" % (v,))
        return [(st, uf("REC:%s" % (key,), vals, False, None, None, True))]

    def run_all(self):
        ex = self.ex
        self.active = True
        sv = ex.loops
        ex.loops = []
        while self.pending:
            lv = self.pending.pop()
            s0, a0, fr = self.top
            s = St(dict(s0.m), s0.pc)
            lv.fresh = []
            for p in lv.pos:
                k, j = p
                f = var("F%d_%d" % (k, j), True, 0, (1 << 63) - 1)
                lv.fresh.append(f)
                a = lv.args[k]
                ex.store(s, a.cell, a.path + (j,), f)
                if self.requires is not None:
                    b = self.requires(p, f, s)
                    if b is not None:
                        s = s.cond(b)
            before = dict(s.m)
            d0 = ex.depth
            outs = ex.run(self.fn, lv.args, s, fr)
            ex.depth = d0
            for s2, r in outs:
                for c, v in before.items():
                    w = s2.m.get(c)
                    if w is None or (w is not v and not X.vsame(v, w)):
                        raise Unsupported("recursive function changes its caller's memory")
            lv.outs = outs
        ex.loops = sv
        self.active = False


def shape(rec, g, val, width):
    """decode the composed value of a recursion into origins and weights"""
    from values import Shape, Classifier, Fail, decode_index, strides
    a = val.single_atom()
    if a is None or not a.data or a.kind != "uf":
        raise Unsupported("recursive result is used in a computation")
    cl = Classifier(g)
    N = g.nd
    origin = [None] * N
    W = [None] * N
    key = a.args[0]
    name = {("REC:%s" % (lv.key,)): lv for lv in rec.levels.values()}
    posdim = {}
    for p, v in rec.c0.items():
        if isinstance(v, Poly):
            ds = set()
            for i in v.atoms():
                ds |= cl.atom(i)
            if len(ds) == 1:
                posdim[p] = next(iter(ds))
    seen = set()
    while True:
        lv = name[key]
        if key in seen:
            raise Unsupported("recursion does not descend")
        seen.add(key)
        if len(lv.outs) != 1:
            raise Unsupported("recursive function with several outcomes")
        v = lv.outs[0][1]
        if isinstance(v, En):
            raise Unsupported("fallible recursion")
        sp = mono_split(v)
        kinds = {ATOMS[m[0]].kind for m in sp if m}
        if kinds == {"sel"}:
            # base level
            for f, p in zip(lv.fresh, lv.pos):
                cl.own[f.single_atom().id] = p[1]
            if len(sp) != 1:
                raise Fail("base", "innermost level reads several values")
            (m, c), = sp.items()
            if c != ONE or len(m) != 1:
                raise Fail("base", "innermost level does not return the stored value")
            parts = decode_index(ATOMS[m[0]].args[1][0], g, cl, strides(g))
            exp = [None] * N
            for f, p in zip(lv.fresh, lv.pos):
                d = posdim.get(p, p[1])
                exp[d] = f
            for d in range(N):
                if exp[d] is None:
                    raise Fail("base", "dimension %d is not enumerated" % d)
                if parts[d] != exp[d]:
                    raise Fail("flat index", "index of dimension %d is %s instead of %s" % (d, parts[d], exp[d]))
            break
        if len(kinds) != 1 or kinds != {"uf"}:
            raise Unsupported("recursive result shape")
        fr = {f: p for f, p in zip(lv.fresh, lv.pos)}
        nk = {ATOMS[m[0]].args[0] for m in sp}
        if len(nk) != 1:
            raise Unsupported("calls to several levels")
        (nkey,) = nk
        nl = name[nkey]
        new = [p for p in nl.pos if p not in lv.pos]
        old = [p for p in lv.pos if p not in nl.pos]
        if len(new) != 1 or old:
            raise Unsupported("recursion changes %d positions" % len(new))
        d = posdim.get(new[0], new[0][1])
        if d in [k for k in range(N) if origin[k] is not None]:
            raise Fail("recursion", "dimension %d is enumerated twice" % d)
        ents = []
        for m, c in sp.items():
            if len(m) != 1:
                raise Fail("value shape", "result is not linear in the stored values")
            args = dict(zip(nl.pos, ATOMS[m[0]].args[1:]))
            for p, f in zip(lv.pos, lv.fresh):
                if args[p] != f:
                    raise Unsupported("recursive call changes an outer position")
            ents.append((args[new[0]], c))
        lin = None
        mn = None
        for q, c in ents:
            b = q - K(q.c0())
            if lin is None:
                lin = b
            elif lin != b:
                raise Unsupported("window without a common origin")
            mn = q.c0() if mn is None or q.c0() < mn else mn
        o = lin + K(mn)
        w = [ZERO] * width
        for q, c in ents:
            k = (q - o).const()
            if k >= width:
                raise Fail("window", "values used up to offset %d from the window origin" % k)
            w[k] = w[k] + c
        for t in [o] + w:
            for i in t.atoms():
                if cl.atom(i) - {d}:
                    raise Fail("weights", "weight of dimension %d depends on dimension %s" % (d, cl.atom(i)))
        origin[d] = o
        W[d] = w
        key = nkey
    if any(x is None for x in origin):
        raise Fail("recursion", "a dimension is not interpolated")
    sh = Shape()
    sh.origin, sh.weights = origin, W
    return sh
