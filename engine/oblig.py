"""Collection and discharge of safety obligations."""
from terms import *
import solver


class Obl:
    __slots__ = ("kind", "fn", "span", "pc", "cond", "nf", "verdict")


class Collector:
    def __init__(self):
        self.items = []

    def __call__(self, ex, kind, fr, span, st, cond):
        o = Obl()
        o.kind = kind
        o.fn = fr.fn.name if fr is not None else "?"
        o.span = span
        o.pc = st.pc
        o.cond = cond
        o.nf = len(ex.facts)
        o.verdict = None
        self.items.append(o)

    def mark(self):
        return len(self.items)

    def reset(self, m):
        del self.items[m:]


def requires_for(rec, g):
    """precondition inferred for the memory passed down a recursion: entries are
    valid indices of some dimension (the dimension is fixed at the first call)"""
    choice = {}

    def req(p, v, st):
        d = choice.get(p)
        if d is None:
            hy = list(st.pc) + solver.relevant(rec.ex.facts, st.pc)
            order = [p[1]] + [k for k in range(g.nd) if k != p[1]]
            for k in order:
                if k < g.nd and solver.prove(hy, le(v, g.dims[k] - ONE)) == "valid":
                    choice[p] = d = k
                    break
            else:
                return None
        return le(v, g.dims[d] - ONE)
    return req


def discharge(items, ex, dims, timeout=5000):
    """prove each obligation; returns (stats, failures)"""
    seen = set()
    stats = {"total": len(items), "immediate": 0, "duplicate": 0, "z3": 0, "arith": 0}
    fails = []
    for o in items:
        if o.cond is TRUE:
            stats["immediate"] += 1
            o.verdict = "valid"
            continue
        hy = list(o.pc) + solver.relevant(ex.facts[:o.nf], o.pc)
        k = (frozenset(x.id for x in hy), o.cond.id)
        if k in seen:
            stats["duplicate"] += 1
            o.verdict = "dup"
            continue
        seen.add(k)
        r, how = prove1(hy, o.cond, dims, timeout)
        o.verdict = r
        if r == "valid":
            stats[how] += 1
        else:
            fails.append(o)
    return stats, fails


def prove1(hy, c, dims, timeout=5000):
    if c.k == "and":
        how = "z3"
        for x in c.a:
            r, h = prove1(hy, x, dims, timeout)
            if r != "valid":
                return r, None
            if h == "arith":
                how = h
        return "valid", how
    if c.k in ("le", "lt") and any(len(m) > 1 for m in c.a.t) and bound_ok(hy, c, dims):
        return "valid", "arith"
    r = solver.prove(hy, c, timeout=timeout)
    if r == "valid":
        return r, "z3"
    if c.k in ("le", "lt"):
        # p <= 0: -p >= 0, using the equalities and inequalities of the path on products of sizes
        if bound_ok(hy, c, dims):
            return "valid", "arith"
    return r, None


def bound_ok(hy, c, dims):
    p = c.a if c.k == "le" else c.a + ONE
    if not p.is_int():
        return False
    # candidates: use equalities q == 0 (value count = product of sizes) and
    # inequalities q <= 0 of the hypotheses to replace the constant bound
    ds = set(dims)
    cand = []
    sizes = [h for h in hy if h.k in ("eq", "le") and h.a.is_int() and any(len(m) > 1 for m in h.a.t)
             and sum(1 for i in h.a.atoms() if i not in ds) <= 1 and len(h.a.t) <= 3]
    for h in sizes:
        if h.k == "eq":
            for sgn in (1, -1):
                cand.append(p + h.a.scale(sgn))
    for h in sizes:
        if h.k == "le":
            cand.append(p - h.a)
            for h2 in sizes:
                if h2.k == "eq":
                    for sgn in (1, -1):
                        cand.append(p - h.a + h2.a.scale(sgn))
    cand.append(p)
    for q in cand[:64]:
        if solver.nonneg(-q, hy, dims):
            return True
    return False
