"""Verification tasks: each proves one contract of one entry point for all inputs."""
import sys
import time
from terms import *
import terms
import exec as X
from exec import Agg, En, Ptr, Base, St, IMAX, UMAX, TOP
import inputs
import mir
import oblig
import rec
import solver
import values
from values import Fail

sys.setrecursionlimit(40000)


def prover(ex, st, b):
    return solver.prove(list(st.pc) + solver.relevant(ex.facts, st.pc), b) == "valid"


class Out:
    """what a task established"""

    def __init__(self):
        self.obl = 0          # obligations generated
        self.ok = 0           # discharged
        self.back = {}        # back end -> count
        self.fns = {}         # functions executed symbolically
        self.assumed = set()
        self.bounded = []
        self.notes = []

    def add(self, k=1, how="z3"):
        self.obl += k
        self.ok += k
        self.back[how] = self.back.get(how, 0) + k

    def take(self, ex):
        for k, v in ex.fnctr.items():
            self.fns[k] = self.fns.get(k, 0) + v
        self.assumed |= ex.assumed


def new_exec(prog, mode, col=None):
    ex = X.Exec(prog, mode, col)
    ex.prover = prover
    return ex


def feasible(pc, out):
    """vacuity: the state must be reachable"""
    if solver.prove(list(pc), FALSE) == "valid":
        raise Fail("vacuous", "no input reaches a successful result")
    out.add(1, "vacuity")


def infeasible(ex, s, extra, name, out):
    hy = list(s.pc) + solver.relevant(ex.facts, s.pc) + extra
    r = solver.prove(hy, FALSE)
    out.obl += 1
    if r != "valid":
        raise Fail(name, "reachable under %s (%s)" % ([str(h)[:120] for h in hy][:10], r))
    out.ok += 1
    out.back["z3"] = out.back.get("z3", 0) + 1


def built(ex, prog, g, out):
    """construct on a valid grid: always Ok"""
    oks, errs = inputs.construct(ex, prog, g, g.state())
    if not oks:
        raise Fail("constructor", "no successful construction")
    for s, r in errs:
        infeasible(ex, s, [], "constructor rejects a valid grid", out)
    for s, v in oks:
        feasible(s.pc, out)
    return oks


def value(prog, key, n, nd=None, only=None):
    """interp_one of a constructed interpolator returns the documented value"""
    out = Out()
    ex = new_exec(prog, "real")
    rc = rec.Rec(ex)
    g = inputs.Grid(key, n, "real", nd=nd)
    got = 0
    rep = [And(le(K(X.IMIN), fl), le(fl, K(X.IMAX))) for fl in
           (terms.floor(terms.div(g.x[d] - g.start[d], g.step[d])) for d in range(g.nd))] if g.kind == "reg" else []
    for s, v in built(ex, prog, g, out):
        s.m[("self", 0)] = v
        outs = ex.call(prog.root("root_one_%s_%d" % (key, n)), [Ptr(("self", 0)), g.point_arg(s)], s)
        for s2, r in outs:
            c = r.d.const()
            if c is None:
                raise Unsupported("result not separated into Ok and Err")
            if c == 0:
                z0 = solver.STAT["z3"]
                res = values.check_value(g, s2.pc, r.v[0][0], only=only, rec=rc)
                feasible(s2.pc, out)
                got += 1
                out.add(sum(len(x) for x in res) + 1, "ratzero+z3")
                out.notes.append(sorted({c for d in res for x in d for c in x}))
            else:
                infeasible(ex, s2, rep, "Err for a representable point", out)
    if not got:
        raise Fail("vacuous", "no successful evaluation")
    out.take(ex)
    return out


def represent(prog, key, n, nd=None):
    """interp_one of a constructed regular-grid interpolator returns Ok only for a point whose
    cell number is a machine integer in every dimension (up to how the rounding is done)"""
    out = Out()
    ex = new_exec(prog, "real")
    rc = rec.Rec(ex)
    g = inputs.Grid(key, n, "real", nd=nd)
    q = [terms.floor(terms.div(g.x[d] - g.start[d], g.step[d])) for d in range(g.nd)]
    got = 0
    for s, v in built(ex, prog, g, out):
        s.m[("self", 0)] = v
        for s2, r in ex.call(prog.root("root_one_%s_%d" % (key, n)), [Ptr(("self", 0)), g.point_arg(s)], s):
            c = r.d.const()
            if c is None:
                raise Unsupported("result not separated into Ok and Err")
            if c == 0:
                got += 1
                for d in range(g.nd):
                    for bad, side in ((lt(q[d], K(X.IMIN - 2)), "below"), (lt(K(X.IMAX + 2), q[d]), "above")):
                        infeasible(ex, s2, [bad], "Ok for a cell number %s the machine integers in dimension %d" % (side, d), out)
    if not got:
        raise Fail("vacuous", "no successful evaluation")
    out.take(ex)
    return out


def safety(prog, key, n, nd=None, part="one"):
    """constructor (part 'new') or interp_one of whatever it constructs: no panic,
    no overflow, no out-of-bounds access, for arbitrary numbers"""
    out = Out()
    col = oblig.Collector()
    ex = new_exec(prog, "havoc", col)
    rc = rec.Rec(ex)
    g = inputs.Grid(key, n, "havoc", nd=nd, free=True, valid=False)
    rc.requires = oblig.requires_for(rc, g)
    oks, errs = inputs.construct(ex, prog, g, g.state())
    if not oks:
        raise Fail("constructor", "no successful construction")
    if part == "one":
        del col.items[:]
        for s, v in oks:
            feasible(s.pc, out)
            s.m[("self", 0)] = v
            ex.call(prog.root("root_one_%s_%d" % (key, n)), [Ptr(("self", 0)), g.point_arg(s)], s)
    finish(ex, col, g.dimids, out)
    return out


def finish(ex, col, dims, out):
    st, fails = oblig.discharge(col.items, ex, dims)
    out.obl += st["total"] - st["duplicate"]
    out.ok += st["total"] - st["duplicate"] - len(fails)
    for k in ("immediate", "z3", "arith"):
        out.back[k] = out.back.get(k, 0) + st[k]
    out.take(ex)
    if fails:
        o = fails[0]
        raise Fail(o.kind, "%s at %s: %s does not follow from %s (%s); %d obligations failed" % (
            o.fn, o.span, showb(o.cond)[:400], [showb(b)[:100] for b in o.pc][:8], o.verdict, len(fails)))
