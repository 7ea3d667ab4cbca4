"""Symbolic inputs for the interpolators."""
from terms import *
import terms
import exec as X
from exec import Agg, En, Ptr, Base, St, UMAX, IMAX, LMAX, TOP
import solver

KINDS = {
    # key: (grid kind, method, recursive, min points, dims)
    "mlreg": ("reg", "linear", False, 2, range(1, 7)),
    "mlrect": ("rect", "linear", False, 2, range(1, 7)),
    "mlregrec": ("reg", "linear", True, 2, range(1, 9)),
    "mlrectrec": ("rect", "linear", True, 2, range(1, 9)),
    "mcreg": ("reg", "cubic", False, 4, range(1, 5)),
    "mcrect": ("rect", "cubic", False, 4, range(1, 5)),
    "mcregrec": ("reg", "cubic", True, 4, range(1, 9)),
    "mcrectrec": ("rect", "cubic", True, 4, range(1, 9)),
    "nreg": ("reg", "nearest", False, 2, range(1, 7)),
    "nrect": ("rect", "nearest", False, 2, range(1, 7)),
}
MODS = {
    "mlreg": "multilinear::regular", "mlrect": "multilinear::rectilinear",
    "mlregrec": "multilinear::regular_recursive", "mlrectrec": "multilinear::rectilinear_recursive",
    "mcreg": "multicubic::regular", "mcrect": "multicubic::rectilinear",
    "mcregrec": "multicubic::regular_recursive", "mcrectrec": "multicubic::rectilinear_recursive",
    "nreg": "nearest::regular", "nrect": "nearest::rectilinear",
}


class Grid:
    """symbolic constructor arguments of an N-d interpolator"""

    def __init__(self, key, n, mode, nd=None, free=False, valid=True):
        """n = const parameter (dimension or MAXDIMS), nd = dimensions used.
        free: number of values not tied to the grid sizes (constructor checks)."""
        self.key, self.n = key, n
        self.kind, self.method, self.rec, self.mn, _ = KINDS[key]
        self.nd = nd = n if nd is None else nd
        self.mode = mode
        lo = self.mn if valid else 0
        self.lo = lo
        num = (lambda nm: TOP) if mode == "havoc" else (lambda nm: var(nm, False))
        self.dims = [var("n%d" % d, True, lo, LMAX if self.kind == "rect" or not free else UMAX) for d in range(nd)]
        self.dimids = [d.single_atom().id for d in self.dims]
        self.start = [num("s%d" % d) for d in range(nd)]
        if mode != "havoc":
            self.step = [P(terms._atom("var", "h%d" % d, ("h%d" % d,), False, 0, None)) for d in range(nd)]
        else:
            self.step = [TOP] * nd
        self.x = [num("x%d" % d) for d in range(nd)]
        tot = ONE
        for d in self.dims:
            tot = tot * d
        self.total = tot
        self.nvals = var("nvals", True, 0, LMAX) if free else tot
        self.lin = bvar("lin")
        self.grids = [Base("g", (K(d),), "T", self.dims[d]) for d in range(nd)]
        solver.SORTED.add("g") if valid else None
        self.pre = []
        if not free:
            self.pre.append(le(tot, K(LMAX)))
        if mode != "havoc" and self.kind == "reg" and valid:
            for h in self.step:
                self.pre.append(lt(ZERO, h))

    def state(self):
        return St({}, tuple(x for x in self.pre if x is not TRUE))

    def g(self, d, i):
        return sel("g", (K(d), i), False)

    def v(self, i):
        return sel("v", (i,), False, None, None, True)

    def slice_of(self, st, name, vals):
        st.m[(name, 0)] = Agg(tuple(vals))
        return Ptr((name, 0), (), (ZERO, K(len(vals))))

    def new_args(self, st):
        vals = Ptr(("vals", 0), (), (ZERO, self.nvals))
        st.m[("vals", 0)] = Base("v", (), "T", self.nvals, True)
        a = []
        if self.kind == "reg":
            if self.rec:
                a = [self.slice_of(st, "dims", self.dims), self.slice_of(st, "starts", self.start),
                     self.slice_of(st, "steps", self.step), vals]
            else:
                a = [Agg(tuple(self.dims)), Agg(tuple(self.start)), Agg(tuple(self.step)), vals]
        else:
            ptrs = []
            for d in range(self.nd):
                st.m[("grid", d)] = self.grids[d]
                ptrs.append(Ptr(("grid", d), (), (ZERO, self.dims[d])))
            if self.rec:
                a = [self.slice_of(st, "grids", ptrs), vals]
            else:
                st.m[("grids", 0)] = Agg(tuple(ptrs))
                a = [Ptr(("grids", 0)), vals]
        if self.method == "cubic":
            a.append(self.lin)
        return a

    def point_arg(self, st):
        if self.rec:
            return self.slice_of(st, "x", self.x)
        return Agg(tuple(self.x))


def construct(ex, prog, g, st):
    """run `new`; returns (ok outcomes [(st, struct)], err outcomes)"""
    args = g.new_args(st)
    outs = ex.call(prog.root("root_new_%s_%d" % (g.key, g.n)), args, st)
    oks, errs = [], []
    for s, r in outs:
        c = r.d.const()
        if c is None:
            raise Unsupported("constructor outcome not separated")
        if c == 0:
            oks.append((s, r.v[0][0]))
        else:
            errs.append((s, r))
    return oks, errs
