"""What is proved for each property."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
FEATS = ("default", "fma")
DIMS = {"mlreg": 6, "mlrect": 6, "mlregrec": 8, "mlrectrec": 8, "mcreg": 4, "mcrect": 4, "mcregrec": 8,
        "mcrectrec": 8, "nreg": 6, "nrect": 6}
LIN = ["mlreg", "mlrect", "mlregrec", "mlrectrec"]
CUB = ["mcreg", "mcrect", "mcregrec", "mcrectrec"]
NEA = ["nreg", "nrect"]
ALL = LIN + CUB + NEA

TRUSTED = [
    "rustc nightly MIR construction and trait resolution (bodies exported from the compiler on every run)",
    "driver/ (MIR exporter) and engine/ (symbolic execution of MIR, verification conditions)",
    "Z3 and the polynomial normaliser (engine/solver.py)",
    "T::Float operations interpreted as exact real arithmetic in value contracts, as arbitrary results in safety contracts",
    "contracts of core/alloc functions in engine/builtins_std.py (slices, iterators, integer helpers, Vec)",
    "64-bit usize",
]


def combos(key, tier):
    """(const parameter, dimensions used)"""
    mx = DIMS[key]
    out = [(n, n) for n in range(1, mx + 1)]
    if key.endswith("rec"):
        if tier == "quick":
            out += [(8, nd) for nd in range(1, 8)] + [(n, n - 1) for n in range(2, 8)] + [(3, 1), (5, 2)]
        else:
            out += [(n, nd) for n in range(2, 9) for nd in range(1, n)]
    return sorted(set(out))


def values(keys, only):
    def plan(tier):
        ts = []
        for key in keys:
            for n, nd in combos(key, tier):
                for f in FEATS:
                    ts.append({"fn": "value", "args": [key, n], "kw": {"nd": nd, "only": only}, "feat": f,
                               "keyhint": key, "nhint": nd, "cost": 4 ** nd if key in ("mcreg", "mcrect") else 2 ** nd})
        return {"tasks": ts, "what": "For every listed interpolator and number of dimensions the evaluation of one point "
                "is executed symbolically from the compiler's MIR for arbitrary grid sizes, coordinates, values and point; "
                "the result is decoded into per-dimension window and weights, and each dimension's contract is discharged "
                "against the documented 1-D interpolant."}
    return plan


def c08(tier):
    ts = []
    for key in ALL:
        for n, nd in combos(key, tier):
            for f in FEATS:
                ts.append({"fn": "safety", "args": [key, n], "kw": {"nd": nd, "part": "one"}, "feat": f, "keyhint": key,
                           "nhint": nd, "cost": 5 ** nd if key in ("mcreg", "mcrect") else 2 ** nd})
                if "reg" in key:
                    ts.append(task("represent", [key, n, nd], f, key, nd, 2 ** nd))
    return {"tasks": ts, "what": "Every integer overflow, slice bound, unwrap and explicit panic reachable from a one-point "
            "evaluation of whatever the constructor accepts is an obligation, discharged for arbitrary numbers (including "
            "NaN and infinities, since every comparison and conversion result is arbitrary). On a regular grid every Ok outcome implies that the cell number is a machine "
            "integer in every dimension (exact arithmetic)."}


ONE = ("::interp_one", "::eval_one")


def roots(t):
    """entry points a task executes, and the functions it replaces by their contracts;
    a task is not repeated for a feature set in which all this code is the same"""
    fn, a = t["fn"], t["args"]
    if fn in ("value", "safety", "represent", "relate.nodes", "relate.affine", "relate.continuous"):
        return ["root_%s_%s_%d" % (r, a[0], a[1]) for r in ("new", "one")], ()
    if fn == "relate.cross":
        return ["root_%s_%s_%d" % (r, k, n) for r in ("new", "one") for k, n in ((a[0], a[1]), (a[2], a[3]))], ()
    if fn in ("batch.ctor", "batch.ctor_panics"):
        return ["root_new_%s_%d" % (a[0], a[1])], ()
    if fn in ("batch.malformed", "batch.panics") or fn == "batch.batch" and a[2] != "interp":
        return ["root_%s_%s" % (a[2], a[0])], ONE
    if fn == "batch.batch":
        return ["root_new_%s_%d" % (a[0], a[3]), "root_interp_%s_%d" % (a[0], a[3])], ONE
    if fn == "batch.direct_panics":
        return ["root_new_%s_%d" % (a[0], a[1]), "root_interp_%s_%d" % (a[0], a[1])] + (
            ["root_one_%s_%d" % (a[0], a[1])] if a[0].endswith("rec") else []), () if a[0].endswith("rec") else ONE
    if fn in ("batch.bounds", "batch.bounds_panics"):
        return ["root_bounds_" + a[0]], ()
    if fn == "onedim.value1":
        return ["root_g1new_" + a[1], "root_one_%s_%s" % (a[0], a[1])], ()
    if fn == "onedim.batch1":
        return ["root_g1new_" + a[1], "root_%s_%s_%s" % (a[2], a[0], a[1])], ONE
    if fn == "onedim.panics1":
        return ["root_g1%s_%s" % (r, a[0]) for r in ("new", "at", "index")] + [
            "root_%s_%s_%s" % (r, m, a[0]) for m in a[1] for r in ("one", "eval", "evalalloc")], ()
    if fn == "onedim.linspace":
        return ["root_linspace"], ()
    if fn == "onedim.meshgrid":
        return ["root_meshgrid"], ()
    return None, ()


MAXD = {k: 6 if k in NEA else 8 for k in ALL}
M1 = ["left", "right", "nearest", "linear", "linearholdlast"]


def lengths(key):
    """numbers of dimensions in the arguments: each up to one past the supported ones, then any larger"""
    return list(range(0, MAXD[key] + 2)) + [None]


def task(fn, args, f, key=None, n=None, cost=1):
    return {"fn": fn, "args": args, "feat": f, "keyhint": key, "nhint": n, "cost": cost}


def c09(tier):
    ts = []
    for key in ALL:
        rec = key.endswith("rec")
        for n in range(1, DIMS[key] + 1):
            for L in (list(range(0, n + 2)) + [None] if rec else [n]):
                for fn in ("batch.ctor", "batch.ctor_panics"):
                    # constructors contain no mul_add; both feature sets are compiled code all the same
                    for f in FEATS:
                        ts.append(task(fn, [key, n, L], f, key, None if L is None else min(n, L), 1))
    return {"tasks": ts, "what": "Every constructor, executed symbolically for argument slices of any lengths and contents: "
            "each Ok path implies every validity condition and each Err path contradicts their conjunction (exact arithmetic); "
            "and no panic, overflow or bounds obligation can fail, for arbitrary numbers."}


def c10(tier):
    ts = []
    for key in ALL:
        for f in FEATS:
            for entry in ("interpn", "alloc"):
                for L in lengths(key):
                    for fn in ("batch.malformed", "batch.panics"):
                        ts.append(task(fn, [key, L, entry], f, key, L, 3))
            for n, nd in combos(key, tier):
                ts.append(task("batch.direct_panics", [key, n, nd], f, key, nd, 2))
            ts.append(task("batch.bounds_panics", [key], f, key, None, 1))
    return {"tasks": ts, "what": "One-shot, allocating, batch and bounds-check functions, executed symbolically on argument "
            "slices of any lengths and contents (evaluation of one point replaced by its contract, proved under C08): every "
            "panic, overflow and bounds obligation is discharged for arbitrary numbers, and every Ok path implies that the "
            "arguments were well formed. Loops over points are generalised to any trip count."}


def c11(tier):
    ts = []
    for key in ALL:
        for f in FEATS:
            for n, nd in combos(key, tier):
                ts.append(task("batch.batch", [key, nd, "interp", n], f, key, nd, 2))
            for L in range(1, MAXD[key] + 1):
                for entry in ("interpn", "alloc"):
                    ts.append(task("batch.batch", [key, L, entry], f, key, L, 3))
    return {"tasks": ts, "what": "The batch functions, executed symbolically for any number of points (loop generalised with an "
            "invariant, one-point evaluation replaced by its contract: a function of the constructed interpolator's fields and "
            "the point): an arbitrary output element equals the one-point result for its point, and Err is returned exactly "
            "when lengths disagree or a point fails."}


def c14(tier):
    return {"tasks": [task("batch.bounds", [key], f, key, None, 1) for key in ALL for f in FEATS],
            "what": "check_bounds, executed symbolically for any number of dimensions and points: Ok is returned for agreeing "
            "arguments and an arbitrary flag has the documented value, against quantified statements over all points."}


def one_d(methods):
    def plan(tier):
        ts = []
        for m in methods:
            for kind in ("reg", "rect"):
                for f in FEATS:
                    ts.append(task("onedim.value1", [m, kind], f))
                    for e in ("eval", "evalalloc"):
                        ts.append(task("onedim.batch1", [m, kind, e], f))
        return {"tasks": ts, "what": "eval_one of each one-dimensional interpolator, executed symbolically for any grid size, data "
                "and point, equals the documented formula in every case; eval and eval_alloc equal eval_one pointwise for any "
                "number of points, with an error exactly on a length mismatch or a failing point."}
    return plan


def c17(tier):
    return {"tasks": [task("onedim.panics1", [kind, [m]], f) for kind in ("reg", "rect") for f in FEATS for m in M1],
            "what": "Grid construction from any arguments, then at, index, eval_one, eval and eval_alloc on any accepted grid with "
            "slices of any lengths and arbitrary numbers: every panic, overflow and bounds obligation is discharged, and accepted "
            "grids have at least two values and matching lengths."}


def c19(tier):
    return {"tasks": [task("onedim.linspace", [], f) for f in FEATS],
            "what": "linspace executed symbolically for any n >= 2: length, an arbitrary element, the first and the last."}


def c20(tier):
    return {"tasks": [task("onedim.meshgrid", [], f) for f in FEATS],
            "what": "meshgrid executed symbolically for any number of lists of any lengths, against the contract assumed for "
            "Itertools::multi_cartesian_product: one result per node, with one entry per list, entry j of node k being the "
            "element of list j that the j-th C-order digit of k selects."}


def rel(fn, keys, what):
    def plan(tier):
        ts = []
        for key in keys:
            for n, nd in combos(key, tier):
                for f in FEATS:
                    ts.append({"fn": "relate." + fn, "args": [key, n], "kw": {"nd": nd}, "feat": f, "keyhint": key, "nhint": nd,
                               "cost": 4 ** nd if key in ("mcreg", "mcrect") else 2 ** nd})
        return {"tasks": ts, "what": what}
    return plan


COMMON = ("The evaluation of one point is executed symbolically from the compiler's MIR for arbitrary grids, values and points and "
          "decoded into per-dimension windows and weights; ")


def c12(tier):
    ts = []
    for a, b in (("mlreg", "mlrect"), ("mlregrec", "mlrectrec"), ("mcreg", "mcrect"), ("mcregrec", "mcrectrec"), ("nreg", "nrect")):
        for n, nd in combos(a, tier):
            for f in FEATS:
                ts.append({"fn": "relate.cross", "args": [a, n, b, n, nd], "feat": f, "keyhint": a, "nhint": nd,
                           "cost": 4 ** nd if a == "mcreg" else 2 ** nd})
    return {"tasks": ts, "what": COMMON + "on the grid start + i*step the regular and the rectilinear form give every node the same "
            "weight, in every feasible pair of cases."}


def c13(tier):
    ts = []
    for a, b in (("mlregrec", "mlreg"), ("mlrectrec", "mlrect"), ("mcregrec", "mcreg"), ("mcrectrec", "mcrect")):
        for nd in range(1, DIMS[b] + 1):
            for n in (range(nd, 9) if tier != "quick" else sorted({nd, nd + 1, 8})):
                for f in FEATS:
                    ts.append({"fn": "relate.cross", "args": [a, n, b, nd, nd], "feat": f, "keyhint": a, "nhint": nd,
                               "cost": 4 ** nd if b.startswith("mc") else 2 ** nd})
    return {"tasks": ts, "what": COMMON + "the recursive form (declared with the used or more dimensions) and the flattened form give "
            "every node the same weight, in every feasible pair of cases."}


def c18(tier):
    ts = []
    for key in ALL:
        for f in FEATS:
            for n in range(1, DIMS[key] + 1):
                ts.append(task("effects.noalloc", [["root_%s_%s_%d" % (r, key, n) for r in ("new", "one", "interp")]], f, key, n))
            ts.append(task("effects.noalloc", [["root_interpn_" + key, "root_bounds_" + key]], f, key, None))
    return {"tasks": ts, "what": "Every function reachable from a constructor, evaluation, one-shot evaluation or bounds check carries "
            "the clause that it allocates nothing; each call site in each exported body is an obligation that the callee carries it.",
            "trusted": ["crate core and the number type's own operations do not allocate", "drop glue does not allocate"]}


PLANS = {
    "C01": values(LIN, None),
    "C02": values(CUB, "inside"),
    "C03": values(CUB, "outside"),
    "C04": values(NEA, None),
    "C05": rel("nodes", ALL, COMMON + "with the point put at node k, for arbitrary k, the weights are 1 on node k and 0 elsewhere in "
               "every feasible case."),
    "C06": rel("affine", LIN + CUB, COMMON + "in every case the weights of a dimension sum to 1 and their node-weighted sum is the "
               "coordinate, identically."),
    "C07": rel("continuous", LIN + CUB, COMMON + "every case is a polynomial in the point on a closed region, and any two cases (or one case "
               "with two cell numbers) agree, in value and for cubic in first derivative, wherever their closed regions meet."),
    "C08": c08,
    "C09": c09,
    "C10": c10,
    "C11": c11,
    "C12": c12,
    "C13": c13,
    "C14": c14,
    "C15": one_d(["linear", "linearholdlast"]),
    "C16": one_d(["left", "right", "nearest"]),
    "C17": c17,
    "C18": c18,
    "C19": c19,
    "C20": c20,
}
