NOTES = {
    "C05": "Proof directly on the code's per-dimension weights, for every grid, node and value; N as in C01/C02/C04, recursive forms at declared sizes 1..8; exact real arithmetic. Not derived from C01-C04, so a change of formula that keeps node values raises no alarm.",
    "C06": "Proof on the code's per-dimension weights (sum 1, coordinate reproduced) for every grid and point; the step from weights to multi-affine functions of N variables is the tensor-product factorisation proved when decoding. Exact real arithmetic.",
    "C07": "Proof on the code's per-dimension pieces: closed regions, pairwise agreement of value (cubic: and derivative) at meeting points, all grids; pasting lemma for locally finite closed covers is the one step done on paper.",
    "C12": "Proof by relating the two implementations' per-dimension weights on the grid start+i*step, every feasible pair of cases; exact real arithmetic; nearest excepted at exact midpoints.",
    "C13": "Proof by relating the two implementations' per-dimension weights, every feasible pair of cases, declared sizes up to 8 (quick: used size, one more, and 8).",
    "C18": "Effect contract checked over every call site of the exported (monomorphised) call graph; core and the number type's operations are assumed allocation free, drop glue too; panicking paths end in core and are excluded by C08-C10.",
    "C09": "Proof for flattened N=1..6 (cubic 1..4) and recursive declared sizes 1..8 with argument slices of every length (each up to one past the declared size, then all larger ones together); dimensions, values, numbers arbitrary. The Ok/Err condition is over exact reals, the panic freedom over arbitrary comparison results.",
    "C10": "Proof for argument slices of every length (dimension counts each up to 9, then all larger together), any number of points, arbitrary numbers; single-point evaluation enters through its contract (C08). Out-of-memory in the allocating form is outside.",
    "C11": "Proof for any number of points and every supported dimension count; loop over points by an inferred invariant. Single-point evaluation is an uninterpreted function of the interpolator's fields and the point (its purity is what the executor checks when proving C01-C04, C08).",
    "C14": "Proof for any number of dimensions and points, in exact real arithmetic.",
    "C15": "Proof for any grid size, data, point and number of points, in exact real arithmetic, both grid kinds, fma on and off.",
    "C16": "Proof for any grid size, data, point and number of points, in exact real arithmetic, both grid kinds, fma on and off.",
    "C17": "Proof for arbitrary arguments; every float comparison and conversion result is arbitrary (NaN, infinities, roundoff).",
    "C19": "Proof for every n >= 2 in exact real arithmetic.",
}
NOTES["C20"] = ("Proof for any number of lists of any lengths, relative to an assumed contract for itertools' multi_cartesian_product "
    "(third-party code, cross-checked natively on random inputs in every run); a rewrite that does not use it falls back to that bounded native search.")
NA = {
    "C21": "a rounding-error bound for these long mul_add/division chains needs a floating-point error calculus; the real-arithmetic obligations do not express it and no installed verifier decides it for symbolic ranges",
    "C22": "the Python layer is PyO3 macro output around CPython C API calls (foreign functions, raw pointers, unsafe extern blocks): neither this executor nor any Rust contract verifier installed here reasons across that boundary, and its inputs are numpy buffers owned by the interpreter",
}
