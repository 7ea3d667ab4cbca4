//! One case in, one verdict out: does the real code satisfy the property on it?
use crate::api::*;
use crate::case::{Case, Nm};
use crate::oracle::*;
use crate::q::{OVER, Q, UNSUP};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub enum Verdict {
    Ok,
    Skip,
    Fail(String),
}
use Verdict::*;

pub fn no_panic<V>(f: impl FnOnce() -> V) -> Result<V, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        format!("panic: {m}")
    })
}

fn clear() {
    OVER.with(|o| o.set(false));
    UNSUP.with(|o| o.set(false));
}
fn dirty() -> bool {
    OVER.with(|o| o.get()) || UNSUP.with(|o| o.get())
}

pub fn nd<T: Nm>(c: &Case<T>) -> usize {
    if is_reg(&c.key) { c.dims.len() } else { c.grids.len() }
}

pub fn coords(c: &Case<Q>) -> Vec<Vec<Q>> {
    if is_reg(&c.key) {
        c.dims
            .iter()
            .enumerate()
            .map(|(d, n)| (0..*n).map(|i| c.start[d] + Q::int(i as i128) * c.step[d]).collect())
            .collect()
    } else {
        c.grids.clone()
    }
}

fn point<T: Nm>(c: &Case<T>, k: usize) -> Vec<T> {
    c.x.iter().map(|v| v[k]).collect()
}

/// is the cell number of every coordinate a machine integer?
fn representable(c: &Case<Q>, x: &[Q]) -> bool {
    if !is_reg(&c.key) {
        return true;
    }
    x.iter().enumerate().all(|(d, x)| {
        let f = ((*x - c.start[d]) / c.step[d]).fl();
        i64::try_from(f).is_ok()
    })
}

fn one(c: &Case<Q>, x: &[Q]) -> Result<Result<Q, &'static str>, String> {
    let g = Case::refs(&c.grids);
    no_panic(|| with(c, &g, &mut |it| it.and_then(|i| i.one(x))))
}

fn show(r: &Result<Q, &'static str>) -> String {
    match r {
        Result::Ok(v) => format!("Ok({})", v.s()),
        Result::Err(e) => format!("Err({e})"),
    }
}

pub fn check_q(c: &Case<Q>) -> Verdict {
    clear();
    let v = check_q1(c);
    if dirty() { Skip } else { v }
}

fn fast_ok(g: &[Vec<Q>]) -> bool {
    g.iter().all(|g| g.windows(2).all(|w| w[0] < w[1]))
}

fn check_q1(c: &Case<Q>) -> Verdict {
    match c.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => {
            let g = coords(c);
            if !fast_ok(&g) {
                return Skip;
            }
            let x = point(c, 0);
            let rep = representable(c, &x);
            let r = match one(c, &x) {
                Result::Ok(r) => r,
                Err(e) => return Fail(e),
            };
            if r == Err(HARNESS) {
                return Skip;
            }
            let m = method(&c.key);
            let outside = g.iter().zip(&x).any(|(g, x)| *x < g[0] || *x > g[g.len() - 1]);
            let exp: Vec<Q> = match c.prop.as_str() {
                "C02" if outside => return Skip,
                "C03" if !outside => return Skip,
                "C04" => nearest_values(&g, &c.vals, &x),
                "C05" => {
                    let mut i = 0;
                    for (gd, xd) in g.iter().zip(&x) {
                        match gd.iter().position(|v| v == xd) {
                            Some(k) => i = i * gd.len() + k,
                            None => return Skip,
                        }
                    }
                    vec![c.vals[i]]
                }
                "C06" => {
                    // multi-affine function with coefficients a[mask] for products of coordinates
                    let f = |p: &[Q]| affine(c, p);
                    let mut k = vec![0usize; g.len()];
                    for v in &c.vals {
                        let p: Vec<Q> = k.iter().zip(&g).map(|(i, g)| g[*i]).collect();
                        if f(&p) != *v {
                            return Skip;
                        }
                        for d in (0..g.len()).rev() {
                            k[d] += 1;
                            if k[d] < g[d].len() {
                                break;
                            }
                            k[d] = 0;
                        }
                    }
                    vec![f(&x)]
                }
                _ => vec![value(m, &g, &c.vals, &x, c.lin)],
            };
            match r {
                Result::Ok(v) if exp.contains(&v) => Ok,
                Err(_) if !rep => Ok,
                r => Fail(format!(
                    "interpolator returned {}, expected {}",
                    show(&r),
                    exp.iter().map(|v| v.s()).collect::<Vec<_>>().join(" or ")
                )),
            }
        }
        "C07" => continuity(c),
        "C12" | "C13" => {
            let g = coords(c);
            if !fast_ok(&g) {
                return Skip;
            }
            let x = point(c, 0);
            if !representable(c, &x) {
                return Skip;
            }
            let mut o = c.clone();
            if c.prop == "C12" {
                o.key = c.key.replace("reg", "rect");
                o.grids = g.clone();
                if method(&c.key) == "nearest" && g.iter().zip(&x).any(|(g, x)| nearest(g, *x).len() > 1) {
                    return Skip;
                }
            } else {
                o.key = format!("{}rec", c.key);
                o.n = c.aux[0];
            }
            match (one(c, &x), one(&o, &x)) {
                (Err(_), Err(_)) => Skip,
                (Err(e), _) | (_, Err(e)) => Fail(e),
                (Result::Ok(a), Result::Ok(b)) => {
                    if a == b || a == Err(HARNESS) || b == Err(HARNESS) || (a.is_err() && b.is_err()) {
                        Ok
                    } else {
                        Fail(format!("{} returned {}, {} returned {}", c.key, show(&a), o.key, show(&b)))
                    }
                }
            }
        }
        "C11" => batch(c),
        "C14" => bounds(c),
        "C15" | "C16" => one_d(c),
        "C19" => linspace(c),
        "C20" => meshgrid(c),
        _ => Skip,
    }
}

fn affine(c: &Case<Q>, p: &[Q]) -> Q {
    let mut s = Q::int(0);
    for (mask, a) in c.aux.iter().enumerate() {
        let mut t = Q::int(*a as i128 - 10);
        for (d, x) in p.iter().enumerate() {
            if mask >> d & 1 == 1 {
                t = t * *x;
            }
        }
        s = s + t;
    }
    s
}

/// vals are samples of this case's multi-affine function
pub fn fill_affine(c: &mut Case<Q>) {
    let g = coords(c);
    let mut k = vec![0usize; g.len()];
    for i in 0..c.vals.len() {
        let p: Vec<Q> = k.iter().zip(&g).map(|(i, g)| g[*i]).collect();
        c.vals[i] = affine(c, &p);
        for d in (0..g.len()).rev() {
            k[d] += 1;
            if k[d] < g[d].len() {
                break;
            }
            k[d] = 0;
        }
    }
}

fn continuity(c: &Case<Q>) -> Verdict {
    let g = coords(c);
    if !fast_ok(&g) {
        return Skip;
    }
    let d = c.aux[0];
    let x = point(c, 0);
    let p = x[d];
    let gd = &g[d];
    let w = gd.windows(2).map(|w| w[1] - w[0]).fold(gd[1] - gd[0], |a, b| if b < a { b } else { a });
    let f = |t: Q| -> Option<Q> {
        let mut y = x.clone();
        y[d] = t;
        match one(c, &y) {
            Result::Ok(Result::Ok(v)) => Some(v),
            _ => None,
        }
    };
    let Some(f0) = f(p) else { return Skip };
    let m = method(&c.key);
    let mut fails = None;
    let mut limits = vec![];
    for (side, s) in [("left", -1), ("right", 1)] {
        // distance to the next node on this side
        let w = gd
            .iter()
            .map(|v| (*v - p) * Q::int(s))
            .filter(|v| v.n > 0)
            .fold(gd[1] - gd[0], |a, b| if b < a { b } else { a });
        for den in [8i128, 1000, 100] {
            let mut v = vec![];
            for k in 1..=7 {
                match f(p + Q::int(s * k) * w / Q::int(den)) {
                    Some(y) => v.push(y),
                    None => return Skip,
                }
            }
            let q = |n, d| Q::new(n, d);
            let fourth = |i: usize| v[i] - q(4, 1) * v[i + 1] + q(6, 1) * v[i + 2] - q(4, 1) * v[i + 3] + v[i + 4];
            if (0..3).any(|i| fourth(i).n != 0) {
                continue;
            }
            let lim = q(4, 1) * v[0] - q(6, 1) * v[1] + q(4, 1) * v[2] - v[3];
            let der = (q(-13, 3) * v[0] + q(19, 2) * v[1] - q(7, 1) * v[2] + q(11, 6) * v[3]) * Q::int(s) * Q::int(den) / w;
            if lim != f0 {
                fails = Some(format!(
                    "value at {} in dimension {d} is {}, but its limit from the {side} is {}",
                    p.s(),
                    f0.s(),
                    lim.s()
                ));
            }
            limits.push(der);
            break;
        }
    }
    if crate::check::dirty() {
        return Skip;
    }
    if let Some(m) = fails {
        return Fail(m);
    }
    if m == "cubic" && limits.len() == 2 && limits[0] != limits[1] {
        return Fail(format!(
            "slope in dimension {d} at {} is {} from the left and {} from the right",
            p.s(),
            limits[0].s(),
            limits[1].s()
        ));
    }
    // hunt for a jump elsewhere in the neighbouring cells (on a part of the cases)
    if c.vals[0].n.rem_euclid(5) != 0 {
        return Ok;
    }
    let mut pts: Vec<(Q, Q)> = vec![];
    for k in -8..=8 {
        let t = p + Q::new(k, 5) * w;
        match f(t) {
            Some(v) => pts.push((t, v)),
            None => return Skip,
        }
    }
    let range = pts.iter().map(|a| a.1).fold(pts[0].1, |a, b| if b > a { b } else { a })
        - pts.iter().map(|a| a.1).fold(pts[0].1, |a, b| if b < a { b } else { a });
    if range.n == 0 {
        return Ok;
    }
    for i in 0..pts.len() - 1 {
        let (mut a, mut b) = (pts[i], pts[i + 1]);
        for _ in 0..20 {
            let t = (a.0 + b.0) * Q::new(1, 2);
            let Some(v) = f(t) else { return Skip };
            if dirty() {
                return Skip;
            }
            if abs(v - a.1) > abs(v - b.1) {
                b = (t, v);
            } else {
                a = (t, v);
            }
        }
        if abs(a.1 - b.1) > range * Q::new(1, 64) {
            return Fail(format!(
                "value jumps from {} at {} to {} at {} in dimension {d}",
                a.1.s(),
                a.0.s(),
                b.1.s(),
                b.0.s()
            ));
        }
    }
    Ok
}

fn grid_valid<T: Nm>(c: &Case<T>) -> bool {
    let mn = min_points(&c.key);
    let prod = |d: &mut dyn Iterator<Item = usize>| d.fold(Some(1usize), |a, n| a.and_then(|a| a.checked_mul(n)));
    let n = nd(c);
    let room = if is_rec(&c.key) { n <= c.n } else { n == c.n };
    if n == 0 || !room {
        return false;
    }
    if is_reg(&c.key) {
        c.start.len() == n
            && c.step.len() == n
            && prod(&mut c.dims.iter().cloned()) == Some(c.vals.len())
            && c.dims.iter().all(|d| *d >= mn)
            && c.step.iter().all(|h| *h > T::zero())
    } else {
        prod(&mut c.grids.iter().map(|g| g.len())) == Some(c.vals.len())
            && c.grids.iter().all(|g| g.len() >= mn && g[1] > g[0])
    }
}

fn max_dims(key: &str) -> usize {
    if method(key) == "nearest" { 6 } else { 8 }
}

/// one-shot and batch evaluation against pointwise evaluation
fn batch(c: &Case<Q>) -> Verdict {
    let g = Case::refs(&c.grids);
    let x = Case::refs(&c.x);
    let n = nd(c);
    // interpolator for the pointwise reference
    let mut p = c.clone();
    if c.op != "batch" {
        p.n = n;
        if !is_rec(&p.key) && ((method(&p.key) == "linear" && n > 6) || (method(&p.key) == "cubic" && n > 4)) {
            p.key += "rec";
        }
        if n > max_dims(&p.key) {
            return Skip;
        }
    }
    if !grid_valid(&p) {
        return Skip;
    }
    let lens_ok = c.x.len() == n && c.x.iter().all(|v| v.len() == c.outn);
    let mut exp = vec![];
    let mut all_ok = true;
    if lens_ok {
        for k in 0..c.outn {
            match one(&p, &point(c, k)) {
                Result::Ok(Result::Ok(v)) => exp.push(v),
                Result::Ok(Err(_)) => {
                    all_ok = false;
                    break;
                }
                Err(e) => return Fail(e),
            }
        }
    }
    let marker = Q::new(123_456_789, 7);
    let mut out = vec![marker; c.outn];
    let r = no_panic(|| match c.op.as_str() {
        "batch" => with(c, &g, &mut |it| it.and_then(|i| i.batch(&x, &mut out))),
        "interpn" => interpn_(c, &g, &x, &mut out),
        _ => alloc_(c, &g, &x).map(|v| out = v),
    });
    let r = match r {
        Result::Ok(r) => r,
        Err(e) => return Fail(e),
    };
    if r == Err(HARNESS) {
        return Skip;
    }
    match (r, lens_ok && all_ok) {
        (Result::Ok(()), false) => {
            if lens_ok {
                Fail("returned Ok although a point cannot be evaluated".into())
            } else {
                Fail("returned Ok for disagreeing lengths".into())
            }
        }
        (Err(e), true) => Fail(format!("returned Err({e}) although every point can be evaluated")),
        (Err(_), false) => Ok,
        (Result::Ok(()), true) => {
            if out.len() != exp.len() {
                return Fail(format!("returned {} values for {} points", out.len(), exp.len()));
            }
            for k in 0..exp.len() {
                if out[k] != exp[k] {
                    return Fail(format!(
                        "output {k} is {}, single-point evaluation gives {}",
                        if out[k] == marker { "not written".to_string() } else { out[k].s() },
                        exp[k].s()
                    ));
                }
            }
            Ok
        }
    }
}

fn bounds(c: &Case<Q>) -> Verdict {
    let g = coords(c);
    if !fast_ok(&g) || c.atol < Q::int(0) {
        return Skip;
    }
    let gr = Case::refs(&c.grids);
    let x = Case::refs(&c.x);
    // flags start in a given state: both must be overwritten
    for init in [false, true] {
        let mut out = vec![init; g.len()];
        let r = match no_panic(|| bounds_(c, &gr, &x, &mut out)) {
            Result::Ok(r) => r,
            Err(e) => return Fail(e),
        };
        if let Err(e) = r {
            if e == HARNESS {
                return Skip;
            }
            return Fail(format!("bounds check returned Err({e})"));
        }
        for d in 0..g.len() {
            let (lo, hi) = (g[d][0] - c.atol, g[d][g[d].len() - 1] + c.atol);
            let must = c.x[d].iter().any(|x| *x < lo || *x > hi);
            let clear = c.x[d].iter().all(|x| *x > lo && *x < hi);
            if (must && !out[d]) || (clear && out[d]) {
                return Fail(format!("flag of dimension {d} is {}", out[d]));
            }
        }
    }
    Ok
}

fn one_d(c: &Case<Q>) -> Verdict {
    let g: Vec<Q> = if c.key == "reg" {
        if c.step[0] <= Q::int(0) {
            return Skip;
        }
        (0..c.vals.len()).map(|i| c.start[0] + Q::int(i as i128) * c.step[0]).collect()
    } else {
        c.grids[0].clone()
    };
    if g.len() < 2 || g.len() != c.vals.len() || !g.windows(2).all(|w| w[0] < w[1]) {
        return Skip;
    }
    let y = &c.vals;
    let xs = &c.x[0];
    let n = g.len();
    let mut out = vec![Q::new(1, 97); c.outn];
    let mut ones = vec![];
    let mut r = Err("");
    let mut al = Err("");
    if let Err(e) = no_panic(|| {
        one_dim(c, &mut |it| match it {
            Err(e) => {
                ones.clear();
                r = Err(e)
            }
            Result::Ok((one, batch, alloc)) => {
                ones = xs.iter().map(|x| one(*x)).collect::<Vec<_>>();
                r = batch(xs, &mut out);
                al = alloc(xs);
            }
        })
    }) {
        return Fail(e);
    }
    if ones.len() != xs.len() {
        return Fail(format!("grid or interpolator rejected: {:?}", r));
    }
    for (k, x) in xs.iter().enumerate() {
        if c.key == "reg" {
            let f = ((*x - c.start[0]) / c.step[0]).fl();
            if i64::try_from(f).is_err() {
                continue;
            }
        }
        let x = *x;
        let exp: Vec<Q> = match c.op.as_str() {
            "linear" | "linearholdlast" => {
                if c.op == "linearholdlast" && x < g[0] {
                    vec![y[0]]
                } else if c.op == "linearholdlast" && x > g[n - 1] {
                    vec![y[n - 1]]
                } else {
                    let w = weights("linear", &g, x, false);
                    vec![w[0].1 * y[w[0].0] + w[1].1 * y[w[1].0]]
                }
            }
            op => {
                if x < g[0] {
                    vec![y[0]]
                } else if x > g[n - 1] {
                    vec![y[n - 1]]
                } else if op == "nearest" {
                    vec![y[nearest(&g, x)[0]]]
                } else if let Some(i) = g.iter().position(|v| *v == x) {
                    (i.saturating_sub(1)..=(i + 1).min(n - 1)).map(|j| y[j]).collect()
                } else {
                    let i = g.iter().position(|v| *v > x).unwrap();
                    vec![if op == "left" { y[i - 1] } else { y[i] }]
                }
            }
        };
        match &ones[k] {
            Result::Ok(v) if exp.contains(v) => {}
            r => {
                return Fail(format!(
                    "at {} returned {}, expected {}",
                    x.s(),
                    show(r),
                    exp.iter().map(|v| v.s()).collect::<Vec<_>>().join(" or ")
                ));
            }
        }
    }
    let all = ones.iter().all(|r| r.is_ok());
    if c.outn != xs.len() {
        return if r.is_ok() { Fail("returned Ok for disagreeing lengths".into()) } else { Ok };
    }
    if r.is_ok() != all || al.is_ok() != all {
        return Fail(format!("slice evaluation returned {:?} / {:?}", r, al.map(|_| ())));
    }
    if all {
        let v: Vec<Q> = ones.into_iter().map(|r| r.unwrap()).collect();
        if v != out {
            return Fail(format!("slice evaluation differs: {:?} against {:?}", out, v));
        }
        if v != al.unwrap() {
            return Fail("allocating slice evaluation differs".into());
        }
    }
    Ok
}

fn linspace(c: &Case<Q>) -> Verdict {
    let n = c.aux[0];
    let (a, b) = (c.start[0], c.step[0]);
    if n < 2 {
        return Skip;
    }
    let v = match no_panic(|| interpn::utils::linspace(a, b, n)) {
        Result::Ok(v) => v,
        Err(e) => return Fail(e),
    };
    if v.len() != n {
        return Fail(format!("returned {} values", v.len()));
    }
    for (k, x) in v.iter().enumerate() {
        let e = a + Q::int(k as i128) * (b - a) / Q::int(n as i128 - 1);
        if *x != e {
            return Fail(format!("value {k} is {}, expected {}", x.s(), e.s()));
        }
    }
    Ok
}

fn meshgrid(c: &Case<Q>) -> Verdict {
    let lists: Vec<&Vec<Q>> = c.grids.iter().collect();
    let m = lists.len();
    let total: usize = lists.iter().map(|l| l.len()).product();
    let v = match no_panic(|| interpn::utils::meshgrid(lists.clone())) {
        Result::Ok(v) => v,
        Err(e) => return Fail(e),
    };
    if v.len() != total {
        return Fail(format!("returned {} nodes, expected {}", v.len(), total));
    }
    for (k, node) in v.iter().enumerate() {
        let mut rest = k;
        let mut e = vec![Q::int(0); m];
        for j in (0..m).rev() {
            e[j] = lists[j][rest % lists[j].len()];
            rest /= lists[j].len();
        }
        if *node != e {
            return Fail(format!("node {k} is {:?}, expected {:?}", node, e));
        }
    }
    Ok
}

// ------------------------------------------------------------------ any number type

pub fn check_f<T: Nm>(c: &Case<T>) -> Verdict {
    let g = Case::refs(&c.grids);
    match c.prop.as_str() {
        "C08" => {
            // constructed first; a constructor panic belongs to another property
            match no_panic(|| with(c, &g, &mut |it| it.is_ok())) {
                Result::Ok(true) => {}
                _ => return Skip,
            }
            if c.x.len() != nd(c) {
                return Skip;
            }
            for k in 0..c.x[0].len() {
                let x = point(c, k);
                let r = match no_panic(|| with(c, &g, &mut |it| it.and_then(|i| i.one(&x)))) {
                    Result::Ok(r) => r,
                    Err(e) => return Fail(format!("{e} at point {:?}", x)),
                };
                if is_reg(&c.key) && r.is_ok() {
                    for d in 0..x.len() {
                        // far outside the machine integers whichever way it is computed
                        let q = ((x[d] - c.start[d]) / c.step[d]).to_f64().unwrap_or(0.0);
                        if q.is_nan() || q.abs() > 1e19 {
                            return Fail(format!("cell number {q} of dimension {d} is reported as Ok at point {:?}", x));
                        }
                    }
                }
            }
            Ok
        }
        "C09" => {
            let r = match no_panic(|| with(c, &g, &mut |it| it.map(|_| ()))) {
                Result::Ok(r) => r,
                Err(e) => return Fail(e),
            };
            if r == Err(HARNESS) {
                return Skip;
            }
            let v = grid_valid(c);
            if r.is_ok() == v {
                Ok
            } else {
                Fail(format!("constructor returned {:?} for {} grid", r, if v { "a valid" } else { "an invalid" }))
            }
        }
        "C10" => {
            let x = Case::refs(&c.x);
            let mut bad;
            let r = match c.op.as_str() {
                "bounds" => {
                    let mut out = vec![false; c.outn];
                    let n = nd(c);
                    bad = c.x.len() != n || c.outn != n;
                    if is_reg(&c.key) {
                        bad |= c.start.len() != n || c.step.len() != n || c.dims.iter().any(|d| *d == 0);
                    } else {
                        bad |= c.grids.iter().any(|g| g.is_empty());
                    }
                    no_panic(|| bounds_(c, &g, &x, &mut out))
                }
                "batch" => {
                    let mut out = vec![T::zero(); c.outn];
                    match no_panic(|| with(c, &g, &mut |it| it.is_ok())) {
                        Result::Ok(true) => {}
                        _ => return Skip,
                    }
                    bad = c.x.len() != nd(c) || c.x.iter().any(|v| v.len() != c.outn);
                    no_panic(|| with(c, &g, &mut |it| it.and_then(|i| i.batch(&x, &mut out))))
                }
                op => {
                    let mut p = c.clone();
                    let n = nd(c);
                    p.n = n;
                    bad = n > max_dims(&c.key) || !grid_valid(&p) || c.x.len() != n;
                    if op == "interpn" {
                        let mut out = vec![T::zero(); c.outn];
                        bad |= c.x.iter().any(|v| v.len() != c.outn);
                        no_panic(|| interpn_(c, &g, &x, &mut out))
                    } else {
                        bad |= c.x.iter().any(|v| v.len() != c.x[0].len());
                        no_panic(|| alloc_(c, &g, &x).map(|_| ()))
                    }
                }
            };
            match r {
                Err(e) => Fail(e),
                Result::Ok(Err(HARNESS)) => Skip,
                Result::Ok(Result::Ok(())) if bad => Fail("returned Ok for malformed input".into()),
                _ => Ok,
            }
        }
        "C17" => {
            let n = c.vals.len();
            let want = n >= 2 && (c.key == "reg" || c.grids[0].len() == n);
            let mut acc = None;
            let mut out = vec![T::zero(); c.outn];
            if let Err(e) = no_panic(|| {
                one_dim(c, &mut |it| match it {
                    Err(_) => acc = Some(false),
                    Result::Ok((one, batch, alloc)) => {
                        acc = Some(true);
                        for x in &c.x[0] {
                            let _ = one(*x);
                        }
                        let r = batch(&c.x[0], &mut out);
                        if r.is_ok() && c.outn != c.x[0].len() {
                            panic!("slice evaluation returned Ok for disagreeing lengths");
                        }
                        let _ = alloc(&c.x[0]);
                    }
                })
            }) {
                return Fail(e);
            }
            if acc == Some(true) && !want {
                return Fail("grid accepted".into());
            }
            Ok
        }
        "C18" => {
            let x = Case::refs(&c.x);
            let p = if c.x.iter().all(|v| !v.is_empty()) { point(c, 0) } else { vec![] };
            let mut out = vec![T::zero(); c.outn];
            let mut flags = vec![false; c.x.len()];
            let a0 = crate::allocs();
            let _ = catch_unwind(AssertUnwindSafe(|| {
                match c.op.as_str() {
                    "interpn" => {
                        let _ = interpn_(c, &g, &x, &mut out);
                    }
                    "bounds" => {
                        let _ = bounds_(c, &g, &x, &mut flags);
                    }
                    "new" => with(c, &g, &mut |_| ()),
                    "one" => with(c, &g, &mut |it| {
                        let _ = it.and_then(|i| i.one(&p));
                    }),
                    _ => with(c, &g, &mut |it| {
                        let _ = it.and_then(|i| i.batch(&x, &mut out));
                    }),
                };
            }))
            .map_err(|_| crate::PANICKED.with(|p| p.set(true)));
            let a1 = crate::allocs();
            if crate::PANICKED.with(|p| p.replace(false)) {
                return Skip;
            }
            if a1 == a0 { Ok } else { Fail(format!("{} heap allocations in {}", a1 - a0, c.op)) }
        }
        _ => Skip,
    }
}

