//! The documented behaviour, written from first principles over exact rationals.
use crate::q::Q;

pub fn method(key: &str) -> &'static str {
    if key.starts_with("ml") { "linear" } else if key.starts_with("mc") { "cubic" } else { "nearest" }
}
pub fn is_reg(key: &str) -> bool {
    key.starts_with("mlreg") || key.starts_with("mcreg") || key == "nreg"
}
pub fn is_rec(key: &str) -> bool {
    key.ends_with("rec")
}
pub fn min_points(key: &str) -> usize {
    if method(key) == "cubic" { 4 } else { 2 }
}

fn cell(g: &[Q], x: Q) -> usize {
    let mut i = 0;
    while i + 2 < g.len() && g[i + 1] <= x {
        i += 1;
    }
    i
}

/// slope of the parabola through three points at the middle one
fn centered(g: &[Q], y: &[Q], i: usize) -> Q {
    let (a, b) = (g[i] - g[i - 1], g[i + 1] - g[i]);
    let (p, q) = ((y[i] - y[i - 1]) / a, (y[i + 1] - y[i]) / b);
    (p * b + q * a) / (a + b)
}

fn hermite(g0: Q, g1: Q, y0: Q, y1: Q, s0: Q, s1: Q, x: Q) -> Q {
    // y0 + s0*u + a*u^2 + b*u^3 with u = x - g0
    let h = g1 - g0;
    let u = x - g0;
    let c = (y1 - y0) / h;
    let three = Q::int(3);
    let two = Q::int(2);
    let a = (three * c - two * s0 - s1) / h;
    let b = (s0 + s1 - two * c) / (h * h);
    y0 + u * (s0 + u * (a + u * b))
}

/// 1-D cubic interpolant of samples y on grid g
pub fn cubic1(g: &[Q], y: &[Q], x: Q, lin: bool) -> Q {
    let n = g.len();
    let i = cell(g, x);
    let c = (y[i + 1] - y[i]) / (g[i + 1] - g[i]);
    let two = Q::int(2);
    let (s0, s1) = if i == 0 {
        let s1 = centered(g, y, 1);
        (two * c - s1, s1)
    } else if i == n - 2 {
        let s0 = centered(g, y, n - 2);
        (s0, two * c - s0)
    } else {
        (centered(g, y, i), centered(g, y, i + 1))
    };
    if lin && x < g[0] {
        return y[0] + s0 * (x - g[0]);
    }
    if lin && x > g[n - 1] {
        return y[n - 1] + s1 * (x - g[n - 1]);
    }
    hermite(g[i], g[i + 1], y[i], y[i + 1], s0, s1, x)
}

/// (index, weight) of the 1-D interpolant
pub fn weights(m: &str, g: &[Q], x: Q, lin: bool) -> Vec<(usize, Q)> {
    if m == "linear" {
        let i = cell(g, x);
        let t = (x - g[i]) / (g[i + 1] - g[i]);
        return vec![(i, Q::int(1) - t), (i + 1, t)];
    }
    let n = g.len();
    let i = cell(g, x);
    let lo = i.saturating_sub(1);
    let hi = (i + 2).min(n - 1);
    let mut out = vec![];
    for k in lo..=hi {
        let y: Vec<Q> = (0..n).map(|j| Q::int((j == k) as i128)).collect();
        out.push((k, cubic1(g, &y, x, lin)));
    }
    out
}

pub fn tensor(g: &[Vec<Q>], vals: &[Q], w: &[Vec<(usize, Q)>]) -> Q {
    fn go(g: &[Vec<Q>], vals: &[Q], w: &[Vec<(usize, Q)>], d: usize, base: usize) -> Q {
        if d == g.len() {
            return vals[base];
        }
        let mut s = Q::int(0);
        for (i, c) in &w[d] {
            if c.n != 0 {
                s = s + *c * go(g, vals, w, d + 1, base * g[d].len() + i);
            }
        }
        s
    }
    go(g, vals, w, 0, 0)
}

pub fn value(m: &str, g: &[Vec<Q>], vals: &[Q], x: &[Q], lin: bool) -> Q {
    let w: Vec<_> = g.iter().zip(x).map(|(g, x)| weights(m, g, *x, lin)).collect();
    tensor(g, vals, &w)
}

/// indices of the closest nodes (two at an exact midpoint)
pub fn nearest(g: &[Q], x: Q) -> Vec<usize> {
    let mut d = abs(x - g[0]);
    let mut r = vec![0];
    for (i, gi) in g.iter().enumerate().skip(1) {
        let e = abs(x - *gi);
        if e < d {
            d = e;
            r = vec![i];
        } else if e == d {
            r.push(i);
        }
    }
    r
}
pub fn abs(x: Q) -> Q {
    Q { n: x.n.abs(), d: x.d }
}

pub fn nearest_values(g: &[Vec<Q>], vals: &[Q], x: &[Q]) -> Vec<Q> {
    let mut idx = vec![0usize];
    for (gd, xd) in g.iter().zip(x) {
        let c = nearest(gd, *xd);
        idx = idx.iter().flat_map(|b| c.iter().map(move |i| b * gd.len() + i)).collect();
    }
    idx.into_iter().map(|i| vals[i]).collect()
}
