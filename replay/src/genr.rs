//! Random cases aimed at corners: nodes, midpoints, cell edges, far outside, specials.
use crate::case::{Case, Nm, convert};
use crate::check::{coords, fill_affine};
use crate::oracle::*;
use crate::q::Q;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: i128, b: i128) -> i128 {
        a + (self.next() as i128).rem_euclid(b - a + 1)
    }
    pub fn chance(&mut self, k: usize, n: usize) -> bool {
        self.below(n) < k
    }
    pub fn pick<'a, V>(&mut self, v: &'a [V]) -> &'a V {
        &v[self.below(v.len())]
    }
}

pub struct Cfg {
    pub ints: Vec<i128>,
    pub keys: Vec<String>,
    pub ns: Vec<usize>,
    pub big: bool,
}

const ALL: [&str; 10] =
    ["mlreg", "mlrect", "mlregrec", "mlrectrec", "mcreg", "mcrect", "mcregrec", "mcrectrec", "nreg", "nrect"];

fn maxn(key: &str) -> usize {
    match key {
        "mlreg" | "mlrect" | "nreg" | "nrect" => 6,
        "mcreg" | "mcrect" => 4,
        _ => 8,
    }
}

fn pick_key(r: &mut Rng, cfg: &Cfg, ok: &dyn Fn(&str) -> bool) -> String {
    let v: Vec<&str> = ALL
        .iter()
        .cloned()
        .filter(|k| ok(k) && (cfg.keys.is_empty() || cfg.keys.iter().any(|c| c == k)))
        .collect();
    if v.is_empty() {
        let w: Vec<&str> = ALL.iter().cloned().filter(|k| ok(k)).collect();
        return r.pick(&w).to_string();
    }
    r.pick(&v).to_string()
}

fn pick_n(r: &mut Rng, cfg: &Cfg, mx: usize, cubic: bool) -> usize {
    let v: Vec<usize> = cfg.ns.iter().cloned().filter(|n| *n <= mx).collect();
    if !v.is_empty() {
        return *r.pick(&v);
    }
    // small ones mostly
    let n = match r.below(20) {
        0..=5 => 1,
        6..=11 => 2,
        12..=15 => 3,
        16..=17 => 4,
        _ => 1 + r.below(mx),
    };
    let n = n.min(mx);
    if cubic && n > 5 && !r.chance(1, 6) { 3 } else { n }
}

fn interesting(r: &mut Rng, cfg: &Cfg) -> Option<i128> {
    if cfg.ints.is_empty() || !r.chance(1, 6) {
        return None;
    }
    Some(*r.pick(&cfg.ints) + r.range(-1, 1))
}

fn rat(r: &mut Rng) -> Q {
    let d = *r.pick(&[1, 1, 2, 3, 4, 5, 8]);
    Q::new(r.range(-12 * d, 12 * d), d)
}

fn step(r: &mut Rng) -> Q {
    match r.below(8) {
        0..=2 => Q::int(1),
        3 => Q::int(r.range(2, 5)),
        4 => Q::new(1, r.range(2, 5)),
        5 => Q::new(r.range(1, 7), r.range(1, 7)),
        6 => Q::new(r.range(1, 3), 1000),
        _ => Q::int(r.range(100, 1000)),
    }
}

/// a valid grid for the key
pub fn grid(r: &mut Rng, cfg: &Cfg, prop: &str, key: &str, nd: usize) -> Case<Q> {
    let mut c: Case<Q> = Case::blank(prop);
    c.key = key.to_string();
    c.n = nd;
    let mn = min_points(key);
    let cap = if cfg.big { 40000 } else { 6000usize };
    let mut tot = 1usize;
    for d in 0..nd {
        let rest = (nd - d - 1) as u32;
        let room = (cap / tot / mn.pow(rest)).max(mn);
        let n = match interesting(r, cfg) {
            Some(k) if k >= mn as i128 && k <= room as i128 => k as usize,
            _ => {
                let extra = match r.below(8) {
                    0..=2 => 0,
                    3..=6 => r.below(4),
                    _ => r.below(12),
                };
                (mn + extra).min(room)
            }
        };
        tot *= n;
        c.dims.push(n);
    }
    let simple = r.chance(1, 2) || nd > 3;
    for d in 0..nd {
        let s = if simple && r.chance(1, 2) { Q::int(r.range(-3, 3)) } else { rat(r) };
        let h = if simple { Q::int(r.range(1, 2)) } else { step(r) };
        if is_reg(key) {
            c.start.push(s);
            c.step.push(h);
        } else {
            let uniform = r.chance(1, 4);
            let mut g = vec![];
            let mut x = s;
            for _ in 0..c.dims[d] {
                g.push(x);
                x = x + if uniform { h } else if simple { Q::int(r.range(1, 3)) } else { step(r) };
            }
            c.grids.push(g);
        }
    }
    if !is_reg(key) {
        c.dims.clear();
    }
    let unit = r.chance(1, 5);
    let one = r.below(tot);
    c.vals = (0..tot)
        .map(|i| if unit { Q::int((i == one) as i128) } else { Q::int(r.range(-20, 20)) })
        .collect();
    c.lin = r.chance(1, 2);
    c
}

/// a coordinate on one dimension's grid
pub fn coord(r: &mut Rng, cfg: &Cfg, g: &[Q], mode: usize) -> Q {
    let n = g.len();
    let i = r.below(n - 1);
    let w = g[i + 1] - g[i];
    let (lo, hi) = (g[0], g[n - 1]);
    let (wl, wh) = (g[1] - g[0], g[n - 1] - g[n - 2]);
    // mode 0 anything, 1 inside only, 2 outside only, 3 node
    let k = match mode {
        1 => r.below(5),
        2 => 5 + r.below(6),
        3 => 0,
        _ => r.below(11),
    };
    match k {
        0 => *r.pick(g),
        1 => g[i] + w * Q::new(1, 2),
        2 => g[i] + w * Q::new(r.range(1, 7), 8),
        3 => g[i] + w * Q::new(r.range(1, 6), 7),
        4 => {
            let e = Q::new(1, *r.pick(&[100, 1000]));
            if r.chance(1, 2) { g[i] + w * e } else { g[i + 1] - w * e }
        }
        5 => lo - wl * Q::new(r.range(1, 8), 4),
        6 => hi + wh * Q::new(r.range(1, 8), 4),
        7 => if r.chance(1, 2) { lo - wl * Q::new(1, 100) } else { hi + wh * Q::new(1, 100) },
        8 => lo - wl * Q::int(r.range(1, 30)),
        9 => hi + wh * Q::int(r.range(1, 30)),
        _ => {
            let m = match interesting(r, cfg) {
                Some(k) => Q::int(k),
                None => Q::int(*r.pick(&[50, 100, 1000, 100_000])),
            };
            match r.below(4) {
                0 => lo - wl * m,
                1 => hi + wh * m,
                2 => lo - abs(m) - Q::new(1, 2),
                _ => hi + abs(m),
            }
        }
    }
}

fn add_points(r: &mut Rng, cfg: &Cfg, c: &mut Case<Q>, k: usize, mode: usize) {
    let g = coords(c);
    let quiet = g.len() > 4;
    c.x = g
        .iter()
        .map(|g| {
            (0..k)
                .map(|_| {
                    let m = if mode == 0 && quiet && r.chance(1, 2) { *r.pick(&[1, 3]) } else { mode };
                    let x = coord(r, cfg, g, m);
                    // keep exact arithmetic small in high dimensions
                    if quiet && x.d > 8 { g[r.below(g.len())] } else { x }
                })
                .collect()
        })
        .collect();
}

pub fn exact(r: &mut Rng, cfg: &Cfg, prop: &str) -> Case<Q> {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C12" | "C13" => {
            let m = match prop {
                "C01" => "linear",
                "C02" | "C03" => "cubic",
                "C04" => "nearest",
                "C06" | "C07" => *r.pick(&["linear", "cubic"]),
                "C13" => *r.pick(&["linear", "cubic"]),
                _ => *r.pick(&["linear", "cubic", "nearest"]),
            };
            let key = pick_key(r, cfg, &|k| {
                (method(k) == m || !cfg.keys.is_empty() && !["C01", "C02", "C03", "C04"].contains(&prop))
                    && (prop != "C12" || is_reg(k))
                    && (prop != "C13" || (!is_rec(k) && method(k) != "nearest"))
                    && ((prop != "C06" && prop != "C07") || method(k) != "nearest")
            });
            let n = pick_n(r, cfg, maxn(&key), method(&key) == "cubic");
            let nd = if (prop == "C06" || prop == "C07") && n > 4 && !r.chance(1, 40) { 1 + n % 4 } else { n };
            let nd = if prop == "C06" { nd.min(6) } else { nd };
            let n = nd;
            let _ = n;
            let mut c = grid(r, cfg, prop, &key, nd);
            match prop {
                "C13" => c.aux = vec![nd + if r.chance(1, 2) { r.below(9 - nd) } else { 0 }],
                "C06" => {
                    c.aux = (0..1 << nd).map(|_| if r.chance(1, 3) || nd <= 2 { 10 + r.below(7) - 3 } else { 10 }).collect();
                    fill_affine(&mut c);
                }
                "C01" | "C02" | "C03" | "C05" if is_rec(&key) && r.chance(1, 3) => c.n = nd + r.below(9 - nd),
                _ => {}
            }
            let mode = match prop {
                "C02" => 1,
                "C05" => 3,
                "C03" => 0,
                "C07" => *r.pick(&[3, 3, 3, 3, 1, 0]),
                _ => 0,
            };
            add_points(r, cfg, &mut c, 1, mode);
            if prop == "C03" {
                let d = r.below(nd);
                let g = coords(&c);
                c.x[d][0] = coord(r, cfg, &g[d], 2);
            }
            if prop == "C07" {
                c.aux = vec![r.below(nd)];
            }
            c
        }
        "C11" => {
            let key = pick_key(r, cfg, &|_| true);
            let op = *r.pick(&["batch", "interpn", "interpn", "alloc"]);
            let mx = if op == "batch" { maxn(&key) } else if method(&key) == "nearest" { 6 } else { 8 };
            let n = pick_n(r, cfg, mx, method(&key) == "cubic");
            let mut c = grid(r, cfg, prop, &key, n);
            c.op = op.to_string();
            if op == "batch" && is_rec(&key) && r.chance(1, 3) {
                c.n = n + r.below(9 - n);
            }
            let k = match interesting(r, cfg) {
                Some(k) if (0..3000).contains(&k) && n <= 3 => k as usize,
                _ => match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2..=5 => 2 + r.below(8),
                    _ => if n <= 3 { r.below(70) } else { 5 },
                },
            };
            add_points(r, cfg, &mut c, k, 0);
            c.outn = k;
            if is_reg(&key) && k > 0 && r.chance(1, 12) {
                // a coordinate whose cell number is not representable
                let d = r.below(n);
                let p = r.below(k);
                c.x[d][p] = Q::int(1i128 << 80);
            }
            if r.chance(1, 10) {
                match r.below(3) {
                    0 if op != "alloc" => c.outn += 1 + r.below(3),
                    1 if op != "alloc" && c.outn > 0 => c.outn -= 1,
                    _ => {
                        let d = r.below(n);
                        if r.chance(1, 2) {
                            c.x[d].pop();
                        } else {
                            c.x[d].push(Q::int(0));
                        }
                    }
                }
            }
            if op == "alloc" {
                c.outn = c.x[0].len();
            }
            c
        }
        "C14" => {
            let key = pick_key(r, cfg, &|_| true);
            let n = pick_n(r, cfg, 8, false);
            let mut c = grid(r, cfg, prop, &key, n);
            c.vals.clear();
            let k = match r.below(4) {
                0 => r.below(2),
                1 => 1,
                _ => r.below(12),
            };
            let m = *r.pick(&[0, 1, 1, 3]);
            add_points(r, cfg, &mut c, k, m);
            c.atol = match r.below(4) {
                0 => Q::int(0),
                1 => Q::new(1, r.range(1, 100)),
                2 => Q::int(r.range(1, 5)),
                _ => Q::new(r.range(1, 9), 1000),
            };
            // points close to the tolerance
            let g = coords(&c);
            for (d, g) in g.iter().enumerate() {
                for x in c.x[d].iter_mut() {
                    if r.chance(1, 5) {
                        let e = *r.pick(&[Q::new(1, 2), Q::new(99, 100), Q::new(101, 100), Q::int(2), Q::int(1)]);
                        let last = g[g.len() - 1];
                        *x = if r.chance(1, 2) { g[0] - c.atol * e } else { last + c.atol * e };
                    }
                }
                if !c.x[d].is_empty() && r.chance(1, 3) {
                    // one offender among insiders
                    let k = r.below(c.x[d].len());
                    c.x[d] = c.x[d].iter().map(|_| coord(r, cfg, g, 1)).collect();
                    c.x[d][k] = coord(r, cfg, g, 2);
                }
            }
            c
        }
        "C15" | "C16" => {
            let op = if prop == "C15" { *r.pick(&["linear", "linearholdlast"]) } else { *r.pick(&["left", "right", "nearest"]) };
            let key = if r.chance(1, 2) { "mlreg" } else { "mlrect" };
            let mut c = grid(r, cfg, prop, key, 1);
            let k = if r.chance(1, 8) { 0 } else { 1 + r.below(10) };
            add_points(r, cfg, &mut c, k, 0);
            c.key = key[2..].to_string();
            c.op = op.to_string();
            c.outn = k;
            if r.chance(1, 10) {
                c.outn = r.below(k + 3);
            }
            c
        }
        "C19" => {
            let mut c = Case::blank(prop);
            c.start = vec![if r.chance(1, 2) { rat(r) } else { Q::int(r.range(-1000, 1000)) }];
            c.step = vec![if r.chance(1, 8) { c.start[0] } else { rat(r) }];
            let n = match interesting(r, cfg) {
                Some(k) if (2..5000).contains(&k) => k as usize,
                _ => if r.chance(1, 6) { r.below(300) } else { 2 + r.below(12) },
            };
            c.aux = vec![n];
            c
        }
        "C20" => {
            let mut c = Case::blank(prop);
            let most = if r.chance(1, 5) { 7 } else { 4 };
            let m = if r.chance(1, 12) { 0 } else { 1 + r.below(most) };
            let top = if m > 4 { 3 } else { 5 };
            let grow = r.chance(1, 20);
            c.grids = (0..m)
                .map(|_| {
                    let n = if r.chance(1, 25) { 0 } else { 1 + r.below(top) };
                    let n = if grow && m < 3 { n * (1 + r.below(60)) } else { n };
                    (0..n).map(|_| if r.chance(1, 4) { Q::int(r.range(-3, 3)) } else { rat(r) }).collect()
                })
                .collect();
            c
        }
        _ => panic!("no generator for {prop}"),
    }
}

const SPECIAL: [f64; 26] = [
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::MAX,
    f64::MIN,
    f64::MIN_POSITIVE,
    5e-324,
    -5e-324,
    0.0,
    -0.0,
    9.223372036854775807e18,
    -9.223372036854775808e18,
    1.8446744073709552e19,
    9.223372036854774e18,
    -9.223372036854774e18,
    4.611686018427388e18,
    -4.611686018427388e18,
    2147483647.0,
    -2147483649.0,
    1e300,
    -1e300,
    1e-300,
    1e15,
    -1e15,
    0.5,
    f64::EPSILON,
];

fn special(r: &mut Rng) -> f64 {
    let s = *r.pick(&SPECIAL);
    match r.below(4) {
        0 => s * (1.0 - f64::EPSILON),
        1 => s + r.range(-3, 3) as f64,
        _ => s,
    }
}

fn scale(c: &mut Case<f64>, r: &mut Rng) {
    // sprinkle specials over the numeric inputs
    let p = *r.pick(&[0usize, 1, 4, 12]);
    let q = *r.pick(&[0usize, 0, 2, 6]);
    for v in c.x.iter_mut() {
        for x in v.iter_mut() {
            if r.below(16) < p {
                *x = special(r);
            }
        }
    }
    for v in [&mut c.start, &mut c.vals] {
        for x in v.iter_mut() {
            if r.below(16) < q {
                *x = special(r);
            }
        }
    }
    for x in c.step.iter_mut() {
        if r.below(16) < q {
            *x = special(r);
        }
    }
    for g in c.grids.iter_mut() {
        for x in g.iter_mut().skip(2) {
            if r.below(24) < q {
                *x = special(r);
            }
        }
        if r.below(30) < q && g.len() > 2 {
            for x in g.iter_mut() {
                *x = special(r);
            }
        }
    }
}

fn weird_len(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => 0,
        3 => r.below(10),
        _ => n,
    }
}

pub fn float(r: &mut Rng, cfg: &Cfg, prop: &str) -> Case<f64> {
    let f = |q: Q| <f64 as Nm>::of(q);
    match prop {
        "C08" | "C18" => {
            let key = pick_key(r, cfg, &|_| true);
            let op = if prop == "C08" { "one" } else { *r.pick(&["new", "one", "batch", "interpn", "bounds"]) };
            let mx = if op == "interpn" || op == "bounds" { if method(&key) == "nearest" { 6 } else { 8 } } else { maxn(&key) };
            let n = pick_n(r, cfg, mx, method(&key) == "cubic");
            let mut c = grid(r, cfg, prop, &key, n);
            if is_rec(&key) && r.chance(1, 3) {
                c.n = n + r.below(9 - n);
            }
            let k = match interesting(r, cfg) {
                Some(k) if prop == "C18" && (0..3000).contains(&k) && n <= 3 => k as usize,
                _ => 1 + r.below(4),
            };
            let mode = if r.chance(1, 2) { 0 } else { 2 };
            add_points(r, cfg, &mut c, k, mode);
            c.outn = k;
            c.op = op.to_string();
            let mut c = convert(&c, &f);
            scale(&mut c, r);
            if prop == "C18" && r.chance(1, 6) {
                // error paths
                match r.below(4) {
                    0 => c.outn = weird_len(r, k),
                    1 => {
                        c.vals.pop();
                    }
                    2 => {
                        let d = r.below(n);
                        c.x[d].push(0.0);
                    }
                    _ => {
                        if let Some(s) = c.step.first_mut() {
                            *s = -1.0
                        }
                    }
                }
            }
            c
        }
        "C09" => {
            let key = pick_key(r, cfg, &|_| true);
            let n = pick_n(r, cfg, maxn(&key), method(&key) == "cubic");
            let nd = if is_rec(&key) && r.chance(1, 3) { r.below(10) } else { n };
            let mut c = if nd == 0 {
                let mut c = grid(r, cfg, prop, &key, 1);
                c.dims.clear();
                c.start.clear();
                c.step.clear();
                c.grids.clear();
                if r.chance(1, 2) {
                    c.vals.truncate(1);
                }
                c
            } else if nd > 5 && method(&key) == "cubic" {
                let mut c = grid(r, cfg, prop, &key.replace("mc", "ml"), nd);
                c.key = key.clone();
                c
            } else {
                grid(r, cfg, prop, &key, nd)
            };
            c.n = n;
            c.x.clear();
            let mut c = convert(&c, &f);
            if r.chance(2, 3) && nd > 0 {
                scale_new(&mut c, r);
            }
            c
        }
        "C10" => {
            let key = pick_key(r, cfg, &|_| true);
            let op = *r.pick(&["bounds", "batch", "interpn", "interpn", "alloc"]);
            let n = pick_n(r, cfg, if op == "batch" { maxn(&key) } else { 8 }, method(&key) == "cubic");
            let n = if op != "batch" && r.chance(1, 20) { 9 } else { n };
            let mut c = grid(r, cfg, prop, &if n > 5 { key.replace("mc", "ml") } else { key.clone() }, n);
            c.key = key.clone();
            if op == "batch" && is_rec(&key) && r.chance(1, 3) && n < 9 {
                c.n = n + r.below(9 - n);
            }
            c.op = op.to_string();
            let k = r.below(5);
            add_points(r, cfg, &mut c, k, 0);
            c.outn = if op == "bounds" { n } else { k };
            let mut c = convert(&c, &f);
            scale(&mut c, r);
            let rounds = r.below(3);
            for _ in 0..rounds {
                match r.below(7) {
                    0 => c.outn = weird_len(r, c.outn),
                    1 => {
                        if !c.x.is_empty() {
                            let d = r.below(c.x.len());
                            let l = weird_len(r, c.x[d].len());
                            c.x[d].resize(l, 1.5);
                        }
                    }
                    2 => {
                        let l = weird_len(r, c.x.len());
                        c.x.resize(l, vec![0.25; k]);
                    }
                    3 if op != "batch" => {
                        if is_reg(&key) {
                            match r.below(3) {
                                0 => {
                                    let l = weird_len(r, c.start.len());
                                    c.start.resize(l, 0.0)
                                }
                                1 => {
                                    let l = weird_len(r, c.step.len());
                                    c.step.resize(l, 1.0)
                                }
                                _ => {
                                    let l = weird_len(r, c.dims.len());
                                    c.dims.resize(l, 2)
                                }
                            }
                        } else {
                            let l = weird_len(r, c.grids.len());
                            c.grids.resize(l, vec![0.0, 1.0]);
                        }
                    }
                    4 => {
                        if op != "batch" {
                            scale_new(&mut c, r)
                        }
                    }
                    5 if op != "batch" => {
                        if r.chance(1, 3) {
                            c.x.clear();
                        }
                        if r.chance(1, 3) {
                            c.dims.clear();
                            c.start.clear();
                            c.step.clear();
                            c.grids.clear();
                        }
                    }
                    _ => c.atol = special(r),
                }
            }
            c
        }
        "C17" => {
            let key = if r.chance(1, 2) { "mlreg" } else { "mlrect" };
            let mut c = grid(r, cfg, prop, key, 1);
            let k = r.below(6);
            add_points(r, cfg, &mut c, k, 0);
            c.key = key[2..].to_string();
            c.op = r.pick(&["left", "right", "nearest", "linear", "linearholdlast"]).to_string();
            c.outn = weird_len(r, k);
            let mut c = convert(&c, &f);
            scale(&mut c, r);
            if r.chance(1, 3) {
                let l = weird_len(r, c.vals.len());
                let l = if r.chance(1, 2) { r.below(3) } else { l };
                c.vals.resize(l, 1.0);
                if c.key == "rect" && r.chance(1, 2) {
                    c.grids[0].resize(l, 3.0);
                }
            }
            if c.key == "reg" && r.chance(1, 4) {
                c.step[0] = special(r);
            }
            c
        }
        _ => panic!("no generator for {prop}"),
    }
}

/// disturb the constructor arguments
fn scale_new(c: &mut Case<f64>, r: &mut Rng) {
    let rounds = 1 + r.below(2);
    for _ in 0..rounds {
        match r.below(9) {
            0 => {
                let l = weird_len(r, c.vals.len());
                c.vals.resize(l, 2.0);
            }
            1 if !c.dims.is_empty() => {
                let d = r.below(c.dims.len());
                c.dims[d] = *r.pick(&[0, 1, 2, 3, 4, 5, usize::MAX, 1 << 32, 1 << 63, usize::MAX / 2 + 1, 1 << 62]);
                if r.chance(1, 3) {
                    let d = r.below(c.dims.len());
                    c.dims[d] = *r.pick(&[0, 1, 2, 4, usize::MAX, 1 << 32, 1 << 63, usize::MAX / 2 + 1]);
                }
                if r.chance(1, 2) {
                    let p = c.dims.iter().fold(1usize, |a, n| a.wrapping_mul(*n));
                    if p < 10000 {
                        c.vals.resize(p, 1.0);
                    }
                }
            }
            2 if !c.step.is_empty() => {
                let d = r.below(c.step.len());
                c.step[d] = *r.pick(&[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY, 5e-324, -5e-324, 1e308]);
            }
            3 if !c.grids.is_empty() => {
                let d = r.below(c.grids.len());
                if c.grids[d].len() >= 2 {
                    let g0 = c.grids[d][0];
                    c.grids[d][1] = *r.pick(&[g0, g0 - 1.0, f64::NAN, f64::INFINITY, g0 + 1e-9]);
                }
            }
            4 if !c.grids.is_empty() => {
                let d = r.below(c.grids.len());
                let l = *r.pick(&[0usize, 1, 2, 3, 4]);
                c.grids[d].resize(l, 1e6);
                if r.chance(2, 3) {
                    let p: usize = c.grids.iter().map(|g| g.len()).product();
                    c.vals.resize(p, 1.0);
                }
            }
            5 if crate::oracle::is_rec(&c.key) && is_reg(&c.key) => match r.below(3) {
                0 => {
                    let l = weird_len(r, c.start.len());
                    c.start.resize(l, 0.0)
                }
                1 => {
                    let l = weird_len(r, c.step.len());
                    c.step.resize(l, 1.0)
                }
                _ => {
                    let l = weird_len(r, c.dims.len());
                    c.dims.resize(l, 2)
                }
            },
            6 if !c.grids.is_empty() => {
                let d = r.below(c.grids.len());
                for x in c.grids[d].iter_mut() {
                    if r.chance(1, 2) {
                        *x = special(r);
                    }
                }
            }
            7 if !c.dims.is_empty() => {
                let d = r.below(c.dims.len());
                c.dims[d] = 1 + r.below(4);
                let p: usize = c.dims.iter().fold(1usize, |a, n| a.saturating_mul(*n));
                if p < 10000 {
                    c.vals.resize(p, 1.0);
                }
            }
            _ => {
                for x in c.start.iter_mut() {
                    if r.chance(1, 2) {
                        *x = special(r);
                    }
                }
            }
        }
    }
}
