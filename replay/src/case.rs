//! Test cases and their text form.
use crate::q::Q;
use num_traits::{Float, Num};
use serde_json::{Value, json};

pub trait Nm: Float + 'static + std::fmt::Debug {
    const TY: &'static str;
    fn s(&self) -> String;
    fn p(s: &str) -> Self;
    fn of(q: Q) -> Self;
}
impl Nm for Q {
    const TY: &'static str = "rational";
    fn s(&self) -> String {
        if self.d == 1 { format!("{}", self.n) } else { format!("{}/{}", self.n, self.d) }
    }
    fn p(s: &str) -> Q {
        Q::from_str_radix(s, 10).expect("number")
    }
    fn of(q: Q) -> Q {
        q
    }
}
impl Nm for f64 {
    const TY: &'static str = "f64";
    fn s(&self) -> String {
        format!("{:?}", self)
    }
    fn p(s: &str) -> f64 {
        s.parse().expect("number")
    }
    fn of(q: Q) -> f64 {
        q.n as f64 / q.d as f64
    }
}
impl Nm for f32 {
    const TY: &'static str = "f32";
    fn s(&self) -> String {
        format!("{:?}", self)
    }
    fn p(s: &str) -> f32 {
        s.parse().expect("number")
    }
    fn of(q: Q) -> f32 {
        (q.n as f64 / q.d as f64) as f32
    }
}

#[derive(Clone, Debug)]
pub struct Case<T> {
    pub prop: String,
    pub key: String,
    pub op: String,
    /// const parameter (number of dimensions, or the maximum for recursive ones)
    pub n: usize,
    pub dims: Vec<usize>,
    pub start: Vec<T>,
    pub step: Vec<T>,
    pub grids: Vec<Vec<T>>,
    pub vals: Vec<T>,
    pub lin: bool,
    /// observation coordinates, one list per dimension
    pub x: Vec<Vec<T>>,
    pub outn: usize,
    pub atol: T,
    pub aux: Vec<usize>,
}

impl<T: Nm> Case<T> {
    pub fn blank(prop: &str) -> Case<T> {
        Case {
            prop: prop.to_string(),
            key: String::new(),
            op: String::new(),
            n: 0,
            dims: vec![],
            start: vec![],
            step: vec![],
            grids: vec![],
            vals: vec![],
            lin: false,
            x: vec![],
            outn: 0,
            atol: T::zero(),
            aux: vec![],
        }
    }
    pub fn json(&self) -> Value {
        let l = |v: &Vec<T>| v.iter().map(|x| x.s()).collect::<Vec<_>>();
        let ll = |v: &Vec<Vec<T>>| v.iter().map(l).collect::<Vec<_>>();
        json!({"number": T::TY, "property": self.prop, "interpolator": self.key, "operation": self.op, "n": self.n,
            "dims": self.dims.iter().map(|d| d.to_string()).collect::<Vec<_>>(),
            "starts": l(&self.start), "steps": l(&self.step), "grids": ll(&self.grids),
            "vals": l(&self.vals), "linearize_extrapolation": self.lin, "points": ll(&self.x),
            "out_len": self.outn, "atol": self.atol.s(), "aux": self.aux})
    }
    pub fn parse(v: &Value) -> Case<T> {
        let st = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let l = |v: &Value| v.as_array().unwrap().iter().map(|x| T::p(x.as_str().unwrap())).collect::<Vec<T>>();
        let ll = |v: &Value| v.as_array().unwrap().iter().map(l).collect::<Vec<_>>();
        Case {
            prop: st("property"),
            key: st("interpolator"),
            op: st("operation"),
            n: v["n"].as_u64().unwrap() as usize,
            dims: v["dims"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect(),
            start: l(&v["starts"]),
            step: l(&v["steps"]),
            grids: ll(&v["grids"]),
            vals: l(&v["vals"]),
            lin: v["linearize_extrapolation"].as_bool().unwrap(),
            x: ll(&v["points"]),
            outn: v["out_len"].as_u64().unwrap() as usize,
            atol: T::p(v["atol"].as_str().unwrap()),
            aux: v["aux"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        }
    }
    pub fn refs(v: &[Vec<T>]) -> Vec<&[T]> {
        v.iter().map(|g| &g[..]).collect()
    }
}

pub fn convert<A: Nm, B: Nm>(c: &Case<A>, f: &dyn Fn(A) -> B) -> Case<B> {
    let l = |v: &Vec<A>| v.iter().map(|x| f(*x)).collect::<Vec<B>>();
    let ll = |v: &Vec<Vec<A>>| v.iter().map(l).collect::<Vec<_>>();
    Case {
        prop: c.prop.clone(),
        key: c.key.clone(),
        op: c.op.clone(),
        n: c.n,
        dims: c.dims.clone(),
        start: l(&c.start),
        step: l(&c.step),
        grids: ll(&c.grids),
        vals: l(&c.vals),
        lin: c.lin,
        x: ll(&c.x),
        outn: c.outn,
        atol: f(c.atol),
        aux: c.aux.clone(),
    }
}
