//! Uniform access to the public interface of the crate.
use crate::case::{Case, Nm};
use interpn::*;

pub type Res<T> = Result<T, &'static str>;

pub trait Ev<T> {
    fn one(&self, x: &[T]) -> Res<T>;
    fn batch(&self, x: &[&[T]], out: &mut [T]) -> Res<()>;
}


macro_rules! ev_fixed {
    ($($ty:ident),*) => { $(
        impl<'a, T: Nm, const N: usize> Ev<T> for $ty<'a, T, N> {
            fn one(&self, x: &[T]) -> Res<T> {
                self.interp_one(x.try_into().map_err(|_| "harness: dimension")?)
            }
            fn batch(&self, x: &[&[T]], out: &mut [T]) -> Res<()> {
                self.interp(x.try_into().map_err(|_| "harness: dimension")?, out)
            }
        } )* };
}
macro_rules! ev_rec {
    ($($ty:ident),*) => { $(
        impl<'a, T: Nm, const N: usize> Ev<T> for $ty<'a, T, N> {
            fn one(&self, x: &[T]) -> Res<T> {
                self.interp_one(x)
            }
            fn batch(&self, x: &[&[T]], out: &mut [T]) -> Res<()> {
                self.interp(x, out)
            }
        } )* };
}
use multicubic::rectilinear::MulticubicRectilinear;
use multicubic::rectilinear_recursive::MulticubicRectilinearRecursive;
use multicubic::regular::MulticubicRegular;
use multicubic::regular_recursive::MulticubicRegularRecursive;
use multilinear::rectilinear::MultilinearRectilinear;
use multilinear::rectilinear_recursive::MultilinearRectilinearRecursive;
use multilinear::regular::MultilinearRegular;
use multilinear::regular_recursive::MultilinearRegularRecursive;
ev_fixed!(MultilinearRegular, MultilinearRectilinear, MulticubicRegular, MulticubicRectilinear, NearestRegular, NearestRectilinear);
ev_rec!(
    MultilinearRegularRecursive,
    MultilinearRectilinearRecursive,
    MulticubicRegularRecursive,
    MulticubicRectilinearRecursive
);

pub const HARNESS: &str = "harness: not expressible";

/// run `f` on the constructed interpolator (or the constructor's error)
pub fn with<T: Nm, V>(c: &Case<T>, g: &[&[T]], f: &mut dyn FnMut(Res<&dyn Ev<T>>) -> V) -> V {
    macro_rules! go {
        ($e:expr) => {
            match $e {
                Ok(it) => f(Ok(&it)),
                Err(e) => f(Err(e)),
            }
        };
    }
    macro_rules! reg {
        ($ty:ident, $n:literal, ($($lin:expr)?)) => {{
            let (Ok(d), Ok(s), Ok(h)) = (
                <[usize; $n]>::try_from(&c.dims[..]),
                <[T; $n]>::try_from(&c.start[..]),
                <[T; $n]>::try_from(&c.step[..]),
            ) else {
                return f(Err(HARNESS));
            };
            go!($ty::<T, $n>::new(d, s, h, &c.vals $(, $lin)?))
        }};
    }
    macro_rules! rect {
        ($ty:ident, $n:literal, ($($lin:expr)?)) => {{
            let Ok(a) = <&[&[T]; $n]>::try_from(g) else {
                return f(Err(HARNESS));
            };
            go!($ty::<T, $n>::new(a, &c.vals $(, $lin)?))
        }};
    }
    macro_rules! rreg {
        ($ty:ident, $n:literal, ($($lin:expr)?)) => {
            go!($ty::<T, $n>::new(&c.dims, &c.start, &c.step, &c.vals $(, $lin)?))
        };
    }
    macro_rules! rrect {
        ($ty:ident, $n:literal, ($($lin:expr)?)) => {
            go!($ty::<T, $n>::new(g, &c.vals $(, $lin)?))
        };
    }
    macro_rules! pick {
        ($m:ident, $ty:ident, [$($n:literal)*], $l:tt) => {
            match c.n { $( $n => $m!($ty, $n, $l), )* _ => f(Err(HARNESS)) }
        };
    }
    match c.key.as_str() {
        "mlreg" => pick!(reg, MultilinearRegular, [1 2 3 4 5 6], ()),
        "mlrect" => pick!(rect, MultilinearRectilinear, [1 2 3 4 5 6], ()),
        "nreg" => pick!(reg, NearestRegular, [1 2 3 4 5 6], ()),
        "nrect" => pick!(rect, NearestRectilinear, [1 2 3 4 5 6], ()),
        "mcreg" => pick!(reg, MulticubicRegular, [1 2 3 4], (c.lin)),
        "mcrect" => pick!(rect, MulticubicRectilinear, [1 2 3 4], (c.lin)),
        "mlregrec" => pick!(rreg, MultilinearRegularRecursive, [1 2 3 4 5 6 7 8], ()),
        "mlrectrec" => pick!(rrect, MultilinearRectilinearRecursive, [1 2 3 4 5 6 7 8], ()),
        "mcregrec" => pick!(rreg, MulticubicRegularRecursive, [1 2 3 4 5 6 7 8], (c.lin)),
        "mcrectrec" => pick!(rrect, MulticubicRectilinearRecursive, [1 2 3 4 5 6 7 8], (c.lin)),
        _ => f(Err(HARNESS)),
    }
}

pub fn interpn_<T: Nm>(c: &Case<T>, g: &[&[T]], x: &[&[T]], out: &mut [T]) -> Res<()> {
    let (d, s, h, v, l) = (&c.dims[..], &c.start[..], &c.step[..], &c.vals[..], c.lin);
    match c.key.as_str() {
        "mlreg" => multilinear::regular::interpn(d, s, h, v, x, out),
        "mlregrec" => multilinear::regular_recursive::interpn(d, s, h, v, x, out),
        "mlrect" => multilinear::rectilinear::interpn(g, v, x, out),
        "mlrectrec" => multilinear::rectilinear_recursive::interpn(g, v, x, out),
        "mcreg" => multicubic::regular::interpn(d, s, h, v, l, x, out),
        "mcregrec" => multicubic::regular_recursive::interpn(d, s, h, v, l, x, out),
        "mcrect" => multicubic::rectilinear::interpn(g, v, l, x, out),
        "mcrectrec" => multicubic::rectilinear_recursive::interpn(g, v, l, x, out),
        "nreg" => nearest::regular::interpn(d, s, h, v, x, out),
        "nrect" => nearest::rectilinear::interpn(g, v, x, out),
        _ => Err(HARNESS),
    }
}

pub fn alloc_<T: Nm>(c: &Case<T>, g: &[&[T]], x: &[&[T]]) -> Res<Vec<T>> {
    let (d, s, h, v, l) = (&c.dims[..], &c.start[..], &c.step[..], &c.vals[..], c.lin);
    match c.key.as_str() {
        "mlreg" => multilinear::regular::interpn_alloc(d, s, h, v, x),
        "mlregrec" => multilinear::regular_recursive::interpn_alloc(d, s, h, v, x),
        "mlrect" => multilinear::rectilinear::interpn_alloc(g, v, x),
        "mlrectrec" => multilinear::rectilinear_recursive::interpn_alloc(g, v, x),
        "mcreg" => multicubic::regular::interpn_alloc(d, s, h, v, l, x),
        "mcregrec" => multicubic::regular_recursive::interpn_alloc(d, s, h, v, l, x),
        "mcrect" => multicubic::rectilinear::interpn_alloc(g, v, l, x),
        "mcrectrec" => multicubic::rectilinear_recursive::interpn_alloc(g, v, l, x),
        "nreg" => nearest::regular::interpn_alloc(d, s, h, v, x),
        "nrect" => nearest::rectilinear::interpn_alloc(g, v, x),
        _ => Err(HARNESS),
    }
}

pub fn bounds_<T: Nm>(c: &Case<T>, g: &[&[T]], x: &[&[T]], out: &mut [bool]) -> Res<()> {
    let (d, s, h, a) = (&c.dims[..], &c.start[..], &c.step[..], c.atol);
    match c.key.as_str() {
        "mlreg" => multilinear::regular::check_bounds(d, s, h, x, a, out),
        "mlregrec" => multilinear::regular_recursive::check_bounds(d, s, h, x, a, out),
        "mlrect" => multilinear::rectilinear::check_bounds(g, x, a, out),
        "mlrectrec" => multilinear::rectilinear_recursive::check_bounds(g, x, a, out),
        "mcreg" => multicubic::regular::check_bounds(d, s, h, x, a, out),
        "mcregrec" => multicubic::regular_recursive::check_bounds(d, s, h, x, a, out),
        "mcrect" => multicubic::rectilinear::check_bounds(g, x, a, out),
        "mcrectrec" => multicubic::rectilinear_recursive::check_bounds(g, x, a, out),
        "nreg" => nearest::regular::check_bounds(d, s, h, x, a, out),
        "nrect" => nearest::rectilinear::check_bounds(g, x, a, out),
        _ => Err(HARNESS),
    }
}

/// one-dimensional interpolators: key "reg"/"rect", op names the interpolator
pub fn one_dim<T: Nm>(c: &Case<T>, f: &mut dyn FnMut(Res<(&dyn Fn(T) -> Res<T>, &dyn Fn(&[T], &mut [T]) -> Res<()>, &dyn Fn(&[T]) -> Res<Vec<T>>)>)) {
    use interpn::one_dim::{Interp1D, RectilinearGrid1D, RegularGrid1D};
    macro_rules! go {
        ($g:expr) => {{
            let g = match $g {
                Ok(g) => g,
                Err(e) => return f(Err(e)),
            };
            macro_rules! it {
                ($t:ident) => {{
                    let it = $t::new(g);
                    f(Ok((&|x| it.eval_one(x), &|x, o| it.eval(x, o), &|x| it.eval_alloc(x))))
                }};
            }
            match c.op.as_str() {
                "left" => it!(Left1D),
                "right" => it!(Right1D),
                "nearest" => it!(Nearest1D),
                "linear" => it!(Linear1D),
                "linearholdlast" => it!(LinearHoldLast1D),
                _ => f(Err(HARNESS)),
            }
        }};
    }
    if c.key == "reg" {
        go!(RegularGrid1D::new(c.start[0], c.step[0], &c.vals))
    } else {
        go!(RectilinearGrid1D::new(&c.grids[0], &c.vals))
    }
}
