// @generated by gen.py
use crate::r::R;
use interpn::one_dim::*;
use interpn::*;
#[allow(unused_imports)]
use num_traits::Float;
pub fn root_new_mlreg_1<'a>(dims: [usize; 1], starts: [R; 1], steps: [R; 1], vals: &'a [R], ) -> Result<multilinear::regular::MultilinearRegular<'a, R, 1>, &'static str> { multilinear::regular::MultilinearRegular::<R, 1>::new(dims, starts, steps, vals) }
pub fn root_one_mlreg_1(it: &multilinear::regular::MultilinearRegular<'_, R, 1>, x: [R; 1]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlreg_1(it: &multilinear::regular::MultilinearRegular<'_, R, 1>, x: &[&[R]; 1], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlreg_2<'a>(dims: [usize; 2], starts: [R; 2], steps: [R; 2], vals: &'a [R], ) -> Result<multilinear::regular::MultilinearRegular<'a, R, 2>, &'static str> { multilinear::regular::MultilinearRegular::<R, 2>::new(dims, starts, steps, vals) }
pub fn root_one_mlreg_2(it: &multilinear::regular::MultilinearRegular<'_, R, 2>, x: [R; 2]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlreg_2(it: &multilinear::regular::MultilinearRegular<'_, R, 2>, x: &[&[R]; 2], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlreg_3<'a>(dims: [usize; 3], starts: [R; 3], steps: [R; 3], vals: &'a [R], ) -> Result<multilinear::regular::MultilinearRegular<'a, R, 3>, &'static str> { multilinear::regular::MultilinearRegular::<R, 3>::new(dims, starts, steps, vals) }
pub fn root_one_mlreg_3(it: &multilinear::regular::MultilinearRegular<'_, R, 3>, x: [R; 3]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlreg_3(it: &multilinear::regular::MultilinearRegular<'_, R, 3>, x: &[&[R]; 3], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlreg_4<'a>(dims: [usize; 4], starts: [R; 4], steps: [R; 4], vals: &'a [R], ) -> Result<multilinear::regular::MultilinearRegular<'a, R, 4>, &'static str> { multilinear::regular::MultilinearRegular::<R, 4>::new(dims, starts, steps, vals) }
pub fn root_one_mlreg_4(it: &multilinear::regular::MultilinearRegular<'_, R, 4>, x: [R; 4]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlreg_4(it: &multilinear::regular::MultilinearRegular<'_, R, 4>, x: &[&[R]; 4], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlreg_5<'a>(dims: [usize; 5], starts: [R; 5], steps: [R; 5], vals: &'a [R], ) -> Result<multilinear::regular::MultilinearRegular<'a, R, 5>, &'static str> { multilinear::regular::MultilinearRegular::<R, 5>::new(dims, starts, steps, vals) }
pub fn root_one_mlreg_5(it: &multilinear::regular::MultilinearRegular<'_, R, 5>, x: [R; 5]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlreg_5(it: &multilinear::regular::MultilinearRegular<'_, R, 5>, x: &[&[R]; 5], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlreg_6<'a>(dims: [usize; 6], starts: [R; 6], steps: [R; 6], vals: &'a [R], ) -> Result<multilinear::regular::MultilinearRegular<'a, R, 6>, &'static str> { multilinear::regular::MultilinearRegular::<R, 6>::new(dims, starts, steps, vals) }
pub fn root_one_mlreg_6(it: &multilinear::regular::MultilinearRegular<'_, R, 6>, x: [R; 6]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlreg_6(it: &multilinear::regular::MultilinearRegular<'_, R, 6>, x: &[&[R]; 6], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrect_1<'a>(grids: &'a [&'a [R]; 1], vals: &'a [R], ) -> Result<multilinear::rectilinear::MultilinearRectilinear<'a, R, 1>, &'static str> { multilinear::rectilinear::MultilinearRectilinear::<R, 1>::new(grids, vals) }
pub fn root_one_mlrect_1(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 1>, x: [R; 1]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrect_1(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 1>, x: &[&[R]; 1], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrect_2<'a>(grids: &'a [&'a [R]; 2], vals: &'a [R], ) -> Result<multilinear::rectilinear::MultilinearRectilinear<'a, R, 2>, &'static str> { multilinear::rectilinear::MultilinearRectilinear::<R, 2>::new(grids, vals) }
pub fn root_one_mlrect_2(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 2>, x: [R; 2]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrect_2(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 2>, x: &[&[R]; 2], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrect_3<'a>(grids: &'a [&'a [R]; 3], vals: &'a [R], ) -> Result<multilinear::rectilinear::MultilinearRectilinear<'a, R, 3>, &'static str> { multilinear::rectilinear::MultilinearRectilinear::<R, 3>::new(grids, vals) }
pub fn root_one_mlrect_3(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 3>, x: [R; 3]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrect_3(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 3>, x: &[&[R]; 3], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrect_4<'a>(grids: &'a [&'a [R]; 4], vals: &'a [R], ) -> Result<multilinear::rectilinear::MultilinearRectilinear<'a, R, 4>, &'static str> { multilinear::rectilinear::MultilinearRectilinear::<R, 4>::new(grids, vals) }
pub fn root_one_mlrect_4(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 4>, x: [R; 4]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrect_4(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 4>, x: &[&[R]; 4], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrect_5<'a>(grids: &'a [&'a [R]; 5], vals: &'a [R], ) -> Result<multilinear::rectilinear::MultilinearRectilinear<'a, R, 5>, &'static str> { multilinear::rectilinear::MultilinearRectilinear::<R, 5>::new(grids, vals) }
pub fn root_one_mlrect_5(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 5>, x: [R; 5]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrect_5(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 5>, x: &[&[R]; 5], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrect_6<'a>(grids: &'a [&'a [R]; 6], vals: &'a [R], ) -> Result<multilinear::rectilinear::MultilinearRectilinear<'a, R, 6>, &'static str> { multilinear::rectilinear::MultilinearRectilinear::<R, 6>::new(grids, vals) }
pub fn root_one_mlrect_6(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 6>, x: [R; 6]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrect_6(it: &multilinear::rectilinear::MultilinearRectilinear<'_, R, 6>, x: &[&[R]; 6], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_1<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 1>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 1>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_1(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 1>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_1(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 1>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_2<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 2>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 2>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_2(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 2>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_2(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 2>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_3<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 3>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 3>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_3(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 3>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_3(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 3>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_4<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 4>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 4>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_4(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 4>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_4(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 4>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_5<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 5>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 5>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_5(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 5>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_5(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 5>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_6<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 6>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 6>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_6(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 6>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_6(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 6>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_7<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 7>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 7>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_7(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 7>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_7(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 7>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlregrec_8<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], ) -> Result<multilinear::regular_recursive::MultilinearRegularRecursive<'a, R, 8>, &'static str> { multilinear::regular_recursive::MultilinearRegularRecursive::<R, 8>::new(dims, starts, steps, vals) }
pub fn root_one_mlregrec_8(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 8>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlregrec_8(it: &multilinear::regular_recursive::MultilinearRegularRecursive<'_, R, 8>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_1<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 1>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 1>::new(grids, vals) }
pub fn root_one_mlrectrec_1(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 1>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_1(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 1>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_2<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 2>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 2>::new(grids, vals) }
pub fn root_one_mlrectrec_2(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 2>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_2(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 2>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_3<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 3>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 3>::new(grids, vals) }
pub fn root_one_mlrectrec_3(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 3>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_3(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 3>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_4<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 4>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 4>::new(grids, vals) }
pub fn root_one_mlrectrec_4(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 4>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_4(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 4>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_5<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 5>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 5>::new(grids, vals) }
pub fn root_one_mlrectrec_5(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 5>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_5(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 5>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_6<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 6>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 6>::new(grids, vals) }
pub fn root_one_mlrectrec_6(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 6>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_6(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 6>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_7<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 7>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 7>::new(grids, vals) }
pub fn root_one_mlrectrec_7(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 7>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_7(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 7>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mlrectrec_8<'a>(grids: &'a [&'a [R]], vals: &'a [R], ) -> Result<multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'a, R, 8>, &'static str> { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<R, 8>::new(grids, vals) }
pub fn root_one_mlrectrec_8(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 8>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mlrectrec_8(it: &multilinear::rectilinear_recursive::MultilinearRectilinearRecursive<'_, R, 8>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcreg_1<'a>(dims: [usize; 1], starts: [R; 1], steps: [R; 1], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular::MulticubicRegular<'a, R, 1>, &'static str> { multicubic::regular::MulticubicRegular::<R, 1>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcreg_1(it: &multicubic::regular::MulticubicRegular<'_, R, 1>, x: [R; 1]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcreg_1(it: &multicubic::regular::MulticubicRegular<'_, R, 1>, x: &[&[R]; 1], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcreg_2<'a>(dims: [usize; 2], starts: [R; 2], steps: [R; 2], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular::MulticubicRegular<'a, R, 2>, &'static str> { multicubic::regular::MulticubicRegular::<R, 2>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcreg_2(it: &multicubic::regular::MulticubicRegular<'_, R, 2>, x: [R; 2]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcreg_2(it: &multicubic::regular::MulticubicRegular<'_, R, 2>, x: &[&[R]; 2], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcreg_3<'a>(dims: [usize; 3], starts: [R; 3], steps: [R; 3], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular::MulticubicRegular<'a, R, 3>, &'static str> { multicubic::regular::MulticubicRegular::<R, 3>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcreg_3(it: &multicubic::regular::MulticubicRegular<'_, R, 3>, x: [R; 3]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcreg_3(it: &multicubic::regular::MulticubicRegular<'_, R, 3>, x: &[&[R]; 3], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcreg_4<'a>(dims: [usize; 4], starts: [R; 4], steps: [R; 4], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular::MulticubicRegular<'a, R, 4>, &'static str> { multicubic::regular::MulticubicRegular::<R, 4>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcreg_4(it: &multicubic::regular::MulticubicRegular<'_, R, 4>, x: [R; 4]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcreg_4(it: &multicubic::regular::MulticubicRegular<'_, R, 4>, x: &[&[R]; 4], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrect_1<'a>(grids: &'a [&'a [R]; 1], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear::MulticubicRectilinear<'a, R, 1>, &'static str> { multicubic::rectilinear::MulticubicRectilinear::<R, 1>::new(grids, vals, lin) }
pub fn root_one_mcrect_1(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 1>, x: [R; 1]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrect_1(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 1>, x: &[&[R]; 1], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrect_2<'a>(grids: &'a [&'a [R]; 2], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear::MulticubicRectilinear<'a, R, 2>, &'static str> { multicubic::rectilinear::MulticubicRectilinear::<R, 2>::new(grids, vals, lin) }
pub fn root_one_mcrect_2(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 2>, x: [R; 2]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrect_2(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 2>, x: &[&[R]; 2], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrect_3<'a>(grids: &'a [&'a [R]; 3], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear::MulticubicRectilinear<'a, R, 3>, &'static str> { multicubic::rectilinear::MulticubicRectilinear::<R, 3>::new(grids, vals, lin) }
pub fn root_one_mcrect_3(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 3>, x: [R; 3]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrect_3(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 3>, x: &[&[R]; 3], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrect_4<'a>(grids: &'a [&'a [R]; 4], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear::MulticubicRectilinear<'a, R, 4>, &'static str> { multicubic::rectilinear::MulticubicRectilinear::<R, 4>::new(grids, vals, lin) }
pub fn root_one_mcrect_4(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 4>, x: [R; 4]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrect_4(it: &multicubic::rectilinear::MulticubicRectilinear<'_, R, 4>, x: &[&[R]; 4], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_1<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 1>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 1>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_1(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 1>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_1(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 1>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_2<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 2>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 2>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_2(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 2>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_2(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 2>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_3<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 3>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 3>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_3(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 3>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_3(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 3>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_4<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 4>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 4>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_4(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 4>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_4(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 4>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_5<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 5>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 5>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_5(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 5>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_5(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 5>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_6<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 6>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 6>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_6(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 6>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_6(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 6>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_7<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 7>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 7>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_7(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 7>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_7(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 7>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcregrec_8<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], lin: bool, ) -> Result<multicubic::regular_recursive::MulticubicRegularRecursive<'a, R, 8>, &'static str> { multicubic::regular_recursive::MulticubicRegularRecursive::<R, 8>::new(dims, starts, steps, vals, lin) }
pub fn root_one_mcregrec_8(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 8>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcregrec_8(it: &multicubic::regular_recursive::MulticubicRegularRecursive<'_, R, 8>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_1<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 1>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 1>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_1(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 1>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_1(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 1>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_2<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 2>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 2>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_2(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 2>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_2(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 2>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_3<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 3>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 3>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_3(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 3>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_3(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 3>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_4<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 4>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 4>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_4(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 4>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_4(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 4>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_5<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 5>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 5>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_5(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 5>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_5(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 5>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_6<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 6>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 6>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_6(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 6>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_6(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 6>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_7<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 7>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 7>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_7(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 7>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_7(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 7>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_mcrectrec_8<'a>(grids: &'a [&'a [R]], vals: &'a [R], lin: bool, ) -> Result<multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'a, R, 8>, &'static str> { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<R, 8>::new(grids, vals, lin) }
pub fn root_one_mcrectrec_8(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 8>, x: &[R]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_mcrectrec_8(it: &multicubic::rectilinear_recursive::MulticubicRectilinearRecursive<'_, R, 8>, x: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nreg_1<'a>(dims: [usize; 1], starts: [R; 1], steps: [R; 1], vals: &'a [R], ) -> Result<nearest::regular::NearestRegular<'a, R, 1>, &'static str> { nearest::regular::NearestRegular::<R, 1>::new(dims, starts, steps, vals) }
pub fn root_one_nreg_1(it: &nearest::regular::NearestRegular<'_, R, 1>, x: [R; 1]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nreg_1(it: &nearest::regular::NearestRegular<'_, R, 1>, x: &[&[R]; 1], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nreg_2<'a>(dims: [usize; 2], starts: [R; 2], steps: [R; 2], vals: &'a [R], ) -> Result<nearest::regular::NearestRegular<'a, R, 2>, &'static str> { nearest::regular::NearestRegular::<R, 2>::new(dims, starts, steps, vals) }
pub fn root_one_nreg_2(it: &nearest::regular::NearestRegular<'_, R, 2>, x: [R; 2]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nreg_2(it: &nearest::regular::NearestRegular<'_, R, 2>, x: &[&[R]; 2], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nreg_3<'a>(dims: [usize; 3], starts: [R; 3], steps: [R; 3], vals: &'a [R], ) -> Result<nearest::regular::NearestRegular<'a, R, 3>, &'static str> { nearest::regular::NearestRegular::<R, 3>::new(dims, starts, steps, vals) }
pub fn root_one_nreg_3(it: &nearest::regular::NearestRegular<'_, R, 3>, x: [R; 3]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nreg_3(it: &nearest::regular::NearestRegular<'_, R, 3>, x: &[&[R]; 3], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nreg_4<'a>(dims: [usize; 4], starts: [R; 4], steps: [R; 4], vals: &'a [R], ) -> Result<nearest::regular::NearestRegular<'a, R, 4>, &'static str> { nearest::regular::NearestRegular::<R, 4>::new(dims, starts, steps, vals) }
pub fn root_one_nreg_4(it: &nearest::regular::NearestRegular<'_, R, 4>, x: [R; 4]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nreg_4(it: &nearest::regular::NearestRegular<'_, R, 4>, x: &[&[R]; 4], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nreg_5<'a>(dims: [usize; 5], starts: [R; 5], steps: [R; 5], vals: &'a [R], ) -> Result<nearest::regular::NearestRegular<'a, R, 5>, &'static str> { nearest::regular::NearestRegular::<R, 5>::new(dims, starts, steps, vals) }
pub fn root_one_nreg_5(it: &nearest::regular::NearestRegular<'_, R, 5>, x: [R; 5]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nreg_5(it: &nearest::regular::NearestRegular<'_, R, 5>, x: &[&[R]; 5], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nreg_6<'a>(dims: [usize; 6], starts: [R; 6], steps: [R; 6], vals: &'a [R], ) -> Result<nearest::regular::NearestRegular<'a, R, 6>, &'static str> { nearest::regular::NearestRegular::<R, 6>::new(dims, starts, steps, vals) }
pub fn root_one_nreg_6(it: &nearest::regular::NearestRegular<'_, R, 6>, x: [R; 6]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nreg_6(it: &nearest::regular::NearestRegular<'_, R, 6>, x: &[&[R]; 6], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nrect_1<'a>(grids: &'a [&'a [R]; 1], vals: &'a [R], ) -> Result<nearest::rectilinear::NearestRectilinear<'a, R, 1>, &'static str> { nearest::rectilinear::NearestRectilinear::<R, 1>::new(grids, vals) }
pub fn root_one_nrect_1(it: &nearest::rectilinear::NearestRectilinear<'_, R, 1>, x: [R; 1]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nrect_1(it: &nearest::rectilinear::NearestRectilinear<'_, R, 1>, x: &[&[R]; 1], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nrect_2<'a>(grids: &'a [&'a [R]; 2], vals: &'a [R], ) -> Result<nearest::rectilinear::NearestRectilinear<'a, R, 2>, &'static str> { nearest::rectilinear::NearestRectilinear::<R, 2>::new(grids, vals) }
pub fn root_one_nrect_2(it: &nearest::rectilinear::NearestRectilinear<'_, R, 2>, x: [R; 2]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nrect_2(it: &nearest::rectilinear::NearestRectilinear<'_, R, 2>, x: &[&[R]; 2], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nrect_3<'a>(grids: &'a [&'a [R]; 3], vals: &'a [R], ) -> Result<nearest::rectilinear::NearestRectilinear<'a, R, 3>, &'static str> { nearest::rectilinear::NearestRectilinear::<R, 3>::new(grids, vals) }
pub fn root_one_nrect_3(it: &nearest::rectilinear::NearestRectilinear<'_, R, 3>, x: [R; 3]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nrect_3(it: &nearest::rectilinear::NearestRectilinear<'_, R, 3>, x: &[&[R]; 3], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nrect_4<'a>(grids: &'a [&'a [R]; 4], vals: &'a [R], ) -> Result<nearest::rectilinear::NearestRectilinear<'a, R, 4>, &'static str> { nearest::rectilinear::NearestRectilinear::<R, 4>::new(grids, vals) }
pub fn root_one_nrect_4(it: &nearest::rectilinear::NearestRectilinear<'_, R, 4>, x: [R; 4]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nrect_4(it: &nearest::rectilinear::NearestRectilinear<'_, R, 4>, x: &[&[R]; 4], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nrect_5<'a>(grids: &'a [&'a [R]; 5], vals: &'a [R], ) -> Result<nearest::rectilinear::NearestRectilinear<'a, R, 5>, &'static str> { nearest::rectilinear::NearestRectilinear::<R, 5>::new(grids, vals) }
pub fn root_one_nrect_5(it: &nearest::rectilinear::NearestRectilinear<'_, R, 5>, x: [R; 5]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nrect_5(it: &nearest::rectilinear::NearestRectilinear<'_, R, 5>, x: &[&[R]; 5], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_new_nrect_6<'a>(grids: &'a [&'a [R]; 6], vals: &'a [R], ) -> Result<nearest::rectilinear::NearestRectilinear<'a, R, 6>, &'static str> { nearest::rectilinear::NearestRectilinear::<R, 6>::new(grids, vals) }
pub fn root_one_nrect_6(it: &nearest::rectilinear::NearestRectilinear<'_, R, 6>, x: [R; 6]) -> Result<R, &'static str> { it.interp_one(x) }
pub fn root_interp_nrect_6(it: &nearest::rectilinear::NearestRectilinear<'_, R, 6>, x: &[&[R]; 6], out: &mut [R]) -> Result<(), &'static str> { it.interp(x, out) }
pub fn root_interpn_mlreg(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multilinear::regular::interpn(dims, starts, steps, vals, obs, out) }
pub fn root_alloc_mlreg(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multilinear::regular::interpn_alloc(dims, starts, steps, vals, obs) }
pub fn root_bounds_mlreg(dims: &[usize], starts: &[R], steps: &[R], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multilinear::regular::check_bounds(dims, starts, steps, obs, atol, out) }
pub fn root_interpn_mlregrec(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multilinear::regular_recursive::interpn(dims, starts, steps, vals, obs, out) }
pub fn root_alloc_mlregrec(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multilinear::regular_recursive::interpn_alloc(dims, starts, steps, vals, obs) }
pub fn root_bounds_mlregrec(dims: &[usize], starts: &[R], steps: &[R], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multilinear::regular_recursive::check_bounds(dims, starts, steps, obs, atol, out) }
pub fn root_interpn_mlrect(grids: &[&[R]], vals: &[R], obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multilinear::rectilinear::interpn(grids, vals, obs, out) }
pub fn root_alloc_mlrect(grids: &[&[R]], vals: &[R], obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multilinear::rectilinear::interpn_alloc(grids, vals, obs) }
pub fn root_bounds_mlrect(grids: &[&[R]], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multilinear::rectilinear::check_bounds(grids, obs, atol, out) }
pub fn root_interpn_mlrectrec(grids: &[&[R]], vals: &[R], obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multilinear::rectilinear_recursive::interpn(grids, vals, obs, out) }
pub fn root_alloc_mlrectrec(grids: &[&[R]], vals: &[R], obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multilinear::rectilinear_recursive::interpn_alloc(grids, vals, obs) }
pub fn root_bounds_mlrectrec(grids: &[&[R]], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multilinear::rectilinear_recursive::check_bounds(grids, obs, atol, out) }
pub fn root_interpn_mcreg(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], lin: bool, obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multicubic::regular::interpn(dims, starts, steps, vals, lin, obs, out) }
pub fn root_alloc_mcreg(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], lin: bool, obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multicubic::regular::interpn_alloc(dims, starts, steps, vals, lin, obs) }
pub fn root_bounds_mcreg(dims: &[usize], starts: &[R], steps: &[R], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multicubic::regular::check_bounds(dims, starts, steps, obs, atol, out) }
pub fn root_interpn_mcregrec(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], lin: bool, obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multicubic::regular_recursive::interpn(dims, starts, steps, vals, lin, obs, out) }
pub fn root_alloc_mcregrec(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], lin: bool, obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multicubic::regular_recursive::interpn_alloc(dims, starts, steps, vals, lin, obs) }
pub fn root_bounds_mcregrec(dims: &[usize], starts: &[R], steps: &[R], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multicubic::regular_recursive::check_bounds(dims, starts, steps, obs, atol, out) }
pub fn root_interpn_mcrect(grids: &[&[R]], vals: &[R], lin: bool, obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multicubic::rectilinear::interpn(grids, vals, lin, obs, out) }
pub fn root_alloc_mcrect(grids: &[&[R]], vals: &[R], lin: bool, obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multicubic::rectilinear::interpn_alloc(grids, vals, lin, obs) }
pub fn root_bounds_mcrect(grids: &[&[R]], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multicubic::rectilinear::check_bounds(grids, obs, atol, out) }
pub fn root_interpn_mcrectrec(grids: &[&[R]], vals: &[R], lin: bool, obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { multicubic::rectilinear_recursive::interpn(grids, vals, lin, obs, out) }
pub fn root_alloc_mcrectrec(grids: &[&[R]], vals: &[R], lin: bool, obs: &[&[R]]) -> Result<Vec<R>, &'static str> { multicubic::rectilinear_recursive::interpn_alloc(grids, vals, lin, obs) }
pub fn root_bounds_mcrectrec(grids: &[&[R]], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { multicubic::rectilinear_recursive::check_bounds(grids, obs, atol, out) }
pub fn root_interpn_nreg(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { nearest::regular::interpn(dims, starts, steps, vals, obs, out) }
pub fn root_alloc_nreg(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], obs: &[&[R]]) -> Result<Vec<R>, &'static str> { nearest::regular::interpn_alloc(dims, starts, steps, vals, obs) }
pub fn root_bounds_nreg(dims: &[usize], starts: &[R], steps: &[R], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { nearest::regular::check_bounds(dims, starts, steps, obs, atol, out) }
pub fn root_interpn_nrect(grids: &[&[R]], vals: &[R], obs: &[&[R]], out: &mut [R]) -> Result<(), &'static str> { nearest::rectilinear::interpn(grids, vals, obs, out) }
pub fn root_alloc_nrect(grids: &[&[R]], vals: &[R], obs: &[&[R]]) -> Result<Vec<R>, &'static str> { nearest::rectilinear::interpn_alloc(grids, vals, obs) }
pub fn root_bounds_nrect(grids: &[&[R]], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), &'static str> { nearest::rectilinear::check_bounds(grids, obs, atol, out) }
pub fn root_g1new_reg<'a>(start: R, step: R, vals: &'a [R]) -> Result<RegularGrid1D<'a, R>, &'static str> { RegularGrid1D::new(start, step, vals) }
pub fn root_g1new_rect<'a>(grid: &'a [R], vals: &'a [R]) -> Result<RectilinearGrid1D<'a, R>, &'static str> { RectilinearGrid1D::new(grid, vals) }
pub fn root_g1at_reg(g: &RegularGrid1D<'_, R>, x: R) -> Result<GridSample<R>, &'static str> { g.at(x) }
pub fn root_g1index_reg(g: &RegularGrid1D<'_, R>, x: R) -> Result<(usize, Extrap), &'static str> { g.index(x) }
pub fn root_one_left_reg<'a>(g: RegularGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Left1D::new(g).eval_one(x) }
pub fn root_eval_left_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Left1D::new(g).eval(x, out) }
pub fn root_evalalloc_left_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Left1D::new(g).eval_alloc(x) }
pub fn root_one_right_reg<'a>(g: RegularGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Right1D::new(g).eval_one(x) }
pub fn root_eval_right_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Right1D::new(g).eval(x, out) }
pub fn root_evalalloc_right_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Right1D::new(g).eval_alloc(x) }
pub fn root_one_nearest_reg<'a>(g: RegularGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Nearest1D::new(g).eval_one(x) }
pub fn root_eval_nearest_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Nearest1D::new(g).eval(x, out) }
pub fn root_evalalloc_nearest_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Nearest1D::new(g).eval_alloc(x) }
pub fn root_one_linear_reg<'a>(g: RegularGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Linear1D::new(g).eval_one(x) }
pub fn root_eval_linear_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Linear1D::new(g).eval(x, out) }
pub fn root_evalalloc_linear_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Linear1D::new(g).eval_alloc(x) }
pub fn root_one_linearholdlast_reg<'a>(g: RegularGrid1D<'a, R>, x: R) -> Result<R, &'static str> { LinearHoldLast1D::new(g).eval_one(x) }
pub fn root_eval_linearholdlast_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { LinearHoldLast1D::new(g).eval(x, out) }
pub fn root_evalalloc_linearholdlast_reg<'a>(g: RegularGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { LinearHoldLast1D::new(g).eval_alloc(x) }
pub fn root_g1at_rect(g: &RectilinearGrid1D<'_, R>, x: R) -> Result<GridSample<R>, &'static str> { g.at(x) }
pub fn root_g1index_rect(g: &RectilinearGrid1D<'_, R>, x: R) -> Result<(usize, Extrap), &'static str> { g.index(x) }
pub fn root_one_left_rect<'a>(g: RectilinearGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Left1D::new(g).eval_one(x) }
pub fn root_eval_left_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Left1D::new(g).eval(x, out) }
pub fn root_evalalloc_left_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Left1D::new(g).eval_alloc(x) }
pub fn root_one_right_rect<'a>(g: RectilinearGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Right1D::new(g).eval_one(x) }
pub fn root_eval_right_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Right1D::new(g).eval(x, out) }
pub fn root_evalalloc_right_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Right1D::new(g).eval_alloc(x) }
pub fn root_one_nearest_rect<'a>(g: RectilinearGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Nearest1D::new(g).eval_one(x) }
pub fn root_eval_nearest_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Nearest1D::new(g).eval(x, out) }
pub fn root_evalalloc_nearest_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Nearest1D::new(g).eval_alloc(x) }
pub fn root_one_linear_rect<'a>(g: RectilinearGrid1D<'a, R>, x: R) -> Result<R, &'static str> { Linear1D::new(g).eval_one(x) }
pub fn root_eval_linear_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { Linear1D::new(g).eval(x, out) }
pub fn root_evalalloc_linear_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { Linear1D::new(g).eval_alloc(x) }
pub fn root_one_linearholdlast_rect<'a>(g: RectilinearGrid1D<'a, R>, x: R) -> Result<R, &'static str> { LinearHoldLast1D::new(g).eval_one(x) }
pub fn root_eval_linearholdlast_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R], out: &mut [R]) -> Result<(), &'static str> { LinearHoldLast1D::new(g).eval(x, out) }
pub fn root_evalalloc_linearholdlast_rect<'a>(g: RectilinearGrid1D<'a, R>, x: &[R]) -> Result<Vec<R>, &'static str> { LinearHoldLast1D::new(g).eval_alloc(x) }
pub fn root_linspace(start: R, stop: R, n: usize) -> Vec<R> { utils::linspace(start, stop, n) }
#[inline(never)]
pub fn root_meshgrid(x: Vec<&Vec<R>>) -> Vec<Vec<R>> { utils::meshgrid(x) }
