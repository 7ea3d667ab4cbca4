#!/usr/bin/env python3
"""Generates src/roots.rs: one root function per public entry point and dimension."""
import os
o = ["// @generated by gen.py\nuse crate::r::R;\nuse interpn::one_dim::*;\nuse interpn::*;\n#[allow(unused_imports)]\nuse num_traits::Float;\n"]
E = "&'static str"
def reg(mod, ty, ns, key, lin):
    la = "lin: bool, " if lin else ""
    lp = ", lin" if lin else ""
    for n in ns:
        o.append(f"pub fn root_new_{key}_{n}<'a>(dims: [usize; {n}], starts: [R; {n}], steps: [R; {n}], vals: &'a [R], {la}) -> Result<{mod}::{ty}<'a, R, {n}>, {E}> {{ {mod}::{ty}::<R, {n}>::new(dims, starts, steps, vals{lp}) }}\n")
        o.append(f"pub fn root_one_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: [R; {n}]) -> Result<R, {E}> {{ it.interp_one(x) }}\n")
        o.append(f"pub fn root_interp_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: &[&[R]; {n}], out: &mut [R]) -> Result<(), {E}> {{ it.interp(x, out) }}\n")
def rect(mod, ty, ns, key, lin):
    la = "lin: bool, " if lin else ""
    lp = ", lin" if lin else ""
    for n in ns:
        o.append(f"pub fn root_new_{key}_{n}<'a>(grids: &'a [&'a [R]; {n}], vals: &'a [R], {la}) -> Result<{mod}::{ty}<'a, R, {n}>, {E}> {{ {mod}::{ty}::<R, {n}>::new(grids, vals{lp}) }}\n")
        o.append(f"pub fn root_one_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: [R; {n}]) -> Result<R, {E}> {{ it.interp_one(x) }}\n")
        o.append(f"pub fn root_interp_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: &[&[R]; {n}], out: &mut [R]) -> Result<(), {E}> {{ it.interp(x, out) }}\n")
def regrec(mod, ty, ns, key, lin):
    la = "lin: bool, " if lin else ""
    lp = ", lin" if lin else ""
    for n in ns:
        o.append(f"pub fn root_new_{key}_{n}<'a>(dims: &[usize], starts: &'a [R], steps: &'a [R], vals: &'a [R], {la}) -> Result<{mod}::{ty}<'a, R, {n}>, {E}> {{ {mod}::{ty}::<R, {n}>::new(dims, starts, steps, vals{lp}) }}\n")
        o.append(f"pub fn root_one_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: &[R]) -> Result<R, {E}> {{ it.interp_one(x) }}\n")
        o.append(f"pub fn root_interp_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: &[&[R]], out: &mut [R]) -> Result<(), {E}> {{ it.interp(x, out) }}\n")
def rectrec(mod, ty, ns, key, lin):
    la = "lin: bool, " if lin else ""
    lp = ", lin" if lin else ""
    for n in ns:
        o.append(f"pub fn root_new_{key}_{n}<'a>(grids: &'a [&'a [R]], vals: &'a [R], {la}) -> Result<{mod}::{ty}<'a, R, {n}>, {E}> {{ {mod}::{ty}::<R, {n}>::new(grids, vals{lp}) }}\n")
        o.append(f"pub fn root_one_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: &[R]) -> Result<R, {E}> {{ it.interp_one(x) }}\n")
        o.append(f"pub fn root_interp_{key}_{n}(it: &{mod}::{ty}<'_, R, {n}>, x: &[&[R]], out: &mut [R]) -> Result<(), {E}> {{ it.interp(x, out) }}\n")
def freg(mod, key, lin):
    la = "lin: bool, " if lin else ""
    lp = "lin, " if lin else ""
    o.append(f"pub fn root_interpn_{key}(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], {la}obs: &[&[R]], out: &mut [R]) -> Result<(), {E}> {{ {mod}::interpn(dims, starts, steps, vals, {lp}obs, out) }}\n")
    o.append(f"pub fn root_alloc_{key}(dims: &[usize], starts: &[R], steps: &[R], vals: &[R], {la}obs: &[&[R]]) -> Result<Vec<R>, {E}> {{ {mod}::interpn_alloc(dims, starts, steps, vals, {lp}obs) }}\n")
    o.append(f"pub fn root_bounds_{key}(dims: &[usize], starts: &[R], steps: &[R], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), {E}> {{ {mod}::check_bounds(dims, starts, steps, obs, atol, out) }}\n")
def frect(mod, key, lin):
    la = "lin: bool, " if lin else ""
    lp = "lin, " if lin else ""
    o.append(f"pub fn root_interpn_{key}(grids: &[&[R]], vals: &[R], {la}obs: &[&[R]], out: &mut [R]) -> Result<(), {E}> {{ {mod}::interpn(grids, vals, {lp}obs, out) }}\n")
    o.append(f"pub fn root_alloc_{key}(grids: &[&[R]], vals: &[R], {la}obs: &[&[R]]) -> Result<Vec<R>, {E}> {{ {mod}::interpn_alloc(grids, vals, {lp}obs) }}\n")
    o.append(f"pub fn root_bounds_{key}(grids: &[&[R]], obs: &[&[R]], atol: R, out: &mut [bool]) -> Result<(), {E}> {{ {mod}::check_bounds(grids, obs, atol, out) }}\n")

reg("multilinear::regular", "MultilinearRegular", range(1, 7), "mlreg", False)
rect("multilinear::rectilinear", "MultilinearRectilinear", range(1, 7), "mlrect", False)
regrec("multilinear::regular_recursive", "MultilinearRegularRecursive", range(1, 9), "mlregrec", False)
rectrec("multilinear::rectilinear_recursive", "MultilinearRectilinearRecursive", range(1, 9), "mlrectrec", False)
reg("multicubic::regular", "MulticubicRegular", range(1, 5), "mcreg", True)
rect("multicubic::rectilinear", "MulticubicRectilinear", range(1, 5), "mcrect", True)
regrec("multicubic::regular_recursive", "MulticubicRegularRecursive", range(1, 9), "mcregrec", True)
rectrec("multicubic::rectilinear_recursive", "MulticubicRectilinearRecursive", range(1, 9), "mcrectrec", True)
reg("nearest::regular", "NearestRegular", range(1, 7), "nreg", False)
rect("nearest::rectilinear", "NearestRectilinear", range(1, 7), "nrect", False)
freg("multilinear::regular", "mlreg", False)
freg("multilinear::regular_recursive", "mlregrec", False)
frect("multilinear::rectilinear", "mlrect", False)
frect("multilinear::rectilinear_recursive", "mlrectrec", False)
freg("multicubic::regular", "mcreg", True)
freg("multicubic::regular_recursive", "mcregrec", True)
frect("multicubic::rectilinear", "mcrect", True)
frect("multicubic::rectilinear_recursive", "mcrectrec", True)
freg("nearest::regular", "nreg", False)
frect("nearest::rectilinear", "nrect", False)
# 1D
o.append(f"pub fn root_g1new_reg<'a>(start: R, step: R, vals: &'a [R]) -> Result<RegularGrid1D<'a, R>, {E}> {{ RegularGrid1D::new(start, step, vals) }}\n")
o.append(f"pub fn root_g1new_rect<'a>(grid: &'a [R], vals: &'a [R]) -> Result<RectilinearGrid1D<'a, R>, {E}> {{ RectilinearGrid1D::new(grid, vals) }}\n")
for g, gt in [("reg", "RegularGrid1D"), ("rect", "RectilinearGrid1D")]:
    o.append(f"pub fn root_g1at_{g}(g: &{gt}<'_, R>, x: R) -> Result<GridSample<R>, {E}> {{ g.at(x) }}\n")
    o.append(f"pub fn root_g1index_{g}(g: &{gt}<'_, R>, x: R) -> Result<(usize, Extrap), {E}> {{ g.index(x) }}\n")
    for it in ["Left1D", "Right1D", "Nearest1D", "Linear1D", "LinearHoldLast1D"]:
        k = it[:-2].lower()
        o.append(f"pub fn root_one_{k}_{g}<'a>(g: {gt}<'a, R>, x: R) -> Result<R, {E}> {{ {it}::new(g).eval_one(x) }}\n")
        o.append(f"pub fn root_eval_{k}_{g}<'a>(g: {gt}<'a, R>, x: &[R], out: &mut [R]) -> Result<(), {E}> {{ {it}::new(g).eval(x, out) }}\n")
        o.append(f"pub fn root_evalalloc_{k}_{g}<'a>(g: {gt}<'a, R>, x: &[R]) -> Result<Vec<R>, {E}> {{ {it}::new(g).eval_alloc(x) }}\n")
o.append("pub fn root_linspace(start: R, stop: R, n: usize) -> Vec<R> { utils::linspace(start, stop, n) }\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/roots.rs"), "w").write("".join(o))
