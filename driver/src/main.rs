//! mirdump: a rustc wrapper that dumps the monomorphised MIR of everything
//! reachable from the root functions (names `root_*`) of the crate `vharness`
//! as JSON.  It is the front end of the verification-condition generator:
//! the MIR is produced by the compiler from /repo's current source.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::ops::ControlFlow;

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<Value>,
    fns: HashMap<Instance, usize>,
    queue: Vec<Instance>,
}

fn span_str(s: &Span) -> Value {
    let l = s.get_lines();
    json!(format!("{}:{}", s.get_filename(), l.start_line))
}

impl Cx {
    fn fnid(&mut self, i: Instance) -> usize {
        if let Some(k) = self.fns.get(&i) {
            return *k;
        }
        let k = self.queue.len();
        self.fns.insert(i, k);
        self.queue.push(i);
        k
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(k) = self.tys.get(&t) {
            return *k;
        }
        let k = self.ty_out.len();
        self.tys.insert(t, k);
        self.ty_out.push(Value::Null);
        let name = format!("{}", t);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits":i.num_bytes()*8}),
                RigidTy::Uint(i) => json!({"k":"uint","bits":i.num_bytes()*8}),
                RigidTy::Float(f) => json!({"k":"float","name":format!("{:?}",f)}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    json!({"k":"array","elem":e,"len":n.eval_target_usize().ok()})
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    json!({"k":"pat","base":e})
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    json!({"k":"slice","elem":e})
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    json!({"k":"ptr","elem":e,"mut":m==Mutability::Mut})
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    json!({"k":"ref","elem":e,"mut":m==Mutability::Mut})
                }
                RigidTy::Tuple(es) => {
                    let es: Vec<_> = es.iter().map(|e| self.ty(*e)).collect();
                    json!({"k":"tuple","elems":es})
                }
                RigidTy::FnDef(d, args) => {
                    let inst = Instance::resolve(d, &args).ok();
                    let f = inst.map(|i| self.fnid(i));
                    json!({"k":"fndef","fn":f})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, args) => {
                    // upvar types: last generic arg is a tuple of upvars
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(es)) => es.clone(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let up: Vec<_> = up.iter().map(|e| self.ty(*e)).collect();
                    json!({"k":"closure","def":d.name(),"upvars":up})
                }
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<_> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let t = f.ty_with_args(&args);
                                self.ty(t)
                            })
                            .collect();
                        let fnames: Vec<_> = v.fields().iter().map(|f| f.name.to_string()).collect();
                        let discr = if def.kind() == AdtKind::Enum {
                            json!(def.discriminant_for_variant(v.idx()).val.to_string())
                        } else {
                            Value::Null
                        };
                        vs.push(json!({"name":v.name(),"fields":fs,"fnames":fnames,"discr":discr}));
                    }
                    let mut targs = vec![];
                    for a in args.0.iter() {
                        match a {
                            GenericArgKind::Type(t) => targs.push(json!(self.ty(*t))),
                            GenericArgKind::Const(c) => {
                                targs.push(json!({"const":c.eval_target_usize().ok()}))
                            }
                            _ => {}
                        }
                    }
                    json!({"k":"adt","adt":kind,"def":def.name(),"variants":vs,"targs":targs})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"nonrigid"}),
        };
        let mut v = v;
        v["name"] = json!(name);
        if let Ok(l) = t.layout() {
            v["size"] = json!(l.shape().size.bytes());
        }
        self.ty_out[k] = v;
        k
    }

    /// Decode constant bytes at `off` of `alloc` as a value of type `t`.
    fn decode(&mut self, alloc: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 12 {
            return json!({"unk":"depth"});
        }
        let layout = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return json!({"unk":"nolayout"}),
        };
        let size = layout.size.bytes();
        let rd = |o: usize, n: usize| alloc.read_partial_uint(o..o + n).ok();
        let prov = |o: usize| {
            alloc.provenance.ptrs.iter().find(|(p, _)| *p == o).map(|(_, p)| p.0)
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match rd(off, size) {
                    Some(v) => json!({"i":v.to_string()}),
                    None => json!({"unk":"uninit"}),
                },
                RigidTy::Int(_) => match rd(off, size) {
                    Some(v) => {
                        let bits = size * 8;
                        let v = v as i128;
                        let v = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                            v - (1i128 << bits)
                        } else {
                            v
                        };
                        json!({"i":v.to_string()})
                    }
                    None => json!({"unk":"uninit"}),
                },
                RigidTy::Float(_) => match rd(off, size) {
                    Some(v) => json!({"fbits":v.to_string(),"bits":size*8}),
                    None => json!({"unk":"uninit"}),
                },
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<_> =
                        (0..n).map(|k| self.decode(alloc, off + k * es, e, depth + 1)).collect();
                    json!({"arr":v})
                }
                RigidTy::Tuple(es) => {
                    let offs = match layout.fields {
                        FieldsShape::Arbitrary { offsets } => offsets,
                        _ => vec![],
                    };
                    let v: Vec<_> = es
                        .iter()
                        .zip(offs.iter())
                        .map(|(e, o)| self.decode(alloc, off + o.bytes(), *e, depth + 1))
                        .collect();
                    json!({"tup":v})
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let Some(p) = prov(off) else { return json!({"unk":"noprov"}) };
                    let base = rd(off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(p) {
                        GlobalAlloc::Memory(a) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = rd(off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = a.bytes[base..base + n]
                                    .iter()
                                    .map(|b| b.unwrap_or(0))
                                    .collect();
                                json!({"str":String::from_utf8_lossy(&b)})
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = rd(off + 8, 8).unwrap_or(0) as usize;
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if n > 4096 {
                                    return json!({"unk":"bigslice"});
                                }
                                let v: Vec<_> = (0..n)
                                    .map(|k| self.decode(&a, base + k * es, el, depth + 1))
                                    .collect();
                                json!({"slice":v})
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => json!({"unk":"dyn"}),
                            _ => {
                                let v = self.decode(&a, base, e, depth + 1);
                                json!({"ref":v})
                            }
                        },
                        _ => json!({"unk":"galloc"}),
                    }
                }
                RigidTy::Adt(def, args) => {
                    let (vidx, offs): (usize, Vec<usize>) = match &layout.variants {
                        VariantsShape::Single { index } => {
                            let o = match layout.fields {
                                FieldsShape::Arbitrary { ref offsets } => {
                                    offsets.iter().map(|s| s.bytes()).collect()
                                }
                                _ => vec![],
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                            let to = match layout.fields {
                                FieldsShape::Arbitrary { ref offsets } => {
                                    offsets[*tag_field].bytes()
                                }
                                _ => 0,
                            };
                            let tsz = tag_size(tag);
                            if prov(off + to).is_some() {
                                // pointer niche: the untagged variant
                                match tag_encoding {
                                    TagEncoding::Niche { untagged_variant, .. } => {
                                        let k = untagged_variant.to_index();
                                        (k, variants[k].offsets.iter().map(|s| s.bytes()).collect())
                                    }
                                    _ => return json!({"unk":"tagprov"}),
                                }
                            } else {
                                let Some(tv) = rd(off + to, tsz) else {
                                    return json!({"unk":"tag"});
                                };
                                let k = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut k = None;
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        for v in def.variants() {
                                            if def.discriminant_for_variant(v.idx()).val & mask == tv & mask {
                                                k = Some(v.idx().to_index());
                                            }
                                        }
                                        match k {
                                            Some(k) => k,
                                            None => return json!({"unk":"tagval"}),
                                        }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let s = niche_variants.start().to_index();
                                        let e = niche_variants.end().to_index();
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let d = tv.wrapping_sub(*niche_start) & mask;
                                        if (d as usize) <= e - s && d < 1 << 32 {
                                            s + d as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                };
                                (k, variants[k].offsets.iter().map(|s| s.bytes()).collect())
                            }
                        }
                        VariantsShape::Empty => return json!({"unk":"empty"}),
                    };
                    if def.kind() == AdtKind::Union {
                        return json!({"unk":"union"});
                    }
                    let vs = def.variants();
                    let fs: Vec<_> = vs[vidx].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                    let v: Vec<_> = fs
                        .iter()
                        .zip(offs.iter())
                        .map(|(e, o)| self.decode(alloc, off + o, *e, depth + 1))
                        .collect();
                    json!({"adt":vidx,"fields":v})
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => json!({"zst":true}),
                RigidTy::FnPtr(_) => match prov(off) {
                    Some(p) => match GlobalAlloc::from(p) {
                        GlobalAlloc::Function(i) => json!({"fnptr":self.fnid(i)}),
                        _ => json!({"unk":"fnptr"}),
                    },
                    None => json!({"unk":"fnptr"}),
                },
                RigidTy::Pat(e, _) => self.decode(alloc, off, e, depth + 1),
                _ => json!({"unk":"ty"}),
            },
            _ => json!({"unk":"nonrigid"}),
        }
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => json!({"zst":true}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => self.decode(a, 0, *ty, 0),
                _ => match tc.eval_target_usize() {
                    Ok(n) => json!({"i":n.to_string()}),
                    Err(_) => json!({"unk":"tyconst"}),
                },
            },
            _ => json!({"unk":"const"}),
        };
        json!({"c":v,"ty":t})
    }

    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<_> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["c", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
            })
            .collect();
        json!([p.local, pr])
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"cp":self.place(p)}),
            Operand::Move(p) => json!({"mv":self.place(p)}),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => json!({"rt":format!("{:?}",r)}),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => json!(["addr", self.place(p), format!("{:?}", k)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = d.ty_with_args(args);
                        json!(["adt", self.ty(t), v.to_index(), f])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        json!(["closure", self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t)]),
                    _ => json!(["other"]),
                };
                json!(["agg", k, ops])
            }
            Rvalue::BinaryOp(b, x, y) => {
                json!(["bin", format!("{:?}", b), self.operand(x), self.operand(y)])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                json!(["cbin", format!("{:?}", b), self.operand(x), self.operand(y)])
            }
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", {"cp":self.place(p)}]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, k, p) => json!(["ref", self.place(p), matches!(k, BorrowKind::Mut{..})]),
            Rvalue::Reborrow(_, _, p) => json!(["ref", self.place(p), true]),
            Rvalue::Repeat(o, n) => {
                json!(["repeat", self.operand(o), n.eval_target_usize().ok()])
            }
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.operand(o)]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            Rvalue::ThreadLocalRef(_) => json!(["tls"]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let live = reachable(b);
        let mut used = vec![false; b.locals().len()];
        for u in used.iter_mut().take(b.arg_locals().len() + 1) {
            *u = true;
        }
        let mut blocks = vec![];
        for (bi, bb) in b.blocks.iter().enumerate() {
            if !live[bi] {
                blocks.push(Value::Null);
                continue;
            }
            let mut ss = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pv = self.place(p);
                        let rv = self.rvalue(r);
                        ss.push(json!(["=", pv, rv]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(json!(["sd", self.place(place), variant_index.to_index()]))
                    }
                    StatementKind::StorageDead(l) => ss.push(json!(["dead", l])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        ss.push(json!(["assume", self.operand(o)]))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(json!(["cpy", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)]))
                    }
                    _ => {}
                }
            }
            let sp = span_str(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> =
                        targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    let d = self.operand(discr);
                    let t = discr.ty(b.locals()).map(|t| self.ty(t)).ok();
                    json!(["switch", d, br, targets.otherwise(), t])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).map(|t| {
                        let i = Instance::resolve_drop_in_place(t);
                        (self.ty(t), i.is_empty_shim())
                    });
                    let t = t.ok();
                    json!(["drop", self.place(place), target, t.map(|t| t.0), t.map(|t| t.1)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let ft = func.ty(b.locals()).ok();
                    let fid = match ft.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => {
                            Instance::resolve(d, &ga).ok().map(|i| self.fnid(i))
                        }
                        _ => None,
                    };
                    let a: Vec<_> = args.iter().map(|o| self.operand(o)).collect();
                    json!(["call", fid, f, a, self.place(destination), target, sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            json!(["bounds", self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            json!(["overflow", format!("{:?}", op), self.operand(x), self.operand(y)])
                        }
                        m => json!([format!("{}", m.description().unwrap_or("assert"))]),
                    };
                    json!(["assert", self.operand(cond), expected, m, target, sp])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!([ss, t]));
        }
        let mut v = UsedLocals { used: &mut used, live: &live, on: false };
        v.go(b);
        let locals: Vec<Value> = b
            .locals()
            .iter()
            .enumerate()
            .map(|(i, l)| if used[i] { json!(self.ty(l.ty)) } else { Value::Null })
            .collect();
        let mut names: Vec<Value> = vec![];
        for v in b.var_debug_info.iter() {
            if let Some(l) = v.local() {
                names.push(json!([l, v.name]));
            }
        }
        json!({"locals":locals,"argc":b.arg_locals().len(),"spread":b.spread_arg(),"blocks":blocks,"names":names,"span":span_str(&b.span)})
    }
}

struct UsedLocals<'a> {
    used: &'a mut Vec<bool>,
    live: &'a Vec<bool>,
    on: bool,
}
impl<'a> UsedLocals<'a> {
    fn go(&mut self, b: &Body) {
        use rustc_public::mir::visit::MirVisitor;
        for (i, bb) in b.blocks.iter().enumerate() {
            self.on = self.live[i];
            if self.on {
                self.visit_basic_block(bb);
            }
        }
    }
}
impl<'a> rustc_public::mir::visit::MirVisitor for UsedLocals<'a> {
    fn visit_local(
        &mut self,
        local: &Local,
        _c: rustc_public::mir::visit::PlaceContext,
        _l: rustc_public::mir::visit::Location,
    ) {
        self.used[*local] = true;
    }
}

/// A constant known for a local that is assigned exactly once.
#[derive(Clone)]
enum K {
    I(u128),
    A(Vec<Option<u128>>),
}

fn const_int(c: &MirConst) -> Option<u128> {
    let sz = match c.ty().kind() {
        TyKind::RigidTy(RigidTy::Bool) => 1,
        TyKind::RigidTy(RigidTy::Uint(u)) => u.num_bytes(),
        _ => return None,
    };
    match c.kind() {
        ConstantKind::Allocated(a) => a.read_partial_uint(0..sz).ok(),
        ConstantKind::Ty(tc) => tc.eval_target_usize().ok().map(|v| v as u128),
        _ => None,
    }
}

/// Blocks reachable when branches on compile-time constants are resolved
/// (`if const {..}` and comparisons of constants held in never-reassigned locals).
/// Unwind paths are not followed: the verifier proves the panics unreachable.
fn reachable(b: &Body) -> Vec<bool> {
    let n = b.locals().len();
    let mut cnt = vec![0u32; n];
    let mut single: HashMap<usize, &Rvalue> = HashMap::new();
    for l in 0..=b.arg_locals().len() {
        cnt[l] = 2;
    }
    for bb in b.blocks.iter() {
        for s in bb.statements.iter() {
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    cnt[p.local] += 1;
                    if p.projection.is_empty() {
                        single.insert(p.local, r);
                    } else {
                        cnt[p.local] += 1;
                    }
                    match r {
                        Rvalue::Ref(_, BorrowKind::Mut { .. }, q) | Rvalue::AddressOf(_, q) => {
                            cnt[q.local] += 2
                        }
                        Rvalue::Reborrow(_, _, q) => cnt[q.local] += 2,
                        _ => {}
                    }
                }
                StatementKind::SetDiscriminant { place, .. } => cnt[place.local] += 2,
                _ => {}
            }
        }
        if let TerminatorKind::Call { destination, .. } = &bb.terminator.kind {
            cnt[destination.local] += 2;
        }
    }
    let mut known: HashMap<usize, Option<K>> = HashMap::new();
    fn op(o: &Operand, b: &Body, cnt: &[u32], single: &HashMap<usize, &Rvalue>, known: &mut HashMap<usize, Option<K>>, d: usize) -> Option<u128> {
        match o {
            Operand::Constant(c) => const_int(&c.const_),
            Operand::Copy(p) | Operand::Move(p) => match p.projection.as_slice() {
                [] => match loc(p.local, b, cnt, single, known, d)? {
                    K::I(v) => Some(v),
                    _ => None,
                },
                [ProjectionElem::Field(f, _)] => match loc(p.local, b, cnt, single, known, d)? {
                    K::A(v) => v.get(*f).copied().flatten(),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn loc(l: usize, b: &Body, cnt: &[u32], single: &HashMap<usize, &Rvalue>, known: &mut HashMap<usize, Option<K>>, d: usize) -> Option<K> {
        if let Some(k) = known.get(&l) {
            return k.clone();
        }
        if d > 20 || cnt[l] != 1 {
            return None;
        }
        let r = match single.get(&l)? {
            Rvalue::Use(o, _) => op(o, b, cnt, single, known, d + 1).map(K::I),
            Rvalue::Aggregate(_, os) => {
                let v: Vec<_> = os.iter().map(|o| op(o, b, cnt, single, known, d + 1)).collect();
                Some(K::A(v))
            }
            Rvalue::BinaryOp(bo, x, y) => {
                let unsigned = matches!(
                    x.ty(b.locals()).map(|t| t.kind()),
                    Ok(TyKind::RigidTy(RigidTy::Uint(_))) | Ok(TyKind::RigidTy(RigidTy::Bool))
                );
                let x = op(x, b, cnt, single, known, d + 1);
                let y = op(y, b, cnt, single, known, d + 1);
                match (unsigned, x, y) {
                    (true, Some(x), Some(y)) => match bo {
                        BinOp::Lt => Some(K::I((x < y) as u128)),
                        BinOp::Le => Some(K::I((x <= y) as u128)),
                        BinOp::Gt => Some(K::I((x > y) as u128)),
                        BinOp::Ge => Some(K::I((x >= y) as u128)),
                        BinOp::Eq => Some(K::I((x == y) as u128)),
                        BinOp::Ne => Some(K::I((x != y) as u128)),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        };
        known.insert(l, r.clone());
        r
    }
    let mut live = vec![false; b.blocks.len()];
    let mut st = vec![0usize];
    while let Some(i) = st.pop() {
        if live[i] {
            continue;
        }
        live[i] = true;
        match &b.blocks[i].terminator.kind {
            TerminatorKind::SwitchInt { discr, targets } => {
                match op(discr, b, &cnt, &single, &mut known, 0) {
                    Some(v) => {
                        let t = targets
                            .branches()
                            .find(|(k, _)| *k == v)
                            .map(|(_, t)| t)
                            .unwrap_or(targets.otherwise());
                        st.push(t);
                    }
                    None => st.extend(targets.all_targets()),
                }
            }
            TerminatorKind::Goto { target }
            | TerminatorKind::Drop { target, .. }
            | TerminatorKind::Assert { target, .. } => st.push(*target),
            TerminatorKind::Call { target: Some(t), .. } => st.push(*t),
            _ => {}
        }
    }
    live
}

fn tag_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match length {
            rustc_public::abi::IntegerLength::I8 => 1,
            rustc_public::abi::IntegerLength::I16 => 2,
            rustc_public::abi::IntegerLength::I32 => 4,
            rustc_public::abi::IntegerLength::I64 => 8,
            rustc_public::abi::IntegerLength::I128 => 16,
        },
        _ => 8,
    }
}

const NODESCEND: &[&str] = &[
    "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking", "std::panicking", "std::rt::",
    "<vharness::R as ", "vharness::R::", "std::io::", "std::sys", "core::str::", "std::string::",
    "std::alloc::", "alloc::raw_vec", "std::backtrace", "std::thread",
    "pyo3::", "numpy::", "pyo3_ffi::", "std::sync::",
];

fn dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let mut cx = Cx { tys: HashMap::new(), ty_out: vec![], fns: HashMap::new(), queue: vec![] };
    let mut roots = serde_json::Map::new();
    for it in rustc_public::all_local_items() {
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("root_") {
            if let Ok(i) = Instance::try_from(it) {
                let id = cx.fnid(i);
                roots.insert(last, json!(id));
            }
        }
    }
    let mut fns = vec![];
    let mut k = 0;
    while k < cx.queue.len() {
        let i = cx.queue[k];
        k += 1;
        let name = i.name();
        let def = i.def.name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut clos = vec![];
        for a in i.args().0.iter() {
            if let GenericArgKind::Type(t) = a {
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, args)) => {
                        let n = args.0.len();
                        let once = match args.0.get(n.wrapping_sub(3)) {
                            Some(GenericArgKind::Type(k)) => matches!(k.kind(), TyKind::RigidTy(RigidTy::Int(IntTy::I32))),
                            _ => true,
                        };
                        let kind = if once { ClosureKind::FnOnce } else { ClosureKind::FnMut };
                        if let Ok(ci) = Instance::resolve_closure(d, &args, kind) {
                            let id = cx.fnid(ci);
                            clos.push(json!([if once { "once" } else { "clo" }, id]));
                        }
                    }
                    TyKind::RigidTy(RigidTy::FnDef(d, args)) => {
                        if let Ok(fi) = Instance::resolve(d, &args) {
                            let id = cx.fnid(fi);
                            clos.push(json!(["fn", id]));
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut targs = vec![];
        for a in i.args().0.iter() {
            match a {
                GenericArgKind::Type(t) => targs.push(json!({"t":cx.ty(*t)})),
                GenericArgKind::Const(c) => targs.push(json!({"n":c.eval_target_usize().ok()})),
                _ => {}
            }
        }
        let nodesc = NODESCEND.iter().any(|p| name.starts_with(p) || def.starts_with(p));
        let body = if nodesc { None } else { i.body() };
        let b = match body {
            Some(b) => cx.body(&b),
            None => Value::Null,
        };
        let isclosure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        fns.push(json!({"name":name,"def":def,"kind":kind,"intr":i.intrinsic_name(),"targs":targs,"clos":clos,
            "closure":isclosure,"empty":i.is_empty_shim(),"krate":i.def.krate().name,"body":b}));
    }
    let out = json!({"crate":krate.name,"roots":roots,"fns":fns,"types":cx.ty_out});
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(&path, serde_json::to_string(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "vharness");
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&args, dump);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
