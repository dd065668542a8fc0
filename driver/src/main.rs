//! MIR dumper: compiles the harness crate (which depends on /repo's crate) and
//! writes, as JSON, the monomorphic MIR of every function reachable from the
//! harness roots and of every non-generic function of the analysed crate,
//! together with types, layouts, constants and resolved callees.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

const TARGET: &str = "ed448_goldilocks";

#[derive(Default)]
struct Cx {
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<Value>,
    ty_queue: VecDeque<Ty>,
    inst_ids: HashMap<String, usize>,
    insts: Vec<Value>,
    inst_queue: VecDeque<(usize, Instance)>,
    allocs: HashMap<usize, Value>,
    alloc_queue: VecDeque<AllocIdW>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}
type AllocIdW = rustc_public::mir::alloc::AllocId;

fn vi<T: serde::Serialize>(v: &T) -> u64 {
    serde_json::to_value(v).ok().and_then(|v| v.as_u64()).unwrap_or(0)
}

fn alloc_num(a: AllocIdW) -> usize {
    // AllocId serialises as its index
    serde_json::to_value(a).ok().and_then(|v| v.as_u64()).unwrap_or(0) as usize
}

/// type parameters left in an instantiation (types that only occur in generic signatures)
fn generic(args: &GenericArgs) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    rustc_middle::ty::tls::with(|tcx| {
        args.0.iter().any(|x| match x {
            GenericArgKind::Type(t) => rustc_public::rustc_internal::internal(tcx, *t).has_non_region_param(),
            _ => false,
        })
    })
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.ty_ids.insert(t, i);
        self.tys.push(Value::Null);
        self.ty_queue.push_back(t);
        i
    }
    fn span(&mut self, s: &Span) -> Value {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        let n = self.file_list.len();
        let id = *self.files.entry(f.clone()).or_insert(n);
        if id == n {
            self.file_list.push(f);
        }
        json!([id, l.start_line])
    }
    fn instance(&mut self, inst: Instance) -> usize {
        let key = format!("{:?}|{}", inst.kind, inst.mangled_name());
        if let Some(i) = self.inst_ids.get(&key) {
            return *i;
        }
        let i = self.insts.len();
        self.inst_ids.insert(key, i);
        self.insts.push(Value::Null);
        self.inst_queue.push_back((i, inst));
        i
    }
    fn fn_ty(&mut self, def: FnDef, args: &GenericArgs) -> Value {
        let name = def.name().to_string();
        if generic(args) { return json!({"k":"fndef","name":name,"inst":null,"args":self.args(args)}); }
        match Instance::resolve(def, args) {
            Ok(i) => {
                let id = self.instance(i);
                json!({"k":"fndef","name":name,"inst":id,"args":self.args(args)})
            }
            Err(_) => json!({"k":"fndef","name":name,"inst":null,"args":self.args(args)}),
        }
    }
    fn is_pub(&self, d: AdtDef, v: usize, f: usize) -> bool {
        rustc_middle::ty::tls::with(|tcx| {
            let a = tcx.adt_def(rustc_public::rustc_internal::internal(tcx, d.0));
            a.variants().iter().nth(v).and_then(|x| x.fields.iter().nth(f)).map(|x| x.vis.is_public()).unwrap_or(true)
        })
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        Value::Array(
            a.0.iter()
                .map(|x| match x {
                    GenericArgKind::Type(t) => json!({"t": self.ty(*t)}),
                    GenericArgKind::Const(c) => json!({"c": c.eval_target_usize().ok()}),
                    GenericArgKind::Lifetime(_) => json!({"l":0}),
                })
                .collect(),
        )
    }
    fn layout(&mut self, t: Ty) -> Value {
        let Ok(l) = t.layout() else { return Value::Null };
        let s = l.shape();
        let off = |f: &FieldsShape| match f {
            FieldsShape::Primitive => json!(null),
            FieldsShape::Union(n) => json!({"union": n.get()}),
            FieldsShape::Array { stride, count } => json!({"stride": stride.bytes(), "count": count}),
            FieldsShape::Arbitrary { offsets } => {
                json!({"offs": offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()})
            }
        };
        let variants = match &s.variants {
            VariantsShape::Empty => json!({"k":"empty"}),
            VariantsShape::Single { index } => json!({"k":"single","i":vi(&index)}),
            VariantsShape::Multiple { tag: _, tag_encoding, tag_field, variants } => {
                let enc = match tag_encoding {
                    TagEncoding::Direct => json!("direct"),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => json!({
                        "untagged": vi(&untagged_variant),
                        "from": vi(&niche_variants.start()),
                        "to": vi(&niche_variants.end()),
                        "start": niche_start.to_string()}),
                };
                let toff = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|o| o.bytes()),
                    _ => None,
                };
                let tsz = match &s.variants {
                    VariantsShape::Multiple { tag, .. } => {
                        let p = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        match p {
                            rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        }
                    }
                    _ => 0,
                };
                json!({"k":"multi","enc":enc,"tag_off":toff,"tag_size":tsz,
                    "vars": variants.iter().map(|v| json!(v.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>())).collect::<Vec<_>>()})
            }
        };
        json!({"size": s.size.bytes(), "fields": off(&s.fields), "variants": variants})
    }
    fn do_ty(&mut self, t: Ty) {
        let id = self.ty_ids[&t];
        let kind = t.kind();
        let mut v = match kind.rigid() {
            None => json!({"k":"other","s":format!("{:?}",kind)}),
            Some(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits": i.num_bytes()*8,"s":true,"sz":matches!(i,IntTy::Isize)}),
                RigidTy::Uint(i) => json!({"k":"int","bits": i.num_bytes()*8,"s":false,"sz":matches!(i,UintTy::Usize)}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Pat(e, _) => json!({"k":"pat","e":self.ty(*e)}),
                RigidTy::Array(e, c) => json!({"k":"array","e":self.ty(*e),"n":c.eval_target_usize().ok()}),
                RigidTy::Slice(e) => json!({"k":"slice","e":self.ty(*e)}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","e":self.ty(*e),"m":*m==Mutability::Mut}),
                RigidTy::Ref(_, e, m) => json!({"k":"ref","e":self.ty(*e),"m":*m==Mutability::Mut}),
                RigidTy::Tuple(ts) => json!({"k":"tuple","ts":ts.iter().map(|t|self.ty(*t)).collect::<Vec<_>>()}),
                RigidTy::FnDef(d, a) => self.fn_ty(*d, a),
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, a) => {
                    let g = generic(a);
                    let inst = if g { None } else { Instance::resolve_closure(*d, a, ClosureKind::FnOnce).ok() };
                    let inst2 = if g { None } else { Instance::resolve_closure(*d, a, ClosureKind::FnMut).ok() };
                    let inst3 = if g { None } else { Instance::resolve_closure(*d, a, ClosureKind::Fn).ok() };
                    let up: Vec<usize> = match a.0.last().and_then(|x| x.ty().copied()) {
                        Some(t) => match t.kind().rigid() {
                            Some(RigidTy::Tuple(ts)) => ts.iter().map(|t| self.ty(*t)).collect(),
                            _ => vec![],
                        },
                        None => vec![],
                    };
                    json!({"k":"closure","name":d.name().to_string(),"up":up,
                        "once":inst.map(|i|self.instance(i)),
                        "mut":inst2.map(|i|self.instance(i)),
                        "fn":inst3.map(|i|self.instance(i)), "args": self.args(a)})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Adt(d, a) => {
                    let vars: Vec<Value> = d
                        .variants()
                        .iter()
                        .map(|vd| {
                            let fs: Vec<Value> = vd
                                .fields()
                                .iter().enumerate()
                                .map(|(fi, f)| json!([f.name.to_string(), self.ty(f.ty_with_args(a)), self.is_pub(*d, vi(&vd.idx()) as usize, fi)]))
                                .collect();
                            let discr = if d.kind().is_enum() {
                                d.discriminant_for_variant(vd.idx()).val.to_string()
                            } else { "0".to_string() };
                            json!({"name": vd.name().to_string(), "fields": fs, "discr": discr})
                        })
                        .collect();
                    let k = if d.kind().is_enum() {"enum"} else if d.kind().is_union() {"union"} else {"struct"};
                    json!({"k":"adt","adt":k,"name":d.name().to_string(),"krate":d.krate().name.to_string(),
                        "vars":vars,"args":self.args(a),"box":d.is_box()})
                }
                other => json!({"k":"other","s":format!("{:?}",other)}),
            },
        };
        v["layout"] = self.layout(t);
        v["str"] = json!(format!("{}", t));
        self.tys[id] = v;
    }
    fn allocation(&mut self, a: &Allocation) -> Value {
        let bytes: Vec<i32> = a.bytes.iter().map(|b| b.map(|x| x as i32).unwrap_or(-1)).collect();
        let mut h = String::with_capacity(bytes.len() * 2);
        for b in &bytes {
            if *b < 0 { h.push_str("00") } else { h.push_str(&format!("{:02x}", b)) }
        }
        let prov: Vec<Value> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| {
                self.alloc_queue.push_back(p.0);
                json!([o, alloc_num(p.0)])
            })
            .collect();
        json!({"b": h, "p": prov})
    }
    fn do_alloc(&mut self, id: AllocIdW) {
        let n = alloc_num(id);
        if self.allocs.contains_key(&n) {
            return;
        }
        self.allocs.insert(n, Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => self.allocation(&a),
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(a) => { let mut v = self.allocation(&a); v["static"] = json!(s.name().to_string()); v["mut"]=json!(a.mutability==Mutability::Mut); v }
                Err(_) => json!({"unk":"static"}),
            },
            GlobalAlloc::Function(i) => { let k = self.instance(i); json!({"fn": k}) }
            other => json!({"unk": format!("{:?}", other)}),
        };
        self.allocs.insert(n, v);
    }
    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["c", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", vi(&v)]),
                ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
            })
            .collect();
        if pr.is_empty() { json!(p.local) } else { json!([p.local, pr]) }
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let al = self.allocation(a); json!({"ty":t,"a":al}) }
            ConstantKind::ZeroSized => json!({"ty":t,"z":1}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let al = self.allocation(a); json!({"ty":t,"a":al}) }
                TyConstKind::ZSTValue(_) => json!({"ty":t,"z":1}),
                _ => json!({"ty":t,"unk":format!("{:?}",tc)}),
            },
            o => json!({"ty":t,"unk":format!("{:?}",o)}),
        }
    }
    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["C", self.place(p)]),
            Operand::Move(p) => json!(["M", self.place(p)]),
            Operand::Constant(c) => json!(["K", self.konst(&c.const_)]),
            Operand::RuntimeChecks(_) => json!(["R"]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["ref", self.place(p)]),
            Rvalue::Ref(_, _, p) => json!(["ref", self.place(p)]),
            Rvalue::Reborrow(_, _, p) => json!(["reborrow", self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        json!(["adt", self.ty(t), vi(&v), f])
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); json!(["closure", self.ty(t)]) }
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t)]),
                    o => json!(["other", format!("{:?}", o)]),
                };
                let os: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                json!(["agg", kk, os])
            }
            Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => json!(["chk", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(a)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["C", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, c) => json!(["repeat", self.operand(o), c.eval_target_usize().ok()]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            o => json!(["unk", format!("{:?}", o)]),
        }
    }
    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<Value> = b.locals().iter().map(|l| json!(self.ty(l.ty))).collect();
        let mut names: Vec<Value> = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.push(json!([p.local, d.name.to_string()]));
                }
            }
        }
        let blocks: Vec<Value> = b
            .blocks
            .iter()
            .map(|bb| {
                let ss: Vec<Value> = bb
                    .statements
                    .iter()
                    .filter_map(|s| {
                        let sp = self.span(&s.source_info.span);
                        match &s.kind {
                            StatementKind::Assign(p, r) => Some(json!(["=", self.place(p), self.rvalue(r), sp])),
                            StatementKind::SetDiscriminant { place, variant_index } => Some(json!(["sd", self.place(place), vi(&variant_index), sp])),
                            StatementKind::Intrinsic(i) => match i {
                                NonDivergingIntrinsic::Assume(_) => None,
                                NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(json!(["cno", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), sp])),
                            },
                            _ => None,
                        }
                    })
                    .collect();
                let sp = self.span(&bb.terminator.source_info.span);
                let t = match &bb.terminator.kind {
                    TerminatorKind::Goto { target } => json!(["goto", target]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                        json!(["switch", self.operand(discr), br, targets.otherwise()])
                    }
                    TerminatorKind::Resume => json!(["resume"]),
                    TerminatorKind::Abort => json!(["abort"]),
                    TerminatorKind::Return => json!(["return"]),
                    TerminatorKind::Unreachable => json!(["unreachable"]),
                    TerminatorKind::Drop { place, target, .. } => {
                        let mut g = Value::Null;
                        if let Ok(t) = place.ty(b.locals()) {
                            let i = Instance::resolve_drop_in_place(t);
                            if !i.is_empty_shim() && !heap_only(t) { g = json!(self.instance(i)); }
                        }
                        json!(["drop", self.place(place), target, g])
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(func);
                        let a: Vec<Value> = args.iter().map(|o| self.operand(o)).collect();
                        json!(["call", f, a, self.place(destination), target])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match msg {
                            AssertMessage::BoundsCheck { len, index } => json!(["bounds", self.operand(len), self.operand(index)]),
                            AssertMessage::Overflow(op, a, b) => json!(["overflow", format!("{:?}", op), self.operand(a), self.operand(b)]),
                            o => json!([format!("{:?}", o).split('(').next().unwrap_or("?").to_string()]),
                        };
                        json!(["assert", self.operand(cond), expected, m, target])
                    }
                    TerminatorKind::InlineAsm { .. } => json!(["asm"]),
                };
                json!({"s": ss, "t": t, "sp": sp})
            })
            .collect();
        json!({"locals": locals, "argc": b.arg_locals().len(), "names": names, "blocks": blocks})
    }
    fn do_inst(&mut self, id: usize, inst: Instance) {
        let def = inst.def;
        let name = inst.name().to_string();
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
            _ => "other",
        };
        let krate = def.krate().name.to_string();
        let sp = self.span(&def.span());
        let intr = inst.intrinsic_name().map(|s| s.to_string());
        // Foreign std bodies are dumped too; the analyser decides which it uses.
        let body = if skip(&name) { None } else { inst.body() };
        let b = body.as_ref().map(|b| self.body(b));
        let args = self.args(&inst.args());
        // tuple constructors used as functions have no MIR: their result type is enough
        let ret = if b.is_none() && kind == "item" && !generic(&inst.args()) {
            inst.ty().kind().fn_sig().map(|s| self.ty(s.skip_binder().output()))
        } else {
            None
        };
        self.insts[id] = json!({"ret": ret, "name": name, "def": def.name().to_string(), "kind": kind, "krate": krate, "sp": sp,
            "intr": intr, "args": args, "body": b, "empty": inst.is_empty_shim()});
    }
}

/// owners of heap memory whose elements need no drop: releasing them touches nothing else
fn heap_only(t: Ty) -> bool {
    match t.kind().rigid() {
        Some(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            let own = d.is_box() || n.ends_with("::Vec") || n.ends_with("::String") || n.ends_with("::IntoIter") || n.ends_with("::RawVec") || n.ends_with("::RawVecInner");
            own && d.krate().name.to_string() != TARGET && a.0.iter().all(|x| match x {
                GenericArgKind::Type(t) => Instance::resolve_drop_in_place(*t).is_empty_shim() || heap_only(*t),
                _ => true,
            })
        }
        _ => false,
    }
}

fn skip(name: &str) -> bool {
    // formatting / panicking / allocation machinery: never interpreted
    name.contains("::fmt::") || name.starts_with("core::fmt") || name.starts_with("std::fmt") || name.contains("panicking")
        || name.starts_with("alloc::") || name.starts_with("std::alloc") || name.contains("raw_vec") || name.contains("std::rt")
        || name.starts_with("std::io") || name.starts_with("std::sys") || name.starts_with("std::thread")
}

use rustc_hir::def::{DefKind, Res};
use rustc_span::def_id::DefId as RDefId;
use std::collections::HashSet;

/// items of a foreign crate that client code can name, found by walking its public modules
fn nameable<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, m: RDefId, seen: &mut HashSet<RDefId>, out: &mut HashSet<RDefId>, consts: &mut Vec<Value>) {
    if !seen.insert(m) { return; }
    for ch in tcx.module_children(m) {
        if !ch.vis.is_public() { continue; }
        if let Res::Def(k, d) = ch.res {
            if d.krate != m.krate { continue; }
            out.insert(d);
            match k {
                DefKind::Mod => nameable(tcx, d, seen, out, consts),
                DefKind::Const { .. } | DefKind::Static { .. } => {
                    consts.push(json!({"name": tcx.def_path_str(d), "kind": format!("{:?}", k).split(&[' ', '{', '('][..]).next().unwrap_or("").to_string()}));
                }
                _ => {}
            }
        }
    }
}

/// every constant item of a crate reachable through its module tree, private ones included
fn all_consts<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, m: RDefId, seen: &mut HashSet<RDefId>, cx: &mut Cx, out: &mut Vec<Value>) {
    if !seen.insert(m) { return; }
    for ch in tcx.module_children(m) {
        if let Res::Def(k, d) = ch.res {
            if d.krate != m.krate { continue; }
            match k {
                DefKind::Mod => all_consts(tcx, d, seen, cx, out),
                DefKind::Const { .. } => {
                    if !seen.insert(d) || tcx.generics_of(d).own_requires_monomorphization() { continue; }
                    let ty = tcx.type_of(d).instantiate_identity();
                    if let Ok(cv) = tcx.const_eval_poly(d) {
                        let c = rustc_middle::mir::Const::Val(cv, ty.skip_norm_wip());
                        let mc = rustc_public::rustc_internal::stable(c);
                        let v = cx.konst(&mc);
                        out.push(json!({"name": tcx.def_path_str(d), "k": v}));
                    }
                }
                _ => {}
            }
        }
    }
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let local = rustc_public::local_crate();
    if local.name.to_string() != "harness" {
        return ControlFlow::Continue(());
    }
    let mut cx = Cx::default();
    let mut roots = serde_json::Map::new();
    for f in local.fn_defs() {
        let n = f.name().to_string();
        let Some(t) = f.ty().kind().rigid().cloned() else { continue };
        if let RigidTy::FnDef(d, a) = t {
            if let Ok(i) = Instance::resolve(d, &a) {
                if i.has_body() {
                    let id = cx.instance(i);
                    roots.insert(n.rsplit("::").next().unwrap_or(&n).to_string(), json!(id));
                }
            }
        }
    }
    let mut fns: Vec<Value> = vec![];
    let mut impls: Vec<Value> = vec![];
    let mut statics: Vec<Value> = vec![];
    let mut api = json!({});
    for c in rustc_public::find_crates(TARGET) {
        let cnum = tcx.crates(()).iter().copied().find(|k| tcx.crate_name(*k).as_str() == TARGET);
        let mut names = HashSet::new();
        let mut consts = vec![];
        if let Some(k) = cnum { nameable(tcx, k.as_def_id(), &mut HashSet::new(), &mut names, &mut consts); }
        let mut items = vec![];
        if let Some(k) = cnum { all_consts(tcx, k.as_def_id(), &mut HashSet::new(), &mut cx, &mut items); }
        api = json!({"items": items, "nameable": names.iter().map(|d| tcx.def_path_str(*d)).collect::<Vec<_>>(), "consts": consts});
        for f in c.fn_defs() {
            let g = f.generics_of();
            let generic = g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) || g.parent_count > 0 && {
                let mut parent = g.parent; let mut any = false;
                while let Some(_p) = parent { parent = None; }
                // parent generics: test by trying to resolve
                any = any || false; any
            };
            let sp = cx.span(&f.span());
            let mut id = Value::Null;
            if !generic {
                if let Some(RigidTy::FnDef(d, a)) = f.ty().kind().rigid().cloned() {
                    let only_lt = a.0.iter().all(|x| matches!(x, GenericArgKind::Lifetime(_)));
                    if only_lt {
                        if let Ok(i) = Instance::resolve(d, &a) {
                            if i.has_body() { id = json!(cx.instance(i)); }
                        }
                    }
                }
            }
            let did = rustc_public::rustc_internal::internal(tcx, f.0);
            let parent = tcx.opt_parent(did);
            let (pk, reach) = match parent.map(|p| tcx.def_kind(p)) {
                Some(DefKind::Impl { of_trait: true }) => ("trait", true),
                Some(DefKind::Impl { .. }) => ("inherent", tcx.visibility(did).is_public()),
                Some(DefKind::Trait) => ("traitdef", tcx.visibility(did).is_public()),
                _ => ("free", names.contains(&did)),
            };
            let sig = f.fn_sig().value;
            let tys: Vec<String> = sig.inputs_and_output.iter().map(|t| format!("{}", t)).collect();
            fns.push(json!({"name": f.name().to_string(), "inst": id, "sp": sp, "kind": pk, "public": reach, "generic": generic,
                "sig": tys, "unsafe": format!("{:?}", sig.safety)}));
        }
        for im in c.trait_impls() {
            impls.push(json!(format!("{:?}", im.trait_impl().value)));
        }
        for s in c.statics() {
            let m = s.eval_initializer().map(|a| a.mutability == Mutability::Mut).unwrap_or(true);
            statics.push(json!({"name": s.name().to_string(), "mut": m, "ty": cx.ty(s.ty())}));
        }
    }
    loop {
        if let Some(t) = cx.ty_queue.pop_front() { cx.do_ty(t); continue; }
        if let Some((id, i)) = cx.inst_queue.pop_front() { cx.do_inst(id, i); continue; }
        if let Some(a) = cx.alloc_queue.pop_front() { cx.do_alloc(a); continue; }
        break;
    }
    let allocs: serde_json::Map<String, Value> = cx.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let v = json!({"roots": roots, "insts": cx.insts, "tys": cx.tys, "allocs": allocs, "fns": fns, "impls": impls, "statics": statics, "api": api, "files": cx.file_list});
    std::fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if std::env::var("MIRDUMP_OUT").is_ok() && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "harness") {
        match run_with_tcx!(&args, analyze) {
            Ok(_) | Err(CompilerError::Skipped) | Err(CompilerError::Interrupted(_)) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
