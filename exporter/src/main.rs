//! mirexport: a rustc driver that dumps the *monomorphic, type-checked MIR* of everything reachable
//! from the `entry_*` functions of the harness crate, as JSON.
//!
//! It is a `RUSTC_WRAPPER`: every crate is compiled normally; for the crate named by
//! MIREXPORT_CRATE the dump is written to MIREXPORT_OUT after type checking.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&x);
    }
    o.push(']');
    o
}

/// the type holds memory that can change behind a shared reference
fn has_cell(t: Ty, depth: usize) -> bool {
    if depth > 12 {
        return true;
    }
    match t.kind().rigid() {
        Some(RigidTy::Adt(def, args)) => {
            let n = def.name();
            if n.ends_with("::UnsafeCell") || n.ends_with("::UnsafePinned") {
                return true;
            }
            if args.0.iter().filter_map(|x| x.ty()).any(|x| has_cell(*x, depth + 1)) {
                return true;
            }
            def.variants_iter().any(|v| v.fields().iter().any(|f| has_cell(f.ty_with_args(args), depth + 1)))
        }
        Some(RigidTy::Array(e, _)) | Some(RigidTy::Slice(e)) => has_cell(*e, depth + 1),
        Some(RigidTy::Ref(_, e, _)) => has_cell(*e, depth + 1),
        Some(RigidTy::Tuple(ts)) => ts.iter().any(|x| has_cell(*x, depth + 1)),
        _ => false,
    }
}

struct Cx {
    types: Vec<String>,
    tyid: HashMap<Ty, usize>,
    fns: HashMap<Instance, usize>,
    fn_order: Vec<Instance>,
    queue: VecDeque<Instance>,
}

fn skip_body(path: &str, krate: &str) -> bool {
    // machinery never analysed by inlining: formatting, panicking, I/O, allocation, big integers
    const SKIP: &[&str] = &[
        "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::io", "std::rt",
        "alloc::alloc", "std::alloc", "core::str", "alloc::str", "core::unicode", "core::char",
        "alloc::raw_vec", "core::hash", "std::sys", "core::alloc", "core::ptr::drop_in_place",
        "core::ub_checks", "std::thread", "std::sync", "core::sync",
        "alloc::string", "alloc::vec", "alloc::slice", "alloc::boxed", "alloc::borrow",
        "core::slice::sort", "core::slice::memchr", "core::slice::cmp", "core::slice::rotate",
        "alloc::collections", "std::collections", "std::time", "std::env",
    ];
    if matches!(krate, "num_bigint" | "bitvec" | "num_integer" | "funty" | "wyz" | "tap" | "radium" | "time" | "memchr" | "futures") {
        return true;
    }
    SKIP.iter().any(|p| path.starts_with(p))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tyid.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tyid.insert(t, id);
        let kind = t.kind();
        let s = js(&format!("{}", t));
        let body = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e)),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(*e), n)
                }
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"elem\":{},\"mut\":{}", self.ty(*e), *m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"elem\":{},\"mut\":{}", self.ty(*e), *m == Mutability::Mut),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let f = match Instance::resolve(*d, a) {
                        Ok(i) => self.inst(i) as i64,
                        Err(_) => -1,
                    };
                    format!("\"k\":\"fndef\",\"path\":{},\"fn\":{}", js(&d.name()), f)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    // upvar tuple type is the last generic argument
                    let up = a.0.iter().rev().find_map(|x| x.ty().copied());
                    let up = up.map(|u| self.ty(u).to_string()).unwrap_or("null".into());
                    let mut insts = String::from("{");
                    for (i, (k, n)) in [(ClosureKind::Fn, "Fn"), (ClosureKind::FnMut, "FnMut"), (ClosureKind::FnOnce, "FnOnce")].iter().enumerate() {
                        if let Ok(inst) = Instance::resolve_closure(*d, a, k.clone()) {
                            if i > 0 && insts.len() > 1 { insts.push(','); }
                            let _ = write!(insts, "\"{}\":{}", n, self.inst(inst));
                        }
                    }
                    insts.push('}');
                    format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"insts\":{}", js(&d.name()), up, insts)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut vs = vec![];
                    for (vi, v) in def.variants_iter().enumerate() {
                        let d = if kind == "enum" {
                            let dv = def.discriminant_for_variant(VariantIdx::to_val(vi));
                            dv.val.to_string()
                        } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.ty(f.ty_with_args(args));
                            fs.push(format!("[{},{}]", js(&f.name), ft));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", js(&v.name()), d, arr(fs)));
                    }
                    let targs: Vec<String> = args.0.iter().filter_map(|x| x.ty().copied()).map(|t| self.ty(t).to_string()).collect();
                    format!("\"k\":\"adt\",\"path\":{},\"krate\":{},\"adt\":\"{}\",\"box\":{},\"args\":{},\"variants\":{}",
                        js(&def.name()), js(&def.krate().name), kind, def.is_box(), arr(targs), arr(vs))
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, s, body);
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.fns.get(&i) {
            return x;
        }
        let id = self.fn_order.len();
        self.fns.insert(i, id);
        self.fn_order.push(i);
        self.queue.push_back(i);
        id
    }

    fn place(&mut self, p: &Place) -> String {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\".\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(pr))
    }

    fn read_uint(b: &[Option<u8>]) -> Option<u128> {
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= ((*x)? as u128) << (8 * i);
        }
        Some(v)
    }

    /// decode constant memory at `off` as a value of type `t`
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let opaque = "[\"opaque\"]".to_string();
        if depth > 12 {
            return opaque;
        }
        let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return opaque };
        let sz = lay.size.bytes();
        if off + sz > a.bytes.len() {
            return opaque;
        }
        let kind = t.kind();
        let r = match kind.rigid() { Some(r) => r.clone(), None => return opaque };
        let prov = |o: usize| a.provenance.ptrs.iter().find(|(s, _)| *s == o).map(|(_, p)| p.0);
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::read_uint(&a.bytes[off..off + sz]) {
                Some(v) => format!("[\"int\",\"{}\"]", v),
                None => opaque,
            },
            RigidTy::Int(_) => match Self::read_uint(&a.bytes[off..off + sz]) {
                Some(v) => {
                    let bits = sz * 8;
                    let sv: i128 = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    format!("[\"int\",\"{}\"]", sv)
                }
                None => opaque,
            },
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let inner_off = Self::read_uint(&a.bytes[off..off + 8]).unwrap_or(0) as usize;
                let id = match prov(off) { Some(p) => p, None => return "[\"danglingref\"]".to_string() };
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => {
                        let ik = inner.kind();
                        match ik.rigid() {
                            Some(RigidTy::Str) | Some(RigidTy::Slice(_)) => {
                                let len = Self::read_uint(&a.bytes[off + 8..off + 16]).unwrap_or(0) as usize;
                                let elem = match ik.rigid() { Some(RigidTy::Slice(e)) => Some(*e), _ => None };
                                let is_u8 = elem.map(|e| matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8)))).unwrap_or(true);
                                if is_u8 {
                                    let v: Vec<String> = m.bytes[inner_off..inner_off + len].iter().map(|x| x.unwrap_or(0).to_string()).collect();
                                    format!("[\"bytes\",{}]", arr(v))
                                } else {
                                    let e = elem.unwrap();
                                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                    let v: Vec<String> = (0..len).map(|i| self.decode(&m, inner_off + i * es, e, depth + 1)).collect();
                                    format!("[\"ref\",[\"slice\",{}]]", arr(v))
                                }
                            }
                            Some(RigidTy::Dynamic(..)) => opaque,
                            _ => {
                                let v = self.decode(&m, inner_off, inner, depth + 1);
                                format!("[\"ref\",{},{}]", v, self.ty(inner))
                            }
                        }
                    }
                    GlobalAlloc::Static(s) => {
                        let mutable = matches!(t.kind().rigid(), Some(RigidTy::RawPtr(_, Mutability::Mut)));
                        let cell = has_cell(inner, 0);
                        let val = if mutable || cell { None } else { s.eval_initializer().ok() };
                        let v = match val {
                            Some(al) if inner_off == 0 && !matches!(inner.kind().rigid(), Some(RigidTy::Str) | Some(RigidTy::Slice(_)) | Some(RigidTy::Dynamic(..))) =>
                                self.decode(&al, 0, inner, depth + 1),
                            _ => "null".to_string(),
                        };
                        format!("[\"static\",{},{},{},{},{}]", js(&s.name()), mutable || cell, v, self.ty(inner), js(&s.krate().name))
                    }
                    GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", self.inst(i)),
                    _ => opaque,
                }
            }
            RigidTy::FnPtr(_) => match prov(off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => format!("[\"fnptr\",{}]", self.inst(i)),
                _ => opaque,
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 { return opaque; }
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * es, e, depth + 1)).collect();
                format!("[\"array\",{}]", arr(v))
            }
            RigidTy::Tuple(ts) => {
                let offs = match lay.fields { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![] };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, ft)| {
                    let o = offs.get(i).map(|s| s.bytes()).unwrap_or(0);
                    self.decode(a, off + o, *ft, depth + 1)
                }).collect();
                format!("[\"agg\",0,{}]", arr(v))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "[\"zst\"]".to_string(),
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union { return opaque; }
                let (vidx, offs): (usize, Vec<usize>) = match &lay.variants {
                    VariantsShape::Empty => return opaque,
                    VariantsShape::Single { index } => (index.to_index(), match &lay.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(),
                        _ => vec![0; 8],
                    }),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } =>
                                value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                        };
                        let has_prov = prov(off + toff).is_some();
                        let tv = match Self::read_uint(&a.bytes[off + toff..off + toff + tsz]) { Some(v) => v, None => return opaque };
                        let v = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for vi in 0..def.num_variants() {
                                    let d = def.discriminant_for_variant(VariantIdx::to_val(vi)).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d & mask == tv { f = Some(vi) }
                                }
                                match f { Some(x) => x, None => return opaque }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov { untagged_variant.to_index() } else {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let n = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                    if rel <= n { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (v, variants[v].offsets.iter().map(|s| s.bytes()).collect())
                    }
                };
                let vd = match def.variant(VariantIdx::to_val(vidx)) { Some(v) => v, None => return opaque };
                let fs = vd.fields();
                let v: Vec<String> = fs.iter().enumerate().map(|(i, f)| {
                    let ft = f.ty_with_args(&args);
                    self.decode(a, off + offs.get(i).copied().unwrap_or(0), ft, depth + 1)
                }).collect();
                format!("[\"agg\",{},{}]", vidx, arr(v))
            }
            _ => opaque,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => match t.kind().rigid() {
                Some(RigidTy::FnDef(d, a)) => match Instance::resolve(*d, a) {
                    Ok(i) => format!("[\"fn\",{}]", self.inst(i)),
                    Err(_) => format!("[\"fnunres\",{}]", js(&d.name())),
                },
                _ => "[\"zst\"]".to_string(),
            },
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.decode(a, 0, *t2, 0),
                _ => "[\"opaque\"]".to_string(),
            },
            _ => "[\"opaque\"]".to_string(),
        };
        format!("[\"k\",{},{}]", tid, v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(b, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = arr(os);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{}]", self.ty(*t), os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",-1,0,{}]", os),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        let _ = f;
                        format!("[\"agg\",\"adt\",{},{},{}]", t, v.to_index(), os)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{},0,{}]", t, os)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,{}]", self.ty(*t), os),
                    _ => "[\"unk\",\"coroutine\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", js(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", js(&i.name())),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let l = s.source_info.span.get_lines().start_line;
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), l))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } =>
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ss.push(format!("[\"assume\",{}]", self.operand(o))),
                    StatementKind::Intrinsic(_) => ss.push("[\"unk\"]".into()),
                    _ => {}
                }
            }
            let sp = bb.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            let file = sp.get_filename();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let t = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{}]", self.operand(func), arr(a), self.place(destination), t, line, js(&file))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        m => m.description().map(|s| s.to_string()).unwrap_or("assert".into()),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond), expected, js(&m), target, line, js(&file))
                }
                TerminatorKind::InlineAsm { .. } => "[\"unk\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(ss), t));
        }
        let names: Vec<String> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| format!("[{},{}]", l, js(&v.name)))).collect();
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        format!("{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":{}}}",
            arr(locals), b.arg_locals().len(), spread, arr(names), arr(blocks))
    }
}

fn export() -> ControlFlow<()> {
    let out = std::env::var("MIREXPORT_OUT").unwrap();
    let mut cx = Cx { types: vec![], tyid: HashMap::new(), fns: HashMap::new(), fn_order: vec![], queue: VecDeque::new() };
    let mut entries = vec![];
    let mut probes = vec![];
    let all = std::env::var("MIREXPORT_ALL").is_ok();
    for it in rustc_public::all_local_items() {
        let n = it.name();
        let short = n.rsplit("::").next().unwrap_or("").to_string();
        if short.starts_with("probe_") {
            if let Ok(i) = Instance::try_from(it) {
                probes.push((short.clone(), cx.inst(i)));
            }
        }
        if short.starts_with("entry_") || (all && it.kind() == rustc_public::ItemKind::Fn) {
            if let Ok(i) = Instance::try_from(it) {
                entries.push((short, cx.inst(i)));
            }
        }
    }
    // public API inventory of the analysed crate (used for the "every public function has an entry" rule)
    let mut inventory = vec![];
    for k in rustc_public::find_crates("der_parser") {
        for f in k.fn_defs() {
            let sp = f.span();
            inventory.push(format!("[{},{},{}]", js(&f.name()), js(&sp.get_filename()), sp.get_lines().start_line));
        }
    }
    let mut done = HashSet::new();
    let mut fnjs: HashMap<usize, String> = HashMap::new();
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.fns[&i];
        if !done.insert(id) {
            continue;
        }
        let path = i.def.def_id().name();
        let krate = i.def.krate().name;
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "intrinsic".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual{}", idx),
            InstanceKind::Shim => "shim".to_string(),
        };
        let targs: Vec<Ty> = i.args().0.iter().filter_map(|x| x.ty().copied()).collect();
        let targs: Vec<String> = targs.into_iter().map(|t| cx.ty(t).to_string()).collect();
        let fty = i.ty();
        let isclosure = matches!(fty.kind().rigid(), Some(RigidTy::Closure(..)));
        let tyi = cx.ty(fty);
        let sp = i.def.span();
        let (file, line) = (sp.get_filename(), sp.get_lines().start_line);
        let want = i.has_body() || i.kind == InstanceKind::Shim;
        let body = if want && !skip_body(&path, &krate) {
            match i.body() {
                Some(b) => cx.body(&b),
                None => "null".to_string(),
            }
        } else {
            "null".to_string()
        };
        let s = format!("{{\"id\":{},\"name\":{},\"path\":{},\"krate\":{},\"kind\":\"{}\",\"args\":{},\"closure\":{},\"ty\":{},\"file\":{},\"line\":{},\"body\":{}}}",
            id, js(&i.name()), js(&path), js(&krate), kind, arr(targs), isclosure, tyi, js(&file), line, body);
        fnjs.insert(id, s);
    }
    let mut o = String::new();
    o.push_str("{\"entries\":{");
    o.push_str(&entries.iter().map(|(n, i)| format!("{}:{}", js(n), i)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"probes\":{");
    o.push_str(&probes.iter().map(|(n, i)| format!("{}:{}", js(n), i)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"inventory\":");
    o.push_str(&arr(inventory));
    o.push_str(",\n\"types\":[\n");
    o.push_str(&cx.types.join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    let n = cx.fn_order.len();
    o.push_str(&(0..n).map(|i| fnjs[&i].clone()).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).unwrap();
    eprintln!("mirexport: {} entries, {} instances, {} types -> {}", entries.len(), n, cx.types.len(), out);
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER convention: argv[1] is the path of the real rustc
    let target = std::env::var("MIREXPORT_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target {
        let mut a = args.clone();
        a.remove(0);
        let r = run!(&a, export);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        use std::os::unix::process::CommandExt;
        // MIREXPORT_FORBID=crate,crate: compile these crates with the lint raised to an error that no attribute can lower
        let forbid = std::env::var("MIREXPORT_FORBID").unwrap_or_default();
        let extra: &[&str] = match args.windows(2).find(|w| w[0] == "--crate-name") {
            Some(w) if forbid.split(',').any(|c| c == w[1]) => &["-Funsafe_code", "--cap-lints=forbid"],
            _ => &[],
        };
        let e = std::process::Command::new(&args[1]).args(&args[2..]).args(extra).exec();
        eprintln!("mirexport: cannot exec {}: {}", args[1], e);
        std::process::exit(1);
    }
}
