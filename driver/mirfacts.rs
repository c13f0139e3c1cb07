//! Compiler driver: type-checks one crate exactly as cargo would and writes the
//! monomorphised MIR of everything reachable from its functions as JSON.
//! It decides nothing; the rules live in ../sa.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[allow(unused_imports)]
#[macro_use]
extern crate rustc_public;

use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{run, CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    ws: Vec<String>,
    transparent: Vec<String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let n = self.inst_list.len();
        self.insts.insert(i.clone(), n);
        self.inst_list.push(i);
        self.queue.push_back(n);
        n
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let j = self.ty_inner(t);
        self.ty_json[id] = j;
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(format!("{{\"c\":{n}}}")),
                    Err(_) => v.push(format!("{{\"cs\":{}}}", esc(&format!("{c:?}")))),
                },
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_inner(&mut self, t: Ty) -> String {
        let k = t.kind();
        let Some(r) = k.rigid() else {
            return format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{t}")));
        };
        let disp = esc(&format!("{t}"));
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(_) | RigidTy::Uint(_) => format!("{{\"k\":\"int\",\"n\":{disp}}}"),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"n\":{disp}}}"),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*e)),
            RigidTy::Array(e, n) => format!(
                "{{\"k\":\"array\",\"t\":{},\"l\":{}}}",
                self.ty(*e),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(*e), (*m == Mutability::Mut) as u8)
            }
            RigidTy::RawPtr(e, m) => {
                format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", self.ty(*e), (*m == Mutability::Mut) as u8)
            }
            RigidTy::Tuple(v) => {
                let f: Vec<_> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":[{}]}}", f.join(","))
            }
            RigidTy::Adt(d, a) => {
                let args = self.args(a);
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft)));
                    }
                    let dv = if d.kind() == AdtKind::Enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        esc(&v.name().to_string()),
                        dv,
                        fs.join(",")
                    ));
                }
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"s\":{},\"c\":{},\"kind\":\"{}\",\"a\":{},\"v\":[{}]}}",
                    esc(&d.name().to_string()),
                    disp,
                    esc(&d.krate().name.to_string()),
                    d.kind(),
                    args,
                    vs.join(",")
                )
            }
            RigidTy::Closure(d, a) => {
                let up = a.0.iter().rev().find_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None });
                let mut f = vec![];
                if let Some(u) = up {
                    if let Some(RigidTy::Tuple(v)) = u.kind().rigid() {
                        for x in v {
                            f.push(self.ty(*x).to_string());
                        }
                    }
                }
                let mut ids = vec![];
                for k in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
                    ids.push(match Instance::resolve_closure(d.clone(), a, k) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    });
                }
                // FnOnce resolution may be a shim; the body instance is the one asked for with
                // the closure's own kind.  All three are recorded.
                format!(
                    "{{\"k\":\"closure\",\"n\":{},\"f\":[{}],\"i\":[{}]}}",
                    esc(&d.name().to_string()),
                    f.join(","),
                    ids.join(",")
                )
            }
            RigidTy::FnDef(d, a) => {
                let i = match Instance::resolve(d.clone(), a) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                let args = self.args(a);
                format!("{{\"k\":\"fndef\",\"n\":{},\"i\":{},\"a\":{}}}", esc(&d.name().to_string()), i, args)
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{disp}}}"),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{disp}}}"),
            _ => format!("{{\"k\":\"other\",\"n\":{disp}}}"),
        }
    }

    fn rd(b: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            v = (v << 8) | ((*b.get(off + i)?)? as u128);
        }
        Some(v)
    }

    fn decode(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"u\":1}".into();
        }
        let Ok(lay) = t.layout() else { return "{\"u\":1}".into() };
        let sh = lay.shape();
        let size = sh.size.bytes();
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"u\":1}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                match Self::rd(&al.bytes, off, size) {
                    Some(mut v) => {
                        if let RigidTy::Int(_) = r {
                            let bits = size * 8;
                            if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                                let s = (v as i128) - (1i128 << bits);
                                return format!("{{\"i\":{s}}}");
                            } else if bits == 128 {
                                return format!("{{\"i\":{}}}", v as i128);
                            }
                        }
                        if let RigidTy::Float(f) = r {
                            let fv = match f {
                                FloatTy::F32 => f32::from_bits(v as u32) as f64,
                                FloatTy::F64 => f64::from_bits(v as u64),
                                _ => f64::NAN,
                            };
                            v &= u128::MAX;
                            return format!("{{\"f\":{},\"bits\":{v}}}", esc(&format!("{fv:?}")));
                        }
                        format!("{{\"i\":{v}}}")
                    }
                    None => "{\"u\":1}".into(),
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(id) = prov else {
                    return match Self::rd(&al.bytes, off, 8) {
                        Some(v) => format!("{{\"addr\":{v}}}"),
                        None => "{\"u\":1}".into(),
                    };
                };
                let base = Self::rd(&al.bytes, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match e.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let n = Self::rd(&al.bytes, off + 8, 8).unwrap_or(0) as usize;
                            let by: Vec<u8> = (0..n).map(|i| m.bytes.get(base + i).copied().flatten().unwrap_or(0)).collect();
                            format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&by)))
                        }
                        Some(RigidTy::Slice(el)) => {
                            let n = Self::rd(&al.bytes, off + 8, 8).unwrap_or(0) as usize;
                            let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<_> = (0..n).map(|i| self.decode(&m, base + i * es, *el, depth + 1)).collect();
                            format!("{{\"ref\":{{\"arr\":[{}]}},\"slice\":1}}", v.join(","))
                        }
                        Some(RigidTy::Dynamic(..)) => "{\"u\":1}".into(),
                        _ => format!("{{\"ref\":{}}}", self.decode(&m, base, *e, depth + 1)),
                    },
                    GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&s.name().to_string())),
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => "{\"u\":1}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                if let Some(id) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(id) {
                        return format!("{{\"fn\":{}}}", self.inst(i));
                    }
                }
                "{\"u\":1}".into()
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return "{\"u\":1}".into();
                }
                let v: Vec<_> = (0..n).map(|i| self.decode(al, off + i * es, *e, depth + 1)).collect();
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            RigidTy::Tuple(fs) => {
                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return "{\"agg\":[]}".into() };
                let v: Vec<_> = fs
                    .iter()
                    .zip(offsets)
                    .map(|(f, o)| self.decode(al, off + o.bytes(), *f, depth + 1))
                    .collect();
                format!("{{\"agg\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(d, a) => {
                let (vi, offsets) = match &sh.variants {
                    VariantsShape::Single { index } => match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => (*index, offsets.clone()),
                        _ => return "{\"u\":1}".into(),
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return "{\"u\":1}".into(),
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                            rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let has_ptr = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = Self::rd(&al.bytes, off + toff, tsz);
                        let Some(tv) = tv else { return "{\"u\":1}".into() };
                        let vidx: usize = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                for v in d.variants_iter() {
                                    if d.discriminant_for_variant(v.idx()).val & mask == tv {
                                        found = Some(v.idx().to_index());
                                    }
                                }
                                match found {
                                    Some(x) => x,
                                    None => return "{\"u\":1}".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    if rel <= e - s {
                                        (s + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        let Some(v) = d.variants().into_iter().nth(vidx) else { return "{\"u\":1}".into() };
                        (v.idx(), variants[vidx].offsets.clone())
                    }
                    VariantsShape::Empty => return "{\"u\":1}".into(),
                };
                let Some(v) = d.variant(vi) else { return "{\"u\":1}".into() };
                let fs: Vec<_> = v
                    .fields()
                    .iter()
                    .zip(&offsets)
                    .map(|(f, o)| {
                        let ft = f.ty_with_args(a);
                        self.decode(al, off + o.bytes(), ft, depth + 1)
                    })
                    .collect();
                format!("{{\"agg\":[{}],\"v\":{}}}", fs.join(","), vi.to_index())
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"zst\":1}".into(),
            _ => "{\"u\":1}".into(),
        }
    }

    fn constant(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::Allocated(al) => self.decode(al, 0, t, 0),
            ConstantKind::ZeroSized => "{\"zst\":1}".into(),
            k => format!("{{\"u\":1,\"d\":{}}}", esc(&format!("{k:?}"))),
        };
        format!("{{\"c\":{v},\"t\":{tid}}}")
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{}]", *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{}]", *from_end as u8),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":\"{r:?}\"}}"),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let ops = ops.join(",");
                match k {
                    AggregateKind::Array(t) => format!("[\"array\",{},[{ops}]]", self.ty(*t)),
                    AggregateKind::Tuple => format!("[\"tuple\",[{ops}]]"),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Adt(d.clone(), a.clone())));
                        format!(
                            "[\"adt\",{t},{},[{ops}],{}]",
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Closure(d.clone(), a.clone())));
                        format!("[\"closure\",{t},[{ops}]]")
                    }
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",[{ops}]]"),
                    _ => "[\"unk\"]".into(),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => {
                let m = !matches!(b, BorrowKind::Shared | BorrowKind::Fake(_));
                format!("[\"ref\",{},{}]", m as u8, self.place(p))
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                format!(
                    "[\"repeat\",{o},{}]",
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{op:?}\",{}]", self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", (*m == Mutability::Mut) as u8, {
                let mut q = p.clone();
                q.projection.push(ProjectionElem::Deref);
                self.place(&q)
            }),
            Rvalue::ThreadLocalRef(_) => "[\"unk\"]".into(),
        }
    }

    fn file(&mut self, s: String) -> usize {
        if let Some(&i) = self.files.get(&s) {
            return i;
        }
        let n = self.file_list.len();
        self.files.insert(s.clone(), n);
        self.file_list.push(s);
        n
    }

    fn span(&mut self, s: Span) -> String {
        let f = self.file(s.get_filename().to_string());
        let l = s.get_lines();
        format!("[{f},{}]", l.start_line)
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let lt: Vec<_> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{},{sp}]", self.place(p), self.rvalue(r)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{sp}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::Intrinsic(_) => st.push(format!("[\"intr\",{sp}]")),
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    let dt = discr.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"switch\",{},[{}],{},{dt}]", self.operand(discr), br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(locals).ok();
                    let di = match pt {
                        Some(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            if i.is_empty_shim() {
                                "null".into()
                            } else {
                                self.inst(i).to_string()
                            }
                        }
                        None => "null".into(),
                    };
                    let tt = pt.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{target},{di},{tt}]", self.place(place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let ft = func.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                    let a: Vec<_> = args.iter().map(|x| self.operand(x)).collect();
                    format!(
                        "[\"call\",{f},{ft},[{}],{},{}]",
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = format!("{msg:?}");
                    let d = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{target}]", self.operand(cond), *expected as u8, esc(&d))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{t},\"l\":{sp}}}", st.join(",")));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        format!(
            "{{\"argc\":{},\"locals\":[{}],\"spread\":{},\"blocks\":[{}],\"dbg\":[{}],\"sp\":{}}}",
            b.arg_locals().len(),
            lt.join(","),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            blocks.join(","),
            dbg.join(","),
            self.span(b.span)
        )
    }
}

fn dump(out: &str) -> ControlFlow<(), ()> {
    let list = |k: &str| -> Vec<String> {
        std::env::var(k).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
    };
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_json: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        queue: VecDeque::new(),
        ws: list("MIRFACTS_WS"),
        transparent: list("MIRFACTS_TRANSPARENT"),
        files: HashMap::new(),
        file_list: vec![],
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(item) {
            if i.has_body() {
                roots.push(cx.inst(i));
            }
        }
    }
    let mut fns: Vec<String> = vec![];
    while let Some(n) = cx.queue.pop_front() {
        let i = cx.inst_list[n].clone();
        let def = i.def;
        let _ = def;
        let name = i.name().to_string();
        let krate = i.def.krate().name.to_string();
        let ty = i.ty();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
            _ => "intrinsic",
        };
        let defname = i.def.name().to_string();
        let in_ws = cx.ws.iter().any(|c| *c == krate);
        let mut body = "null".to_string();
        let transparent = in_ws
            || cx.transparent.iter().any(|p| defname.starts_with(p.as_str()) || name.contains(p.as_str()))
            || (kind == "shim" && cx.ws.iter().any(|c| name.contains(&format!("{c}::"))))
            || (kind == "item" && (krate == "core" || krate == "std" || krate == "alloc") && false);
        if kind != "virtual" && transparent {
            if let Some(b) = i.body() {
                if b.blocks.len() < 3000 {
                    body = cx.body(&b);
                }
            }
        }
        let args = cx.args(&i.args());
        let t = cx.ty(ty);
        fns.push(format!(
            "{{\"id\":{n},\"name\":{},\"def\":{},\"mangled\":{},\"crate\":{},\"kind\":\"{kind}\",\"intr\":{},\"ty\":{t},\"args\":{args},\"body\":{body}}}",
            esc(&name),
            esc(&defname),
            esc(&i.mangled_name().to_string()),
            esc(&krate),
            i.intrinsic_name().map(|s| esc(&s.to_string())).unwrap_or("null".into()),
        ));
    }
    let files: Vec<_> = cx.file_list.iter().map(|f| esc(f)).collect();
    let json = format!(
        "{{\"roots\":{:?},\n\"files\":[{}],\n\"tys\":[\n{}],\n\"fns\":[\n{}]}}\n",
        roots,
        files.join(","),
        cx.ty_json.join(",\n"),
        fns.join(",\n")
    );
    let tmp = format!("{out}.tmp{}", std::process::id());
    std::fs::write(&tmp, json).unwrap();
    std::fs::rename(&tmp, out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned();
    let name = get("--crate-name").unwrap_or_default();
    let ctype = get("--crate-type").unwrap_or_default();
    // MIRFACTS_DUMP: name/type=file pairs
    let spec = std::env::var("MIRFACTS_DUMP").unwrap_or_default();
    let mut target = None;
    for s in spec.split(';') {
        if let Some((k, f)) = s.split_once('=') {
            if k == format!("{name}/{ctype}") {
                target = Some(f.to_string());
            }
        }
    }
    match target {
        Some(out) => {
            let r = run!(&args, || dump(&out));
            match r {
                Ok(_) => {}
                Err(e) => {
                    eprintln!("mirfacts: {e:?}");
                    std::process::exit(1);
                }
            }
        }
        None => {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
            eprintln!("mirfacts: {e}");
            std::process::exit(1);
        }
    }
}
