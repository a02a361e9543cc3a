//! MIR dumper: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.
//! For the crate under analysis it walks the monomorphic call graph from every
//! local function and writes the resolved program (types, bodies, callees,
//! evaluated constants) as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => {
                let _ = write!(o, "{}", x);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty, usize>,
    ty_todo: VecDeque<Ty>,
    insts: BTreeMap<String, J>,
    inst_keys: HashMap<Instance, String>,
    todo: VecDeque<(Instance, String)>,
    statics: Vec<(String, J)>,
    seen_statics: std::collections::HashSet<String>,
    descend: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ids.insert(t, i);
        self.ty_todo.push_back(t);
        i
    }
    fn tyj(&mut self, t: Ty) -> J {
        n(self.ty(t))
    }
    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x {
                v.push(self.tyj(*t));
            }
        }
        J::A(v)
    }
    fn flush_types(&mut self) {
        while let Some(t) = self.ty_todo.pop_front() {
            let id = self.ty_ids[&t];
            let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
            match t.kind() {
                TyKind::RigidTy(r) => match r {
                    RigidTy::Bool => o.push(("k", s("bool"))),
                    RigidTy::Char => o.push(("k", s("char"))),
                    RigidTy::Int(i) => {
                        o.push(("k", s("int")));
                        o.push(("n", n(i.num_bytes() * 8)));
                    }
                    RigidTy::Uint(i) => {
                        o.push(("k", s("uint")));
                        o.push(("n", n(i.num_bytes() * 8)));
                    }
                    RigidTy::Float(_) => o.push(("k", s("float"))),
                    RigidTy::Str => o.push(("k", s("str"))),
                    RigidTy::Never => o.push(("k", s("never"))),
                    RigidTy::Array(e, c) => {
                        o.push(("k", s("array")));
                        let e = self.tyj(e);
                        o.push(("t", e));
                        o.push(("len", c.eval_target_usize().map(|x| J::N(x as i128)).unwrap_or(J::Null)));
                    }
                    RigidTy::Slice(e) => {
                        o.push(("k", s("slice")));
                        let e = self.tyj(e);
                        o.push(("t", e));
                    }
                    RigidTy::RawPtr(e, m) => {
                        o.push(("k", s("ptr")));
                        let e = self.tyj(e);
                        o.push(("t", e));
                        o.push(("mut", J::B(m == Mutability::Mut)));
                    }
                    RigidTy::Ref(_, e, m) => {
                        o.push(("k", s("ref")));
                        let e = self.tyj(e);
                        o.push(("t", e));
                        o.push(("mut", J::B(m == Mutability::Mut)));
                    }
                    RigidTy::Tuple(ts) => {
                        o.push(("k", s("tuple")));
                        let v = ts.iter().map(|t| self.tyj(*t)).collect();
                        o.push(("ts", J::A(v)));
                    }
                    RigidTy::FnDef(d, a) => {
                        o.push(("k", s("fndef")));
                        o.push(("name", s(d.name())));
                        let a = self.args(&a);
                        o.push(("args", a));
                    }
                    RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                    RigidTy::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("name", s(d.name())));
                    }
                    RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                    RigidTy::Adt(d, a) => {
                        o.push(("k", s("adt")));
                        o.push(("name", s(d.name())));
                        o.push(("crate", s(d.krate().name)));
                        o.push(("kind", s(match d.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" })));
                        let aj = self.args(&a);
                        o.push(("args", aj));
                        let mut vs = vec![];
                        for v in d.variants_iter() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                let ft = self.norm(ft);
                                let ftj = self.tyj(ft);
                                fs.push(J::A(vec![s(f.name.to_string()), ftj]));
                            }
                            let discr = if d.kind() == AdtKind::Enum { J::N(d.discriminant_for_variant(v.idx()).val as i128) } else { J::N(0) };
                            vs.push(J::O(vec![("name", s(v.name().to_string())), ("discr", discr), ("fields", J::A(fs))]));
                        }
                        o.push(("variants", J::A(vs)));
                    }
                    _ => o.push(("k", s("other"))),
                },
                _ => o.push(("k", s("alias"))),
            }
            self.tys[id] = J::O(o);
        }
    }
    fn norm(&self, t: Ty) -> Ty {
        let it = internal(self.tcx, t);
        let r = self.tcx.try_normalize_erasing_regions(
            rustc_middle::ty::TypingEnv::fully_monomorphized(),
            rustc_middle::ty::Unnormalized::new_wip(it),
        );
        match r {
            Ok(x) => rustc_public::rustc_internal::stable(x),
            Err(_) => t,
        }
    }
    fn inst(&mut self, i: Instance) -> String {
        if let Some(k) = self.inst_keys.get(&i) {
            return k.clone();
        }
        let mut k = i.mangled_name().to_string();
        if let InstanceKind::Virtual { idx } = i.kind {
            k = format!("virtual{}:{}", idx, k);
        } else if i.kind == InstanceKind::Shim {
            k = format!("shim:{}", k);
        }
        let mut kk = k.clone();
        let mut c = 0;
        while self.inst_keys.values().any(|x| *x == kk) {
            c += 1;
            kk = format!("{}#{}", k, c);
        }
        self.inst_keys.insert(i, kk.clone());
        self.todo.push_back((i, kk.clone()));
        kk
    }
    fn span(&self, sp: &Span) -> J {
        let isp = internal(self.tcx, *sp);
        let isp = isp.source_callsite();
        let sp2: Span = rustc_public::rustc_internal::stable(isp);
        let l = sp2.get_lines();
        J::A(vec![s(sp2.get_filename().to_string()), n(l.start_line)])
    }
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> J {
        let mut proj = vec![];
        let mut t = locals[p.local].ty;
        let mut variant: Option<VariantIdx> = None;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => proj.push(J::A(vec![s("*")])),
                ProjectionElem::Field(i, ft) => {
                    let name = match t.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                            let v = match variant {
                                Some(v) => d.variant(v),
                                None => d.variants().into_iter().next(),
                            };
                            v.and_then(|v| v.fields().get(*i).map(|f| f.name.to_string())).unwrap_or(i.to_string())
                        }
                        _ => i.to_string(),
                    };
                    let ftj = self.tyj(*ft);
                    proj.push(J::A(vec![s("f"), n(*i), s(name), ftj]));
                }
                ProjectionElem::Index(l) => proj.push(J::A(vec![s("i"), n(*l)])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    proj.push(J::A(vec![s("ci"), n(*offset as usize), n(*min_length as usize), J::B(*from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(J::A(vec![s("ss"), n(*from as usize), n(*to as usize), J::B(*from_end)]))
                }
                ProjectionElem::Downcast(v) => {
                    let name = match t.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variant(*v).map(|v| v.name().to_string()).unwrap_or_default(),
                        _ => String::new(),
                    };
                    proj.push(J::A(vec![s("d"), n(v.to_index()), s(name)]))
                }
                ProjectionElem::OpaqueCast(_) => proj.push(J::A(vec![s("o")])),
            }
            variant = if let ProjectionElem::Downcast(v) = e { Some(*v) } else { None };
            if !matches!(e, ProjectionElem::Downcast(_)) {
                if let Ok(nt) = e.ty(t) {
                    t = nt;
                }
            }
        }
        J::A(vec![n(p.local), J::A(proj)])
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        if depth > 12 {
            return J::O(vec![("deep", J::Null)]);
        }
        let k = t.kind();
        let Some(r) = k.rigid() else { return J::Null };
        let rd = |off: usize, len: usize| a.read_partial_uint(off..off + len).ok();
        match r {
            RigidTy::Bool => rd(off, 1).map(|x| J::B(x != 0)).unwrap_or(J::Null),
            RigidTy::Char => rd(off, 4).map(|x| J::O(vec![("char", J::N(x as i128))])).unwrap_or(J::Null),
            RigidTy::Uint(u) => rd(off, u.num_bytes()).map(|x| J::N(x as i128)).unwrap_or(J::Null),
            RigidTy::Int(u) => rd(off, u.num_bytes())
                .map(|x| {
                    let b = u.num_bytes() * 8;
                    let x = if b < 128 && (x >> (b - 1)) & 1 == 1 { x as i128 - (1i128 << b) } else { x as i128 };
                    J::N(x)
                })
                .unwrap_or(J::Null),
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return J::O(vec![("rawptr", J::Null)]);
                };
                let inner_off = rd(off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => {
                        let pk = p.kind();
                        match pk.rigid() {
                            Some(RigidTy::Str) => {
                                let len = rd(off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = m.bytes[inner_off..inner_off + len].iter().map(|x| x.unwrap_or(0)).collect();
                                J::O(vec![("str", s(String::from_utf8_lossy(&b).to_string()))])
                            }
                            Some(RigidTy::Slice(e)) => {
                                let len = rd(off + 8, 8).unwrap_or(0) as usize;
                                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if len > 4096 {
                                    let mut h = String::new();
                                    for x in &m.bytes[inner_off..inner_off + len * es] {
                                        let _ = write!(h, "{:02x}", x.unwrap_or(0));
                                    }
                                    return J::O(vec![("refslice_hex", s(h))]);
                                }
                                let v = (0..len).map(|i| self.decode(&m, inner_off + i * es, *e, depth + 1)).collect();
                                J::O(vec![("refslice", J::A(v))])
                            }
                            Some(RigidTy::Dynamic(..)) => J::O(vec![("refdyn", J::Null)]),
                            _ => {
                                let v = self.decode(&m, inner_off, *p, depth + 1);
                                J::O(vec![("ref", v)])
                            }
                        }
                    }
                    GlobalAlloc::Static(d) => {
                        let name = d.name().to_string();
                        J::O(vec![("static", s(name))])
                    }
                    GlobalAlloc::Function(i) => {
                        let k = self.inst(i);
                        J::O(vec![("fn", s(k))])
                    }
                    _ => J::O(vec![("ptr?", J::Null)]),
                }
            }
            RigidTy::FnPtr(_) => {
                if let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov.0) {
                        let k = self.inst(i);
                        return J::O(vec![("fn", s(k))]);
                    }
                }
                J::Null
            }
            RigidTy::Array(e, c) => {
                let len = c.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if len > 4096 {
                    let mut h = String::new();
                    for x in &a.bytes[off..off + len * es] {
                        let _ = write!(h, "{:02x}", x.unwrap_or(0));
                    }
                    return J::O(vec![("array_hex", s(h))]);
                }
                let v = (0..len).map(|i| self.decode(a, off + i * es, *e, depth + 1)).collect();
                J::O(vec![("array", J::A(v))])
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return J::Null };
                let sh = l.shape();
                let FieldsShape::Arbitrary { offsets } = &sh.fields else {
                    return J::O(vec![("tuple", J::A(vec![]))]);
                };
                let v = ts.iter().enumerate().map(|(i, ft)| self.decode(a, off + offsets[i].bytes(), *ft, depth + 1)).collect();
                J::O(vec![("tuple", J::A(v))])
            }
            RigidTy::FnDef(..) => J::O(vec![("zst", J::Null)]),
            RigidTy::Closure(..) => J::O(vec![("closure", J::Null)]),
            RigidTy::Adt(d, ga) => {
                let Ok(l) = t.layout() else { return J::Null };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return J::Null,
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return J::Null };
                        let toff = offsets[*tag_field].bytes();
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let sz = match prim {
                            rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        };
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = rd(off + toff, sz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return J::Null };
                                let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                match d.variants().iter().find(|v| d.discriminant_for_variant(v.idx()).val & mask == tv) {
                                    Some(v) => v.idx().to_index(),
                                    None => return J::Null,
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(tv) = tv else { return J::Null };
                                    let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let cnt = niche_variants.end().to_index() - niche_variants.start().to_index();
                                    if rel <= cnt as u128 { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                if d.kind() == AdtKind::Union {
                    return J::O(vec![("union", J::Null)]);
                }
                let vs = d.variants();
                let v = &vs[vi];
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = self.norm(f.ty_with_args(ga));
                    let x = if i < offs.len() { self.decode(a, off + offs[i], ft, depth + 1) } else { J::Null };
                    fs.push(x);
                }
                J::O(vec![("adt", s(d.name())), ("variant", n(vi)), ("fields", J::A(fs))])
            }
            _ => J::Null,
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tj = self.tyj(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    let mut o = vec![("fnname", s(d.name()))];
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let k = self.inst(i);
                        o.push(("fn", s(k)));
                    }
                    J::O(o)
                }
                TyKind::RigidTy(RigidTy::Adt(d, _)) => J::O(vec![("adt", s(d.name())), ("variant", n(0)), ("fields", J::A(vec![]))]),
                TyKind::RigidTy(RigidTy::Tuple(_)) => J::O(vec![("tuple", J::A(vec![]))]),
                _ => J::O(vec![("zst", J::Null)]),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                _ => J::Null,
            },
            _ => J::Null,
        };
        J::O(vec![("t", tj), ("v", v)])
    }
    fn op(&mut self, o: &Operand, locals: &[LocalDecl]) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p, locals);
                J::A(vec![s("p"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p, locals);
                J::A(vec![s("m"), p])
            }
            Operand::Constant(c) => {
                let k = self.konst(&c.const_);
                J::A(vec![s("c"), k])
            }
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, l: &[LocalDecl]) -> J {
        let a = |v: Vec<J>| J::A(v);
        match r {
            Rvalue::Use(o, _) => {
                let o = self.op(o, l);
                a(vec![s("use"), o])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let p = self.place(p, l);
                a(vec![s("ref"), J::B(m), p])
            }
            Rvalue::AddressOf(k, p) => {
                let p = self.place(p, l);
                a(vec![s("ref"), J::B(matches!(k, RawPtrKind::Mut)), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p, l);
                a(vec![s("reborrow"), J::B(*m == Mutability::Mut), p])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, l);
                a(vec![s("use"), a2("p", p)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(l).ok();
                let p = self.place(p, l);
                let t = t.map(|t| self.tyj(t)).unwrap_or(J::Null);
                a(vec![s("discr"), p, t])
            }
            Rvalue::Len(p) => {
                let p = self.place(p, l);
                a(vec![s("len"), p])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.op(o, l);
                let c = c.eval_target_usize().map(|x| J::N(x as i128)).unwrap_or(J::Null);
                a(vec![s("repeat"), o, c])
            }
            Rvalue::ThreadLocalRef(i) => a(vec![s("tls"), s(i.name())]),
            Rvalue::UnaryOp(u, o) => {
                let o = self.op(o, l);
                a(vec![s("un"), s(format!("{:?}", u)), o])
            }
            Rvalue::BinaryOp(b, x, y) => {
                let xt = x.ty(l).ok().map(|t| self.tyj(t)).unwrap_or(J::Null);
                let (x, y) = (self.op(x, l), self.op(y, l));
                a(vec![s("bin"), s(format!("{:?}", b)), x, y, xt])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let xt = x.ty(l).ok().map(|t| self.tyj(t)).unwrap_or(J::Null);
                let (x, y) = (self.op(x, l), self.op(y, l));
                a(vec![s("cbin"), s(format!("{:?}", b)), x, y, xt])
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(l).ok().map(|t| self.tyj(t)).unwrap_or(J::Null);
                let o = self.op(o, l);
                let t = self.tyj(*t);
                a(vec![s("cast"), s(format!("{:?}", k)), o, t, st])
            }
            Rvalue::Aggregate(k, os) => {
                let os: Vec<J> = os.iter().map(|o| self.op(o, l)).collect();
                let kj = match k {
                    AggregateKind::Array(_) => a(vec![s("array")]),
                    AggregateKind::Tuple => a(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let vn = d.variant(*v).map(|v| v.name().to_string()).unwrap_or_default();
                        a(vec![s("adt"), s(d.name()), n(v.to_index()), s(vn), af.map(|x| n(x)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, ga) => {
                        let iargs = internal(self.tcx, ga);
                        let ck = match iargs.as_closure().kind() {
                            rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                            rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                            rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                        };
                        let cks = format!("{:?}", ck);
                        let ik = match Instance::resolve_closure(*d, ga, ck) {
                            Ok(i) => s(self.inst(i)),
                            Err(_) => J::Null,
                        };
                        a(vec![s("closure"), s(d.name()), ik, s(cks)])
                    }
                    AggregateKind::RawPtr(..) => a(vec![s("rawptr")]),
                    _ => a(vec![s("other")]),
                };
                a(vec![s("agg"), kj, J::A(os)])
            }
        }
    }
    fn body(&mut self, b: &Body) -> J {
        let l = b.locals().to_vec();
        let locals = l.iter().map(|d| self.tyj(d.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p, &l);
                        let r = self.rvalue(r, &l);
                        let sp = self.span(&x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&l).ok().map(|t| self.tyj(t)).unwrap_or(J::Null);
                        let p = self.place(place, &l);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.to_index()), t]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(*l)])),
                    StatementKind::Intrinsic(_) => st.push(J::A(vec![s("intr")])),
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(*b),
                _ => J::Null,
            };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&l).ok().map(|t| self.tyj(t)).unwrap_or(J::Null);
                    let d = self.op(discr, &l);
                    let br = targets.branches().map(|(v, b)| J::A(vec![s(v.to_string()), n(b)])).collect();
                    J::A(vec![s("switch"), d, J::A(br), n(targets.otherwise()), dt])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(&l).ok().map(|t| self.tyj(t)).unwrap_or(J::Null);
                    let p = self.place(place, &l);
                    J::A(vec![s("drop"), p, n(*target), t, uw(unwind)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fj = match func.ty(&l).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => {
                            let gaj = self.args(&ga);
                            let mut o = vec![("name", s(d.name())), ("crate", s(d.krate().name)), ("args", gaj)];
                            match Instance::resolve(d, &ga) {
                                Ok(i) => {
                                    let k = self.inst(i);
                                    o.push(("inst", s(k)));
                                }
                                Err(_) => {}
                            }
                            J::O(o)
                        }
                        _ => {
                            let f = self.op(func, &l);
                            J::O(vec![("indirect", f)])
                        }
                    };
                    let aj = args.iter().map(|x| self.op(x, &l)).collect();
                    let d = self.place(destination, &l);
                    J::A(vec![s("call"), fj, J::A(aj), d, target.map(|t| n(t)).unwrap_or(J::Null), uw(unwind)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, &l);
                    let (k, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertMessage::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x, y]),
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                        AssertMessage::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("align".into(), vec![]),
                        AssertMessage::NullPointerDereference => ("null".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    let ops = ops.into_iter().map(|o| self.op(o, &l)).collect();
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(ops), n(*target)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("sp", sp)]));
        }
        let mut vars = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p, &l);
                vars.push(J::A(vec![s(v.name.to_string()), p]));
            }
        }
        let sp = self.span(&b.span);
        J::O(vec![
            ("locals", J::A(locals)),
            ("argc", n(b.arg_locals().len())),
            ("spread", b.spread_arg().map(|x| n(x)).unwrap_or(J::Null)),
            ("blocks", J::A(blocks)),
            ("vars", J::A(vars)),
            ("sp", sp),
        ])
    }
    fn process(&mut self, i: Instance, k: String) {
        let name = i.name().to_string();
        let def = i.def;
        let dname = def.name().to_string();
        let krate = def.krate().name.to_string();
        let local = def.krate().is_local;
        let iname = i.intrinsic_name().map(|x| x.to_string());
        let go = local || i.kind == InstanceKind::Shim || self.descend.iter().any(|p| dname.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let did = internal(self.tcx, def.def_id());
        let mut o: Vec<(&'static str, J)> = vec![
            ("name", s(name)),
            ("def", s(dname)),
            ("crate", s(krate)),
            ("local", J::B(local)),
            ("kind", s(format!("{:?}", i.kind))),
        ];
        if let Some(x) = iname {
            o.push(("intrinsic", s(x)));
        }
        let a = i.args();
        let aj = self.args(&a);
        o.push(("args", aj));
        if i.is_empty_shim() {
            o.push(("empty_shim", J::B(true)));
        }
        if local {
            let vis = self.tcx.visibility(did).is_public();
            o.push(("pub", J::B(vis)));
            if let Some(ld) = did.as_local() {
                let ev = self.tcx.effective_visibilities(());
                o.push(("reachable", J::B(ev.is_reachable(ld))));
                o.push(("exported", J::B(ev.is_exported(ld))));
            }
            let sp = self.span(&def.span());
            o.push(("span", sp));
            let is_fn = matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn);
            o.push(("is_fn", J::B(is_fn)));
        }
        if go && i.has_body() && !i.is_empty_shim() {
            if let Some(b) = i.body() {
                let bj = self.body(&b);
                o.push(("body", bj));
            }
        }
        self.insts.insert(k, J::O(o));
    }
}
fn a2(x: &str, y: J) -> J {
    J::A(vec![s(x), y])
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let descend = std::env::var("MIRDUMP_DESCEND").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    let mut cx = Cx {
        tcx,
        tys: vec![],
        ty_ids: HashMap::new(),
        ty_todo: VecDeque::new(),
        insts: BTreeMap::new(),
        inst_keys: HashMap::new(),
        todo: VecDeque::new(),
        statics: vec![],
        seen_statics: Default::default(),
        descend,
    };
    let mut roots = vec![];
    let str_ty = Ty::new_ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), Mutability::Not);
    let mut skipped = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if !it.requires_monomorphization() {
                    if let Ok(i) = Instance::try_from(it) {
                        let k = cx.inst(i);
                        roots.push((it.name().to_string(), k));
                    }
                } else if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                    // generic function: instantiate every type parameter with &str when the
                    // bounds allow it
                    let did = internal(tcx, it.def_id());
                    let nargs = tcx.generics_of(did);
                    let mut ok = true;
                    let mut v = vec![];
                    for idx in 0..nargs.count() {
                        let p = nargs.param_at(idx, tcx);
                        match p.kind {
                            rustc_middle::ty::GenericParamDefKind::Lifetime => v.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })),
                            rustc_middle::ty::GenericParamDefKind::Type { .. } => {
                                if p.name.as_str() == "Self" { ok = false; }
                                v.push(GenericArgKind::Type(str_ty))
                            }
                            _ => ok = false,
                        }
                    }
                    if ok {
                        let ga = GenericArgs(v);
                        let iga = internal(tcx, &ga);
                        ok = !tcx.instantiate_and_check_impossible_clauses((did, iga));
                        if ok {
                            if let Ok(i) = Instance::resolve(d, &ga) {
                                let k = cx.inst(i);
                                roots.push((it.name().to_string(), k));
                                continue;
                            }
                        }
                    }
                    skipped.push(s(it.name()));
                } else {
                    skipped.push(s(it.name()));
                }
            }
            ItemKind::Static => {
                let name = it.name().to_string();
                let d: Result<mono::StaticDef, _> = it.try_into();
                if let Ok(d) = d {
                    let t = d.ty();
                    let v = match d.eval_initializer() {
                        Ok(a) => cx.decode(&a, 0, t, 0),
                        Err(_) => J::Null,
                    };
                    let tj = cx.tyj(t);
                    let did = internal(tcx, d.def_id());
                    let m = tcx.is_mutable_static(did);
                    if cx.seen_statics.insert(name.clone()) {
                        cx.statics.push((name, J::O(vec![("t", tj), ("v", v), ("mut", J::B(m))])));
                    }
                }
            }
            _ => {}
        }
    }
    // trait impls of local traits (for dyn dispatch)
    let mut impls = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let tr = im.trait_impl();
        let v = &tr.value;
        let tname = v.def_id.name().to_string();
        let mut ms = vec![];
        for item in im.associated_items() {
            if let AssocKind::Fn { name, .. } = &item.kind {
                ms.push((name.to_string(), s(item.def_id.name().to_string())));
            }
        }
        let selft = cx.tyj(v.self_ty());
        impls.push(J::O(vec![("trait", s(tname)), ("self", selft), ("methods", J::M(ms))]));
    }
    while let Some((i, k)) = cx.todo.pop_front() {
        cx.process(i, k);
        if cx.todo.is_empty() {
            cx.flush_types();
        }
    }
    cx.flush_types();
    let tys = std::mem::take(&mut cx.tys);
    let insts = std::mem::take(&mut cx.insts);
    let statics = std::mem::take(&mut cx.statics);
    let doc = J::O(vec![
        ("crate", s(rustc_public::local_crate().name)),
        ("roots", J::A(roots.into_iter().map(|(a, b)| J::A(vec![s(a), s(b)])).collect())),
        ("skipped", J::A(skipped)),
        ("impls", J::A(impls)),
        ("statics", J::M(statics)),
        ("types", J::A(tys)),
        ("instances", J::M(insts.into_iter().collect())),
    ]);
    let mut o = String::new();
    doc.w(&mut o);
    std::fs::write(&out, o).unwrap();
    ControlFlow::Continue(())
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes: <wrapper> <rustc> args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or("rlibphonenumber".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target)
        && !args.iter().any(|a| a == "--test");
    if !is_target {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    let r = run_with_tcx!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) => std::process::exit(0),
        _ => std::process::exit(1),
    }
}
