//! mirx: dumps the monomorphic MIR reachable from a set of root functions as JSON.
//!
//! Runs as RUSTC_WRAPPER. For every crate but the roots crate it behaves as plain rustc.
//! For the roots crate it walks, after analysis, the instance graph starting at every
//! function of that crate and writes MIRX_OUT. Bodies of functions of crates other than
//! diffy/diffy_roots are included only if their path matches a prefix in MIRX_INLINE.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod json;
use json::J;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CompilerError, CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Ctx {
    types: HashMap<Ty, usize>,
    type_out: Vec<J>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    keys: HashMap<Instance, String>,
    inline: Vec<String>,
}

fn norm(ty: Ty) -> Ty {
    rustc_middle::ty::tls::with(|tcx| {
        let t = rustc_public::rustc_internal::internal(tcx, ty);
        let t = tcx.erase_and_anonymize_regions(t);
        match tcx.try_normalize_erasing_regions(
            rustc_middle::ty::TypingEnv::fully_monomorphized(),
            rustc_middle::ty::Unnormalized::new_wip(t),
        ) {
            Ok(t) => rustc_public::rustc_internal::stable(t),
            Err(_) => ty,
        }
    })
}

impl Ctx {
    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(J::N(self.ty(*t) as i128)),
                GenericArgKind::Const(c) => v.push(J::S(format!("{:?}", c))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> J {
        let mut o = J::obj();
        o.set("decl", J::S(def.name()));
        match Instance::resolve(def, args) {
            Ok(i) => {
                let k = self.inst(i);
                o.set("key", J::S(k));
            }
            Err(_) => {}
        }
        o.set("args", self.args(args));
        o
    }

    fn inst(&mut self, i: Instance) -> String {
        if let Some(k) = self.keys.get(&i) {
            return k.clone();
        }
        let k = i.mangled_name();
        let k = match i.kind {
            InstanceKind::Item => k,
            InstanceKind::Intrinsic => format!("intrinsic:{}", k),
            InstanceKind::Virtual { idx } => format!("virtual{}:{}", idx, k),
            InstanceKind::Shim => format!("shim:{}", k),
            #[allow(unreachable_patterns)]
            _ => format!("other:{}", k),
        };
        self.keys.insert(i, k.clone());
        if self.seen.insert(k.clone()) {
            self.queue.push_back(i);
        }
        k
    }

    /// Trait methods of a local type which std code may call without a body of ours showing it.
    fn impls(&mut self, ty: Ty) -> Vec<(&'static str, String)> {
        let found: Vec<(&'static str, Instance)> = rustc_middle::ty::tls::with(|tcx| {
            let t = rustc_public::rustc_internal::internal(tcx, ty);
            let mut v = vec![];
            let li = tcx.lang_items();
            for (n, did) in [("next", li.next_fn()), ("clone", li.clone_fn())] {
                let Some(did) = did else { continue };
                let args = tcx.mk_args(&[t.into()]);
                if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(
                    tcx,
                    rustc_middle::ty::TypingEnv::fully_monomorphized(),
                    did,
                    args,
                ) {
                    v.push((n, rustc_public::rustc_internal::stable(i)));
                }
            }
            v
        });
        found.into_iter().map(|(n, i)| (n, self.inst(i))).collect()
    }

    fn ty(&mut self, ty0: Ty) -> usize {
        let ty = norm(ty0);
        if let Some(i) = self.types.get(&ty) {
            let i = *i;
            self.types.insert(ty0, i);
            return i;
        }
        let id = self.type_out.len();
        self.types.insert(ty, id);
        self.types.insert(ty0, id);
        self.type_out.push(J::Null);
        let mut o = J::obj();
        o.set("s", J::S(format!("{}", ty)));
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.set("k", J::s("bool")),
                RigidTy::Char => o.set("k", J::s("char")),
                RigidTy::Int(t) => {
                    o.set("k", J::s("int"));
                    o.set("bits", J::N(t.num_bytes() as i128 * 8));
                }
                RigidTy::Uint(t) => {
                    o.set("k", J::s("uint"));
                    o.set("bits", J::N(t.num_bytes() as i128 * 8));
                }
                RigidTy::Str => o.set("k", J::s("str")),
                RigidTy::Never => o.set("k", J::s("never")),
                RigidTy::Slice(t) => {
                    o.set("k", J::s("slice"));
                    let e = self.ty(t);
                    o.set("elem", J::N(e as i128));
                }
                RigidTy::Array(t, n) => {
                    o.set("k", J::s("array"));
                    let e = self.ty(t);
                    o.set("elem", J::N(e as i128));
                    if let Ok(n) = n.eval_target_usize() {
                        o.set("len", J::N(n as i128));
                    }
                }
                RigidTy::Ref(_, t, m) => {
                    o.set("k", J::s("ref"));
                    let e = self.ty(t);
                    o.set("to", J::N(e as i128));
                    o.set("mut", J::B(m == Mutability::Mut));
                }
                RigidTy::RawPtr(t, m) => {
                    o.set("k", J::s("ptr"));
                    let e = self.ty(t);
                    o.set("to", J::N(e as i128));
                    o.set("mut", J::B(m == Mutability::Mut));
                }
                RigidTy::Tuple(ts) => {
                    o.set("k", J::s("tuple"));
                    let mut v = vec![];
                    for t in ts {
                        v.push(J::N(self.ty(t) as i128));
                    }
                    o.set("elems", J::A(v));
                }
                RigidTy::FnDef(d, a) => {
                    o.set("k", J::s("fndef"));
                    let c = self.callee(d, &a);
                    o.set("callee", c);
                }
                RigidTy::Closure(d, a) => {
                    o.set("k", J::s("closure"));
                    o.set("name", J::S(d.name()));
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        // the body itself
                        let _ = i;
                    }
                    // the kind the closure itself has: try Fn, FnMut, FnOnce in order and keep
                    // the first that resolves to the item itself
                    for (n, k) in [("Fn", ClosureKind::Fn), ("FnMut", ClosureKind::FnMut), ("FnOnce", ClosureKind::FnOnce)] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                            if i.kind == InstanceKind::Item {
                                let key = self.inst(i);
                                o.set("key", J::S(key));
                                o.set("ck", J::s(n));
                                break;
                            }
                        }
                    }
                }
                RigidTy::Adt(d, a) => {
                    o.set("k", J::s("adt"));
                    o.set("name", J::S(d.name()));
                    o.set("krate", J::S(d.krate().name.to_string()));
                    let ar = self.args(&a);
                    o.set("args", ar);
                    o.set(
                        "ak",
                        J::s(match d.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                    );
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut vo = J::obj();
                        vo.set("name", J::S(v.name()));
                        if d.kind() == AdtKind::Enum {
                            let dv = d.discriminant_for_variant(VariantIdx::to_val(v.idx().to_index()));
                            vo.set("discr", J::N(dv.val as i128));
                        }
                        let mut fs = vec![];
                        for f in v.fields() {
                            let mut fo = J::obj();
                            fo.set("name", J::S(f.name.to_string()));
                            let ft = f.ty_with_args(&a);
                            fo.set("ty", J::N(self.ty(ft) as i128));
                            fs.push(fo);
                        }
                        vo.set("fields", J::A(fs));
                        vs.push(vo);
                    }
                    o.set("variants", J::A(vs));
                    let kn = d.krate().name.to_string();
                    if kn == "diffy" || kn == "diffy_roots" {
                        for (n, key) in self.impls(ty) {
                            o.set(n, J::S(key));
                        }
                    }
                }
                RigidTy::Dynamic(..) => o.set("k", J::s("dyn")),
                RigidTy::FnPtr(_) => o.set("k", J::s("fnptr")),
                _ => o.set("k", J::s("other")),
            },
            _ => o.set("k", J::s("other")),
        }
        self.type_out[id] = o;
        id
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![J::N(p.local as i128)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![J::s("f"), J::N(*i as i128), J::N(self.ty(*t) as i128)]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::N(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::N(*offset as i128),
                    J::N(*min_length as i128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::N(*from as i128), J::N(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![J::s("d"), J::N(v.to_index() as i128)]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![J::s("oc")]),
            });
        }
        J::A(v)
    }

    fn decode(&mut self, ty: Ty, alloc: &Allocation, off: usize, depth: usize) -> J {
        let ty = norm(ty);
        if depth > 8 {
            return J::A(vec![J::s("opaque")]);
        }
        let rd = |n: usize| -> Option<u128> {
            let mut r: u128 = 0;
            for i in 0..n {
                let b = (*alloc.bytes.get(off + i)?)?;
                r |= (b as u128) << (8 * i);
            }
            Some(r)
        };
        let opaque = |s: &str| J::A(vec![J::s("opaque"), J::S(s.to_string())]);
        let TyKind::RigidTy(r) = ty.kind() else { return opaque("kind") };
        match r {
            RigidTy::Bool => match rd(1) {
                Some(v) => J::A(vec![J::s("bool"), J::B(v != 0)]),
                None => opaque("uninit"),
            },
            RigidTy::Char => match rd(4) {
                Some(v) => J::A(vec![J::s("int"), J::N(v as i128)]),
                None => opaque("uninit"),
            },
            RigidTy::Uint(t) => match rd(t.num_bytes()) {
                Some(v) => J::A(vec![J::s("int"), J::S(format!("{}", v))]),
                None => opaque("uninit"),
            },
            RigidTy::Int(t) => match rd(t.num_bytes()) {
                Some(v) => {
                    let b = t.num_bytes() * 8;
                    let s = if b < 128 && (v >> (b - 1)) & 1 == 1 { v as i128 - (1i128 << b) } else { v as i128 };
                    J::A(vec![J::s("int"), J::N(s)])
                }
                None => opaque("uninit"),
            },
            RigidTy::Ref(_, t, _) => {
                let Some((_, prov)) = alloc.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    // dangling reference to a ZST or an empty slice
                    let t = norm(t);
                    return match t.kind() {
                        TyKind::RigidTy(RigidTy::Slice(_)) => J::A(vec![J::s("slice"), J::A(vec![])]),
                        TyKind::RigidTy(RigidTy::Str) => J::A(vec![J::s("str"), J::S(String::new())]),
                        TyKind::RigidTy(RigidTy::Array(..)) => {
                            J::A(vec![J::s("ref"), J::A(vec![J::s("array"), J::A(vec![])])])
                        }
                        _ => opaque("ref without provenance"),
                    };
                };
                let base = rd(8).unwrap_or(0) as usize;
                let ga = GlobalAlloc::from(prov.0);
                let mem = match ga {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => {
                        let mutbl = format!("{}", s.name());
                        return J::A(vec![J::s("static"), J::S(mutbl)]);
                    }
                    _ => return opaque("global"),
                };
                let t = norm(t);
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = {
                            let mut r: u128 = 0;
                            for i in 0..8 {
                                r |= (alloc.bytes[off + 8 + i].unwrap_or(0) as u128) << (8 * i);
                            }
                            r as usize
                        };
                        let bytes: Vec<u8> = mem.bytes[base..base + n].iter().map(|b| b.unwrap_or(0)).collect();
                        J::A(vec![J::s("str"), J::S(String::from_utf8_lossy(&bytes).into_owned())])
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = {
                            let mut r: u128 = 0;
                            for i in 0..8 {
                                r |= (alloc.bytes[off + 8 + i].unwrap_or(0) as u128) << (8 * i);
                            }
                            r as usize
                        };
                        let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.decode(e, &mem, base + i * sz, depth + 1));
                        }
                        J::A(vec![J::s("slice"), J::A(v)])
                    }
                    _ => J::A(vec![J::s("ref"), self.decode(t, &mem, base, depth + 1)]),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(e, alloc, off + i * sz, depth + 1));
                }
                J::A(vec![J::s("array"), J::A(v)])
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = ty.layout() else { return opaque("layout") };
                let sh = l.shape();
                let mut v = vec![];
                if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
                    for (i, t) in ts.iter().enumerate() {
                        v.push(self.decode(*t, alloc, off + offsets[i].bytes(), depth + 1));
                    }
                }
                J::A(vec![J::s("tuple"), J::A(v)])
            }
            RigidTy::Adt(d, a) => {
                let Ok(l) = ty.layout() else { return opaque("layout") };
                let sh = l.shape();
                match d.kind() {
                    AdtKind::Struct => {
                        let mut v = vec![];
                        if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
                            let var = d.variants()[0];
                            for (i, f) in var.fields().iter().enumerate() {
                                v.push(self.decode(f.ty_with_args(&a), alloc, off + offsets[i].bytes(), depth + 1));
                            }
                        }
                        J::A(vec![J::s("adt"), J::N(0), J::A(v)])
                    }
                    AdtKind::Enum => self.decode_enum(ty, d, &a, alloc, off, depth),
                    _ => opaque("union"),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => J::A(vec![J::s("zst")]),
            _ => opaque("kind"),
        }
    }

    fn decode_enum(&mut self, ty: Ty, d: AdtDef, a: &GenericArgs, alloc: &Allocation, off: usize, depth: usize) -> J {
        use rustc_public::abi::*;
        let opaque = || J::A(vec![J::s("opaque"), J::s("enum")]);
        let Ok(l) = ty.layout() else { return opaque() };
        let sh = l.shape();
        let vidx = match &sh.variants {
            VariantsShape::Single { index } => index.to_index(),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: _ } => {
                let n = match tag {
                    Scalar::Initialized { value, .. } => match value {
                        Primitive::Int { length, .. } => length.bits() / 8,
                        Primitive::Pointer(_) => 8,
                        _ => return opaque(),
                    },
                    _ => return opaque(),
                };
                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return opaque() };
                let to = off + offsets[*tag_field].bytes();
                let mut v: u128 = 0;
                for i in 0..n {
                    match alloc.bytes.get(to + i) {
                        Some(Some(b)) => v |= (*b as u128) << (8 * i),
                        _ => return opaque(),
                    }
                }
                let isptr = alloc.provenance.ptrs.iter().any(|(o, _)| *o == to);
                match tag_encoding {
                    TagEncoding::Direct => {
                        let mut r = None;
                        for var in d.variants() {
                            let dv = d.discriminant_for_variant(VariantIdx::to_val(var.idx().to_index()));
                            let m = if n < 16 { (1u128 << (8 * n)) - 1 } else { u128::MAX };
                            if dv.val & m == v {
                                r = Some(var.idx().to_index());
                            }
                        }
                        match r {
                            Some(r) => r,
                            None => return opaque(),
                        }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if isptr {
                            untagged_variant.to_index()
                        } else {
                            let m = if n < 16 { (1u128 << (8 * n)) - 1 } else { u128::MAX };
                            let rel = v.wrapping_sub(*niche_start) & m;
                            let lo = niche_variants.start().to_index() as u128;
                            let hi = niche_variants.end().to_index() as u128;
                            if rel <= hi - lo {
                                (lo + rel) as usize
                            } else {
                                untagged_variant.to_index()
                            }
                        }
                    }
                }
            }
            _ => return opaque(),
        };
        let var = d.variants()[vidx];
        let mut v = vec![];
        if !var.fields().is_empty() {
            match &sh.variants {
                VariantsShape::Multiple { variants, .. } => {
                    for (i, f) in var.fields().iter().enumerate() {
                        let o = variants[vidx].offsets[i].bytes();
                        v.push(self.decode(f.ty_with_args(a), alloc, off + o, depth + 1));
                    }
                }
                _ => return opaque(),
            }
        }
        J::A(vec![J::s("adt"), J::N(vidx as i128), J::A(v)])
    }

    fn konst(&mut self, c: &ConstOperand) -> J {
        let ty = c.const_.ty();
        let mut o = J::obj();
        o.set("ty", J::N(self.ty(ty) as i128));
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(ty, &a, 0, 0)
            }
            ConstantKind::ZeroSized => J::A(vec![J::s("zst")]),
            k => J::A(vec![J::s("opaque"), J::S(format!("{:?}", k).chars().take(80).collect())]),
        };
        o.set("c", v);
        o
    }

    fn op(&mut self, x: &Operand) -> J {
        match x {
            Operand::Copy(p) => {
                let mut o = J::obj();
                o.set("cp", self.place(p));
                o
            }
            Operand::Move(p) => {
                let mut o = J::obj();
                o.set("mv", self.place(p));
                o
            }
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            o2 => {
                let mut o = J::obj();
                o.set("rt", J::S(format!("{:?}", o2)));
                o
            }
        }
    }

    fn rv(&mut self, r: &Rvalue) -> J {
        let mut v = vec![];
        match r {
            Rvalue::Use(o, ..) => {
                v.push(J::s("use"));
                v.push(self.op(o));
            }
            Rvalue::Repeat(o, n) => {
                v.push(J::s("repeat"));
                v.push(self.op(o));
                v.push(J::N(n.eval_target_usize().unwrap_or(0) as i128));
            }
            Rvalue::Ref(_, k, p) => {
                v.push(J::s("ref"));
                v.push(J::S(format!("{:?}", k)));
                v.push(self.place(p));
            }
            Rvalue::AddressOf(k, p) => {
                v.push(J::s("addr"));
                v.push(J::S(format!("{:?}", k)));
                v.push(self.place(p));
            }
            Rvalue::Len(p) => {
                v.push(J::s("len"));
                v.push(self.place(p));
            }
            Rvalue::Cast(k, o, t) => {
                v.push(J::s("cast"));
                v.push(J::S(format!("{:?}", k)));
                v.push(self.op(o));
                v.push(J::N(self.ty(*t) as i128));
            }
            Rvalue::BinaryOp(b, x, y) => {
                v.push(J::s("bin"));
                v.push(J::S(format!("{:?}", b)));
                v.push(self.op(x));
                v.push(self.op(y));
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                v.push(J::s("chk"));
                v.push(J::S(format!("{:?}", b)));
                v.push(self.op(x));
                v.push(self.op(y));
            }
            Rvalue::UnaryOp(u, x) => {
                v.push(J::s("un"));
                v.push(J::S(format!("{:?}", u)));
                v.push(self.op(x));
            }
            Rvalue::Discriminant(p) => {
                v.push(J::s("discr"));
                v.push(self.place(p));
            }
            Rvalue::CopyForDeref(p) => {
                v.push(J::s("use"));
                let mut o = J::obj();
                o.set("cp", self.place(p));
                v.push(o);
            }
            Rvalue::Aggregate(k, ops) => {
                v.push(J::s("agg"));
                let mut o = J::obj();
                match k {
                    AggregateKind::Array(_) => o.set("k", J::s("array")),
                    AggregateKind::Tuple => o.set("k", J::s("tuple")),
                    AggregateKind::Adt(d, vi, a, _, act) => {
                        o.set("k", J::s("adt"));
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone()));
                        o.set("ty", J::N(self.ty(t) as i128));
                        o.set("variant", J::N(vi.to_index() as i128));
                        if let Some(i) = act {
                            o.set("active", J::N(*i as i128));
                        }
                    }
                    AggregateKind::Closure(d, a) => {
                        o.set("k", J::s("closure"));
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone()));
                        o.set("ty", J::N(self.ty(t) as i128));
                    }
                    AggregateKind::RawPtr(t, _) => {
                        o.set("k", J::s("rawptr"));
                        o.set("ty", J::N(self.ty(*t) as i128));
                    }
                    _ => o.set("k", J::s("other")),
                }
                v.push(o);
                let mut os = vec![];
                for x in ops {
                    os.push(self.op(x));
                }
                v.push(J::A(os));
            }
            x => {
                v.push(J::s("other"));
                v.push(J::S(format!("{:?}", x)));
            }
        }
        J::A(v)
    }

    fn span(&mut self, s: &Span) -> J {
        let l = s.get_lines();
        J::A(vec![J::S(s.get_filename()), J::N(l.start_line as i128)])
    }

    fn body(&mut self, b: &Body) -> J {
        let mut o = J::obj();
        o.set("argc", J::N(b.arg_locals().len() as i128));
        let mut ls = vec![];
        for l in b.locals() {
            ls.push(J::N(self.ty(l.ty) as i128));
        }
        o.set("locals", J::A(ls));
        let mut names = BTreeMap::new();
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.insert(p.local, d.name.to_string());
                }
            }
        }
        let mut no = J::obj();
        for (k, v) in names {
            no.set(&format!("{}", k), J::S(v));
        }
        o.set("names", no);
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut bo = J::obj();
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = self.span(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r);
                        ss.push(J::A(vec![J::s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(J::A(vec![J::s("sd"), p, J::N(variant_index.to_index() as i128), sp]));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(J::A(vec![J::s("dead"), J::N(*l as i128), J::Null, J::Null]));
                    }
                    StatementKind::StorageLive(_)
                    | StatementKind::Nop
                    | StatementKind::FakeRead(..)
                    | StatementKind::PlaceMention(..)
                    | StatementKind::AscribeUserType { .. }
                    | StatementKind::ConstEvalCounter => {}
                    StatementKind::Intrinsic(i) => {
                        ss.push(J::A(vec![J::s("intr"), J::S(format!("{:?}", i)), J::Null, sp]));
                    }
                    #[allow(unreachable_patterns)]
                    _ => {}
                }
            }
            bo.set("s", J::A(ss));
            let t = &bb.terminator;
            let sp = self.span(&t.source_info.span);
            let mut to = J::obj();
            to.set("sp", sp);
            match &t.kind {
                TerminatorKind::Goto { target } => {
                    to.set("k", J::s("goto"));
                    to.set("t", J::N(*target as i128));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    to.set("k", J::s("switch"));
                    to.set("d", self.op(discr));
                    let mut v = vec![];
                    for (val, bb) in targets.branches() {
                        v.push(J::A(vec![J::S(format!("{}", val)), J::N(bb as i128)]));
                    }
                    to.set("br", J::A(v));
                    to.set("else", J::N(targets.otherwise() as i128));
                }
                TerminatorKind::Return => to.set("k", J::s("return")),
                TerminatorKind::Unreachable => to.set("k", J::s("unreachable")),
                TerminatorKind::Resume => to.set("k", J::s("resume")),
                TerminatorKind::Abort => to.set("k", J::s("abort")),
                TerminatorKind::Drop { place, target, .. } => {
                    to.set("k", J::s("drop"));
                    let dt = place.ty(b.locals());
                    to.set("p", self.place(place));
                    if let Ok(dt) = dt {
                        to.set("ty", J::N(self.ty(dt) as i128));
                    }
                    to.set("t", J::N(*target as i128));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    to.set("k", J::s("call"));
                    let ft = func.ty(b.locals());
                    let mut done = false;
                    if let Ok(ft) = ft {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
                            let c = self.callee(d, &a);
                            to.set("f", c);
                            done = true;
                        }
                    }
                    if !done {
                        let f = self.op(func);
                        to.set("fp", f);
                    }
                    let mut v = vec![];
                    for x in args {
                        v.push(self.op(x));
                    }
                    to.set("a", J::A(v));
                    to.set("dst", self.place(destination));
                    match target {
                        Some(t) => to.set("t", J::N(*t as i128)),
                        None => to.set("t", J::Null),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    to.set("k", J::s("assert"));
                    to.set("c", self.op(cond));
                    to.set("e", J::B(*expected));
                    let m = format!("{:?}", msg);
                    to.set("m", J::S(m.split(|c: char| !c.is_alphanumeric() && c != '(').next().unwrap_or("").to_string()));
                    to.set("t", J::N(*target as i128));
                }
                x => {
                    to.set("k", J::s("other"));
                    to.set("x", J::S(format!("{:?}", x)));
                }
            }
            bo.set("t", to);
            bbs.push(bo);
        }
        o.set("bb", J::A(bbs));
        o
    }

    fn want_body(&self, name: &str, krate: &str) -> bool {
        if krate == "diffy" || krate == "diffy_roots" {
            return true;
        }
        let stop: Vec<&String> = self.inline.iter().filter(|p| p.starts_with('!')).collect();
        if stop.iter().any(|p| name.starts_with(&p[1..])) {
            return false;
        }
        self.inline.iter().any(|p| !p.starts_with('!') && name.starts_with(p.as_str()))
    }
}

fn go() -> ControlFlow<()> {
    let out = std::env::var("MIRX_OUT").expect("MIRX_OUT");
    let inline: Vec<String> = std::env::var("MIRX_INLINE")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut cx = Ctx {
        types: HashMap::new(),
        type_out: vec![],
        queue: VecDeque::new(),
        seen: HashSet::new(),
        keys: HashMap::new(),
        inline,
    };
    let mut roots = J::obj();
    for it in rustc_public::all_local_items() {
        if it.kind() != rustc_public::ItemKind::Fn || it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let k = cx.inst(i);
            let n = it.name();
            roots.set(&n, J::S(k));
        }
    }
    let mut insts = J::obj();
    while let Some(i) = cx.queue.pop_front() {
        let k = cx.keys[&i].clone();
        let mut o = J::obj();
        let name = i.def.name();
        let krate = i.def.krate().name.to_string();
        o.set("name", J::S(name.clone()));
        o.set("inst", J::S(i.name()));
        o.set("krate", J::S(krate.clone()));
        o.set("kind", J::S(format!("{:?}", i.kind)));
        let a = i.args();
        o.set("args", cx.args(&a));
        let sp = i.def.span();
        o.set("span", cx.span(&sp));
        let shim_ok = i.kind == InstanceKind::Item || (i.kind == InstanceKind::Shim);
        if shim_ok && cx.want_body(&name, &krate) {
            if let Some(b) = i.body() {
                let b = cx.body(&b);
                o.set("body", b);
            }
        }
        insts.set(&k, o);
    }
    let mut top = J::obj();
    top.set("roots", roots);
    let t = std::mem::take(&mut cx.type_out);
    top.set("types", J::A(t));
    top.set("insts", insts);
    let mut s = String::new();
    top.write(&mut s);
    std::fs::write(&out, s).expect("write MIRX_OUT");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_roots = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "diffy_roots");
    if is_roots {
        let r: Result<(), CompilerError<()>> = run!(&args, go);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let st = std::process::Command::new(std::env::var("MIRX_RUSTC").unwrap_or("rustc".into()))
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
