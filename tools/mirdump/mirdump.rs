// A rustc driver which writes the monomorphised MIR of the crate being compiled (and of the small
// library functions it reaches) as JSON. It is used as RUSTC_WORKSPACE_WRAPPER; nothing of the
// analysed crate is ever run.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", k).unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

/// The value of a discriminant; its bits are sign-extended if it's signed.
fn discr_value(d: &rustc_public::ty::Discr) -> J {
    let bits = match d.ty.kind().rigid() {
        Some(RigidTy::Int(i)) => 8 * i.num_bytes() as u32,
        _ => 128,
    };
    J::I(((d.val << (128 - bits)) as i128) >> (128 - bits))
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

fn ty_str(ty: Ty) -> String {
    match ty.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => "bool".into(),
            RigidTy::Char => "char".into(),
            RigidTy::Int(i) => format!("{:?}", i).to_lowercase(),
            RigidTy::Uint(i) => format!("{:?}", i).to_lowercase(),
            RigidTy::Float(i) => format!("{:?}", i).to_lowercase(),
            RigidTy::Adt(d, a) => format!("{}{}", d.name(), args_str(&a)),
            RigidTy::Foreign(d) => format!("{}", d.name()),
            RigidTy::Str => "str".into(),
            RigidTy::Array(t, c) => {
                format!("[{}; {}]", ty_str(t), c.eval_target_usize().map_or("?".into(), |v| v.to_string()))
            }
            RigidTy::Pat(t, _) => ty_str(t),
            RigidTy::Slice(t) => format!("[{}]", ty_str(t)),
            RigidTy::RawPtr(t, m) => {
                format!("*{} {}", if m == Mutability::Mut { "mut" } else { "const" }, ty_str(t))
            }
            RigidTy::Ref(_, t, m) => {
                format!("&{}{}", if m == Mutability::Mut { "mut " } else { "" }, ty_str(t))
            }
            RigidTy::FnDef(d, a) => format!("fn#{}{}", d.name(), args_str(&a)),
            RigidTy::FnPtr(_) => "fnptr".into(),
            RigidTy::Closure(d, _) => format!("closure#{}", d.name()),
            RigidTy::Never => "!".into(),
            RigidTy::Tuple(v) => {
                format!("({})", v.iter().map(|t| ty_str(*t)).collect::<Vec<_>>().join(", "))
            }
            RigidTy::Dynamic(..) => "dyn".into(),
            _ => "other".into(),
        },
        k => format!("?{:?}", k),
    }
}

fn args_str(a: &GenericArgs) -> String {
    let v: Vec<String> = a
        .0
        .iter()
        .filter_map(|k| match k {
            GenericArgKind::Type(t) => Some(ty_str(*t)),
            GenericArgKind::Const(c) => {
                Some(c.eval_target_usize().map_or("?".into(), |v| v.to_string()))
            }
            _ => None,
        })
        .collect();
    if v.is_empty() {
        String::new()
    } else {
        format!("<{}>", v.join(", "))
    }
}

struct Dump {
    queue: VecDeque<Instance>,
    ids: HashMap<Instance, usize>,
    names: Vec<J>,
    adts: BTreeMap<String, J>,
}

const DESCEND: &[&str] = &[
    "core::option::", "core::result::", "core::ops::function::", "core::convert::", "core::cmp::",
    "core::mem::", "core::num::", "core::bool::", "core::clone::", "core::default::",
    "core::ops::try_trait", "core::ops::control_flow", "core::tuple::", "core::array::",
    "std::option::", "std::result::", "std::ops::", "std::convert::", "std::cmp::", "std::mem::",
    "std::clone::", "std::default::", "std::bool::", "std::num::",
    "<std::option::", "<std::result::", "<std::ops::", "<core::", "<std::cmp::",
    "<T as ", "<U as ", "<F as ", "<A as ", "<u", "<i", "<bool", "<char", "<(", "<&", "goblin::",
    "<goblin::",
];

impl Dump {
    fn id(&mut self, i: Instance) -> usize {
        if let Some(x) = self.ids.get(&i) {
            return *x;
        }
        let id = self.names.len();
        self.ids.insert(i, id);
        self.names.push(J::Null);
        self.queue.push_back(i);
        id
    }

    fn adt(&mut self, d: AdtDef) -> String {
        let name = format!("{}", d.name());
        if !self.adts.contains_key(&name) {
            self.adts.insert(name.clone(), J::Null);
            let is_enum = d.kind() == AdtKind::Enum;
            let vs = d
                .variants()
                .iter()
                .map(|v| {
                    let discr = if is_enum {
                        discr_value(&d.discriminant_for_variant(v.idx()))
                    } else {
                        J::I(0)
                    };
                    J::A(vec![
                        s(format!("{}", v.name())),
                        discr,
                        J::A(v.fields().iter().map(|f| s(format!("{}", f.name))).collect()),
                    ])
                })
                .collect();
            let kind = match d.kind() {
                AdtKind::Enum => "enum",
                AdtKind::Union => "union",
                AdtKind::Struct => "struct",
            };
            self.adts.insert(name.clone(), J::O(vec![("kind", s(kind)), ("variants", J::A(vs))]));
        }
        name
    }

    fn note_ty(&mut self, ty: Ty) -> String {
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
            self.adt(d);
        }
        ty_str(ty)
    }

    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> J {
        let mut ty = locals[p.local].ty;
        let mut variant: Option<VariantIdx> = None;
        let mut out = vec![n(p.local)];
        for e in &p.projection {
            let next = e.ty(ty);
            match e {
                ProjectionElem::Deref => out.push(J::A(vec![s("*")])),
                ProjectionElem::Field(i, _) => {
                    let name = match ty.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                            self.adt(d);
                            let v = variant.unwrap_or_else(|| d.variants()[0].idx());
                            format!("{}", d.variant(v).unwrap().fields()[*i].name)
                        }
                        _ => i.to_string(),
                    };
                    out.push(J::A(vec![s("f"), s(name), n(*i)]));
                }
                ProjectionElem::Index(l) => out.push(J::A(vec![s("i"), n(*l)])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(J::A(vec![s("c"), n(*offset as usize), J::B(*from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => out.push(J::A(vec![
                    s("s"),
                    n(*from as usize),
                    n(*to as usize),
                    J::B(*from_end),
                ])),
                ProjectionElem::Downcast(v) => {
                    let name = match ty.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                            self.adt(d);
                            format!("{}", d.variant(*v).unwrap().name())
                        }
                        _ => String::new(),
                    };
                    out.push(J::A(vec![s("v"), s(name)]));
                }
                _ => out.push(J::A(vec![s("?")])),
            }
            if let ProjectionElem::Downcast(v) = e {
                variant = Some(*v);
            } else {
                variant = None;
                if let Ok(t) = next {
                    ty = t;
                }
            }
        }
        J::A(out)
    }

    fn alloc(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> J {
        let fail = || J::O(vec![("k", s("opaque")), ("ty", s(ty_str(ty)))]);
        if depth > 8 {
            return fail();
        }
        let read = |off: usize, len: usize| -> Option<u128> {
            a.read_partial_uint(off..off + len).ok()
        };
        let shape = match ty.layout() {
            Ok(l) => l.shape(),
            Err(_) => return fail(),
        };
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = ty.kind() else { return fail() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match read(off, size) {
                Some(v) => J::O(vec![("k", s("int")), ("v", J::I(v as i128)), ("ty", s(ty_str(ty)))]),
                None => fail(),
            },
            RigidTy::Int(_) => match read(off, size) {
                Some(v) => {
                    let bits = size * 8;
                    let v = if bits < 128 && v >> (bits - 1) & 1 == 1 {
                        v as i128 - (1i128 << bits)
                    } else {
                        v as i128
                    };
                    J::O(vec![("k", s("int")), ("v", J::I(v)), ("ty", s(ty_str(ty)))])
                }
                None => fail(),
            },
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    if let TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) = inner.kind() {
                        if read(off + 8, 8) == Some(0) {
                            return J::O(vec![("k", s("ref")), ("v", J::O(vec![("k", s("arr")), ("v", J::A(vec![]))]))]);
                        }
                    }
                    return fail();
                };
                let inner_off = read(off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = read(off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> = m.bytes[inner_off..inner_off + len]
                                .iter()
                                .map(|b| b.unwrap_or(0))
                                .collect();
                            J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(&bytes)))])
                        }
                        TyKind::RigidTy(RigidTy::Slice(t)) => {
                            let len = read(off + 8, 8).unwrap_or(0) as usize;
                            let st = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v = (0..len)
                                .map(|i| self.alloc(&m, inner_off + i * st, t, depth + 1))
                                .collect();
                            J::O(vec![
                                ("k", s("ref")),
                                ("v", J::O(vec![("k", s("arr")), ("v", J::A(v))])),
                            ])
                        }
                        _ => J::O(vec![
                            ("k", s("ref")),
                            ("v", self.alloc(&m, inner_off, inner, depth + 1)),
                        ]),
                    },
                    GlobalAlloc::Static(d) => {
                        J::O(vec![("k", s("static")), ("v", s(format!("{}", d.name())))])
                    }
                    _ => fail(),
                }
            }
            RigidTy::Array(t, c) => {
                let len = c.eval_target_usize().unwrap_or(0) as usize;
                let st = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = (0..len).map(|i| self.alloc(a, off + i * st, t, depth + 1)).collect();
                J::O(vec![("k", s("arr")), ("v", J::A(v))])
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return J::O(vec![("k", s("tup")), ("v", J::A(vec![]))]);
                };
                let v = ts
                    .iter()
                    .zip(offsets.iter())
                    .map(|(t, o)| self.alloc(a, off + o.bytes(), *t, depth + 1))
                    .collect();
                J::O(vec![("k", s("tup")), ("v", J::A(v))])
            }
            RigidTy::Adt(d, args) => {
                let name = self.adt(d);
                let (idx, offsets) = match &shape.variants {
                    VariantsShape::Single { index } => match &shape.fields {
                        FieldsShape::Arbitrary { offsets } => (*index, offsets.clone()),
                        _ => (*index, vec![]),
                    },
                    VariantsShape::Multiple { tag_encoding, tag_field, variants, .. } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return fail() };
                        let toff = offsets[*tag_field].bytes();
                        match tag_encoding {
                            rustc_public::abi::TagEncoding::Direct => {
                                let mut found = None;
                                for (i, v) in d.variants().iter().enumerate() {
                                    let val = d.discriminant_for_variant(v.idx()).val;
                                    for len in [1usize, 2, 4, 8] {
                                        if toff + len <= size && (len == size || len == size - toff || len == 1 || len == 4 || len == 8) {
                                            if found.is_none() && read(off + toff, len) == Some(val) && len == tag_len(&shape) {
                                                found = Some((v.idx(), i));
                                            }
                                        }
                                    }
                                }
                                match found {
                                    Some((idx, i)) => (idx, variants[i].offsets.clone()),
                                    None => return fail(),
                                }
                            }
                            rustc_public::abi::TagEncoding::Niche {
                                untagged_variant,
                                niche_variants,
                                niche_start,
                            } => {
                                let len = tag_len(&shape);
                                let ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let mut idx = *untagged_variant;
                                if !ptr {
                                    let Some(v) = read(off + toff, len) else { return fail() };
                                    let bits = len as u32 * 8;
                                    let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo {
                                        let want = (lo + rel) as usize;
                                        match d.variants().iter().find(|v| v.idx().to_index() == want) {
                                            Some(v) => idx = v.idx(),
                                            None => return fail(),
                                        }
                                    }
                                }
                                (idx, variants[idx.to_index()].offsets.clone())
                            }
                        }
                    }
                    _ => return fail(),
                };
                let var = d.variant(idx).unwrap();
                let v = var
                    .fields()
                    .iter()
                    .zip(offsets.iter())
                    .map(|(f, o)| {
                        J::A(vec![
                            s(format!("{}", f.name)),
                            self.alloc(a, off + o.bytes(), f.ty_with_args(&args), depth + 1),
                        ])
                    })
                    .collect();
                J::O(vec![
                    ("k", s("adt")),
                    ("adt", s(name)),
                    ("variant", s(format!("{}", var.name()))),
                    ("v", J::A(v)),
                ])
            }
            RigidTy::FnDef(d, args) => self.fn_const(d, &args),
            _ => fail(),
        }
    }

    fn fn_const(&mut self, d: FnDef, args: &GenericArgs) -> J {
        let mut o = vec![("k", s("fn")), ("name", s(format!("{}{}", d.name(), args_str(args))))];
        o.push(("def", s(format!("{}", d.name()))));
        o.push(("args", J::A(args.0.iter().filter_map(|k| k.ty().map(|t| s(ty_str(*t)))).collect())));
        if let Ok(i) = Instance::resolve(d, args) {
            o.push(("inst", n(self.id(i))));
        }
        J::O(o)
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => match ty.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, args)) => self.fn_const(d, &args),
                TyKind::RigidTy(RigidTy::Closure(d, args)) => self.closure(d, &args, vec![]),
                TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                    let name = self.adt(d);
                    let var = d.variants().first().map(|v| format!("{}", v.name())).unwrap_or_default();
                    J::O(vec![("k", s("adt")), ("adt", s(name)), ("variant", s(var)), ("v", J::A(vec![]))])
                }
                TyKind::RigidTy(RigidTy::Tuple(_)) => J::O(vec![("k", s("tup")), ("v", J::A(vec![]))]),
                TyKind::RigidTy(RigidTy::Array(..)) => J::O(vec![("k", s("arr")), ("v", J::A(vec![]))]),
                _ => J::O(vec![("k", s("opaque")), ("ty", s(ty_str(ty)))]),
            },
            ConstantKind::Allocated(a) => self.alloc(a, 0, ty, 0),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.alloc(a, 0, *ty, 0),
                TyConstKind::ZSTValue(_) => J::O(vec![("k", s("tup")), ("v", J::A(vec![]))]),
                _ => J::O(vec![("k", s("opaque")), ("ty", s(ty_str(ty)))]),
            },
            _ => J::O(vec![("k", s("opaque")), ("ty", s(ty_str(ty)))]),
        }
    }

    fn closure(&mut self, d: ClosureDef, args: &GenericArgs, ops: Vec<J>) -> J {
        let inst = Instance::resolve_closure(d, args, ClosureKind::FnOnce)
            .ok()
            .map(|_| ())
            .and_then(|_| Instance::resolve_closure(d, args, ClosureKind::FnMut).ok());
        // the body of the closure itself, not the by-value shim
        let fn_inst = Instance::resolve_closure(d, args, ClosureKind::Fn).ok();
        let mut best = None;
        for i in [fn_inst, inst].into_iter().flatten() {
            if matches!(i.kind, InstanceKind::Item) {
                best = Some(i);
                break;
            }
        }
        if best.is_none() {
            if let Ok(i) = Instance::resolve_closure(d, args, ClosureKind::FnOnce) {
                best = Some(i);
            }
        }
        let id = best.map_or(J::Null, |i| n(self.id(i)));
        J::O(vec![("k", s("closure")), ("name", s(format!("{}", d.name()))), ("inst", id), ("ops", J::A(ops))])
    }

    fn operand(&mut self, o: &Operand, locals: &[LocalDecl]) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, locals))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, locals))]),
            Operand::Constant(c) => {
                let v = self.constant(&c.const_);
                J::O(vec![("k", s("const")), ("c", v), ("ty", s(ty_str(c.const_.ty())))])
            }
            Operand::RuntimeChecks(c) => J::O(vec![("k", s("rtc")), ("c", s(format!("{:?}", c)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        let o = |this: &mut Self, x: &Operand| this.operand(x, locals);
        match r {
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p, locals)]),
            Rvalue::Aggregate(k, ops) => {
                let vals: Vec<J> = ops.iter().map(|x| o(self, x)).collect();
                match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), J::A(vals), s(ty_str(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple"), J::A(vals)]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let name = self.adt(*d);
                        let var = d.variant(*v).unwrap();
                        let mut fields: Vec<J> =
                            var.fields().iter().map(|f| s(format!("{}", f.name))).collect();
                        if let Some(f) = f {
                            let keep = fields.swap_remove(*f);
                            fields = vec![keep];
                        }
                        J::A(vec![
                            s("adt"),
                            s(name),
                            s(format!("{}", var.name())),
                            J::A(fields),
                            J::A(vals),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        J::A(vec![s("closure"), self.closure(*d, a, vals)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr"), J::A(vals)]),
                    _ => J::A(vec![s("unknown")]),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(ty_str).unwrap_or_default();
                J::A(vec![s("bin"), s(format!("{:?}", op)), o(self, a), o(self, b), s(t)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(ty_str).unwrap_or_default();
                J::A(vec![s("cbin"), s(format!("{:?}", op)), o(self, a), o(self, b), s(t)])
            }
            Rvalue::Cast(k, a, t) => {
                let from = a.ty(locals).map(ty_str).unwrap_or_default();
                let v = o(self, a);
                // reified functions and closures keep what they refer to in the operand
                J::A(vec![s("cast"), s(format!("{:?}", k)), v, s(from), s(ty_str(*t))])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::O(vec![("k", s("copy")), ("p", self.place(p, locals))])])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.note_ty(t)).unwrap_or_default();
                J::A(vec![s("discr"), self.place(p, locals), s(t)])
            }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p, locals)]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(p, locals),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), J::B(*m == Mutability::Mut), self.place(p, locals)])
            }
            Rvalue::Repeat(a, c) => J::A(vec![
                s("repeat"),
                o(self, a),
                c.eval_target_usize().map_or(J::Null, |v| n(v as usize)),
            ]),
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(ty_str).unwrap_or_default();
                J::A(vec![s("un"), s(format!("{:?}", op)), o(self, a), s(t)])
            }
            Rvalue::Use(a, _) => J::A(vec![s("use"), o(self, a)]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("unknown")]),
        }
    }

    fn body(&mut self, b: &Body) -> Vec<(&'static str, J)> {
        let locals = b.locals().to_vec();
        let ltys = locals.iter().map(|l| s(self.note_ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p, &locals)]));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for st in &bb.statements {
                let line = n(st.source_info.span.get_lines().start_line);
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let t = r.ty(&locals).map(ty_str).unwrap_or_default();
                        stmts.push(J::A(vec![
                            line,
                            s("="),
                            self.place(p, &locals),
                            self.rvalue(r, &locals),
                            s(t),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&locals).unwrap();
                        let name = match t.kind() {
                            TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                                format!("{}", d.variant(*variant_index).unwrap().name())
                            }
                            _ => String::new(),
                        };
                        stmts.push(J::A(vec![line, s("setdiscr"), self.place(place, &locals), s(name)]));
                    }
                    StatementKind::Intrinsic(_) => stmts.push(J::A(vec![line, s("intrinsic")])),
                    StatementKind::StorageDead(l) => stmts.push(J::A(vec![line, s("dead"), n(*l)])),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let lines = t.source_info.span.get_lines();
            let unwind = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(*b),
                _ => J::Null,
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(ty_str).unwrap_or_default();
                    J::A(vec![
                        s("switch"),
                        self.operand(discr, &locals),
                        J::A(targets.branches().map(|(v, b)| J::A(vec![J::I(v as i128), n(b)])).collect()),
                        n(targets.otherwise()),
                        s(ty),
                    ])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind: u } => {
                    let ty = place.ty(&locals).map(ty_str).unwrap_or_default();
                    J::A(vec![s("drop"), self.place(place, &locals), n(*target), s(ty), unwind(u)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind: u } => {
                    let f = self.operand(func, &locals);
                    let a: Vec<J> = args.iter().map(|x| self.operand(x, &locals)).collect();
                    let tys: Vec<J> = args
                        .iter()
                        .map(|x| s(x.ty(&locals).map(ty_str).unwrap_or_default()))
                        .collect();
                    let rt = destination.ty(&locals).map(|t| self.note_ty(t)).unwrap_or_default();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination, &locals),
                        target.map_or(J::Null, |t| n(t)),
                        J::A(tys),
                        s(rt),
                        unwind(u),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind: u } => {
                    let m = match msg {
                        AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "div0".to_string(),
                        _ => "other".to_string(),
                    };
                    let extra = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            J::A(vec![self.operand(len, &locals), self.operand(index, &locals)])
                        }
                        _ => J::Null,
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(cond, &locals),
                        J::B(*expected),
                        s(m),
                        n(*target),
                        extra,
                        unwind(u),
                    ])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("unknown")]),
            };
            blocks.push(J::O(vec![("s", J::A(stmts)), ("t", term), ("line", n(lines.start_line))]));
        }
        vec![
            ("locals", J::A(ltys)),
            ("argc", n(b.arg_locals().len())),
            ("spread", b.spread_arg().map_or(J::Null, n)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn tag_len(shape: &rustc_public::abi::LayoutShape) -> usize {
    if let VariantsShape::Multiple { tag, .. } = &shape.variants {
        let t = match tag {
            rustc_public::abi::Scalar::Initialized { value, .. } => value,
            rustc_public::abi::Scalar::Union { value } => value,
        };
        return t.size(&rustc_public::target::MachineInfo::target()).bytes();
    }
    0
}

fn analyze(out: String) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let mut d = Dump { queue: VecDeque::new(), ids: HashMap::new(), names: vec![], adts: BTreeMap::new() };
    let mut generic = vec![];
    let mut hashing = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        match Instance::try_from(item) {
            Ok(i) => {
                d.id(i);
            }
            Err(_) => {
                generic.push(s(format!("{}", item.name())));
                hashing.push(item);
            }
        }
    }
    // implementations of Hash, for the hasher of the maps
    let hasher = rustc_public::find_crates("std").into_iter().flat_map(|c| c.fn_defs()).find_map(|f| {
        let n = format!("{}", f.name());
        if n.ends_with("DefaultHasher::new") {
            Some(f.fn_sig().skip_binder().output())
        } else {
            None
        }
    });
    for item in hashing {
        if let (Some(h), TyKind::RigidTy(RigidTy::FnDef(f, a))) = (hasher, item.ty().kind()) {
            if !format!("{}", f.name()).ends_with("::hash") {
                continue;
            }
            let args = a.0.iter().map(|k| match k {
                GenericArgKind::Type(t) if matches!(t.kind(), TyKind::Param(_)) => GenericArgKind::Type(h),
                k => k.clone(),
            });
            if let Ok(i) = Instance::resolve(f, &GenericArgs(args.collect())) {
                d.id(i);
            }
        }
    }
    let mut fns: Vec<(usize, J)> = vec![];
    while let Some(i) = d.queue.pop_front() {
        let id = d.ids[&i];
        let name = format!("{}", i.name());
        let def_krate = i.def.krate().name;
        let local = i.def.krate().is_local;
        let span = i.def.span();
        let (ty, args) = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(f, a)) => (format!("{}", f.name()), a),
            TyKind::RigidTy(RigidTy::Closure(f, a)) => (format!("{}", f.name()), a),
            _ => (name.clone(), GenericArgs(vec![])),
        };
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let is_closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let mut o = vec![
            ("id", n(id)),
            ("name", s(name.clone())),
            ("def", s(ty.clone())),
            ("args", J::A(args.0.iter().filter_map(|k| k.ty().map(|t| s(ty_str(*t)))).collect())),
            ("kind", s(kind)),
            ("closure", J::B(is_closure)),
            ("local", J::B(local)),
            ("crate", s(def_krate.to_string())),
            ("file", s(span.get_filename().to_string())),
            ("line", n(span.get_lines().start_line)),
        ];
        let descend = local
            || kind == "shim"
            || DESCEND.iter().any(|p| ty.starts_with(p) || name.starts_with(p))
            || def_krate.to_string() == "goblin";
        if descend && i.has_body() {
            if let Some(b) = i.body() {
                o.extend(d.body(&b));
            }
        }
        fns.push((id, J::O(o)));
    }
    fns.sort_by_key(|f| f.0);
    let root = J::O(vec![
        ("crate", s(krate.name.to_string())),
        ("fns", J::A(fns.into_iter().map(|f| f.1).collect())),
        ("generic", J::A(generic)),
        ("adts", J::A(d.adts.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect())),
    ]);
    let mut text = String::new();
    root.w(&mut text);
    std::fs::write(&out, text).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: mirdump /path/to/rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    let ty = args.iter().position(|a| a == "--crate-type").map(|i| args[i + 1].clone());
    let probe = args.iter().any(|a| a == "--test" || a.starts_with("--print"))
        || name.as_deref() == Some("___");
    let is_test = probe;
    match (dir, name, ty, is_test) {
        (Some(dir), Some(name), Some(ty), false) => {
            let out = format!("{}/{}.{}.json", dir, name, ty);
            let res = run!(&args, || analyze(out));
            if res.is_err() {
                std::process::exit(1);
            }
        }
        _ => {
            let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
            std::process::exit(st.code().unwrap_or(1));
        }
    }
}
