//! rustc driver: type-checks the crate it is asked to compile exactly as rustc would and writes the
//! resolved program (MIR with resolved callees, evaluated constants, types, items) as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use json::J;
use rustc_ast::attr::AttributeExt;
use rustc_abi::{FieldIdx, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::process::ExitCode;

fn obj(v: Vec<(&'static str, J)>) -> J {
    J::Obj(v)
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    queue: VecDeque<Instance<'tcx>>,
    inst_ids: HashMap<Instance<'tcx>, String>,
    names: HashSet<String>,
    const_depth: usize,
}

/// Standard-library functions whose own MIR the analyser inlines rather than models.
const STD_INLINE: &[&str] = &[
    "std::option::Option",
    "core::option::",
    "std::result::Result",
    "core::result::",
    "std::ops::ControlFlow",
    "core::ops::control_flow",
    "core::cmp::",
    "std::cmp::",
    "core::mem::take",
    "std::mem::take",
    "core::bool",
    "std::bool",
    "core::iter::",
    "std::iter::",
    "core::convert::",
    "std::convert::",
    "core::ops::function",
    "std::ops::",
    "core::ops::",
    "<",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> J {
        // Call-site span outside of macro definitions of the crate, and the innermost span.
        let sm = self.tcx.sess.source_map();
        let outer = sp.source_callsite();
        let lo = sm.lookup_char_pos(outer.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let inner = sm.lookup_char_pos(sp.lo());
        J::Arr(vec![
            J::from(file),
            J::from(lo.line),
            J::from(lo.col.0 + 1),
            J::from(inner.line),
            J::from(inner.col.0 + 1),
        ])
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::from(self.ty_id(t))
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let s = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::from(s))];
        match t.kind() {
            ty::Bool => o.push(("k", "bool".into())),
            ty::Char => o.push(("k", "char".into())),
            ty::Int(i) => {
                o.push(("k", "int".into()));
                o.push(("w", J::from(i.bit_width().unwrap_or(64))));
                o.push(("size", J::from(i.bit_width().is_none())));
            }
            ty::Uint(i) => {
                o.push(("k", "uint".into()));
                o.push(("w", J::from(i.bit_width().unwrap_or(64))));
                o.push(("size", J::from(i.bit_width().is_none())));
            }
            ty::Float(_) => o.push(("k", "float".into())),
            ty::Str => o.push(("k", "str".into())),
            ty::Never => o.push(("k", "never".into())),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                o.push(("k", "adt".into()));
                o.push(("path", J::from(p.clone())));
                o.push((
                    "kind",
                    if def.is_enum() {
                        "enum".into()
                    } else if def.is_union() {
                        "union".into()
                    } else {
                        "struct".into()
                    },
                ));
                o.push(("local", J::Bool(def.did().is_local())));
                let mut a = vec![];
                for x in args.types() {
                    a.push(self.ty(x));
                }
                o.push(("args", J::Arr(a)));
                // Field types per variant (as instantiated).
                let simple = self.adts.contains_key(&p);
                if !simple {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            J::Int(match d.ty.kind() {
                                ty::Int(it) => {
                                    let unused = 128 - it.bit_width().unwrap_or(64) as u32;
                                    ((d.val << unused) as i128) >> unused
                                }
                                _ => d.val as i128,
                            })
                        } else {
                            J::Int(0)
                        };
                        vs.push(obj(vec![
                            ("name", J::from(v.name.as_str())),
                            ("discr", discr),
                            ("nf", J::from(v.fields.len())),
                        ]));
                    }
                    self.adts.insert(
                        p,
                        obj(vec![
                            ("local", J::Bool(def.did().is_local())),
                            ("enum", J::Bool(def.is_enum())),
                            ("variants", J::Arr(vs)),
                        ]),
                    );
                }
            }
            ty::Array(e, n) => {
                o.push(("k", "array".into()));
                o.push(("e", self.ty(*e)));
                let n = n.try_to_target_usize(self.tcx);
                o.push(("n", n.map(J::from).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                o.push(("k", "slice".into()));
                o.push(("e", self.ty(*e)));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", "ref".into()));
                o.push(("e", self.ty(*e)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", "ptr".into()));
                o.push(("e", self.ty(*e)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", "tuple".into()));
                let mut a = vec![];
                for x in ts.iter() {
                    a.push(self.ty(x));
                }
                o.push(("args", J::Arr(a)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", "fndef".into()));
                o.push(("path", J::from(self.path(*d))));
            }
            ty::FnPtr(..) => o.push(("k", "fnptr".into())),
            ty::Closure(d, args) => {
                o.push(("k", "closure".into()));
                o.push(("path", J::from(self.path(*d))));
                let inst = Instance::new_raw(*d, args);
                let id = self.want(inst);
                o.push(("body", J::from(id)));
                let kind = format!("{:?}", args.as_closure().kind_ty());
                o.push(("ck", J::from(kind)));
            }
            ty::Dynamic(..) => o.push(("k", "dyn".into())),
            ty::Param(p) => {
                o.push(("k", "param".into()));
                o.push(("name", J::from(p.name.as_str())));
            }
            _ => o.push(("k", "other".into())),
        }
        self.types[id] = J::Obj(o);
        id
    }

    fn want(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(s) = self.inst_ids.get(&inst) {
            return s.clone();
        }
        let base = with_no_trimmed_paths!(format!("{inst}"));
        let mut name = base.clone();
        let mut k = 1;
        while self.names.contains(&name) {
            k += 1;
            name = format!("{base}#{k}");
        }
        self.names.insert(name.clone());
        self.inst_ids.insert(inst, name.clone());
        self.queue.push_back(inst);
        name
    }

    fn inlinable_std(&self, d: DefId) -> bool {
        let p = self.path(d);
        STD_INLINE.iter().any(|x| p.starts_with(x))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", J::from(self.path(d))));
        let kr = tcx.crate_name(d.krate);
        o.push(("krate", J::from(kr.as_str())));
        o.push(("local", J::Bool(d.is_local())));
        let mut a = vec![];
        for x in args.types() {
            a.push(self.ty(x));
        }
        o.push(("args", J::Arr(a)));
        let tr = tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            o.push(("trait", J::from(self.path(t))));
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::Bool(true)));
        }
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("kind", J::from(format!("{kind:?}"))));
            return J::Obj(o);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let res = Instance::try_resolve(tcx, self.env, d, args).ok().flatten();
        let mut done = false;
        if let Some(inst) = res {
            match inst.def {
                InstanceKind::Item(id) => {
                    o.push(("rpath", J::from(self.path(id))));
                    let mut ra = vec![];
                    for x in inst.args.types() {
                        ra.push(self.ty(x));
                    }
                    o.push(("rargs", J::Arr(ra)));
                    if id.is_local() {
                        o.push(("rlocal", J::Bool(true)));
                        let n = self.want(inst);
                        o.push(("body", J::from(n)));
                    } else if tcx.is_mir_available(id)
                        && self.inlinable_std(id)
                        && tcx.intrinsic(id).is_none()
                    {
                        let n = self.want(inst);
                        o.push(("body", J::from(n)));
                    }
                    done = true;
                }
                InstanceKind::Intrinsic(id) => {
                    o.push(("intrinsic", J::from(self.path(id))));
                    done = true;
                }
                other => {
                    o.push(("shim", J::from(format!("{other:?}"))));
                    done = true;
                }
            }
        }
        if !done {
            if let Some(t) = tr {
                if t.is_local() && tcx.is_mir_available(d) {
                    // A trait of this crate, receiver not known precisely: the default body is the
                    // only candidate unless some impl overrides it.
                    let mut overridden = false;
                    for imp in tcx.all_impls(t) {
                        if tcx.impl_item_implementor_ids(imp).get(&d).is_some() {
                            overridden = true;
                        }
                    }
                    o.push(("overridden", J::Bool(overridden)));
                    if !overridden {
                        let inst = Instance::new_raw(d, args);
                        let n = self.want(inst);
                        o.push(("rlocal", J::Bool(true)));
                        o.push(("body", J::from(n)));
                    }
                }
            }
        }
        J::Obj(o)
    }

    fn mem(&mut self, a: AllocId, off: u64, t: Ty<'tcx>) -> J {
        if self.const_depth > 12 {
            return obj(vec![("opaque", J::from("deep"))]);
        }
        self.const_depth += 1;
        let r = self.mem_inner(a, off, t);
        self.const_depth -= 1;
        r.unwrap_or_else(|| obj(vec![("opaque", J::from("mem"))]))
    }

    fn scalar_at(&self, a: AllocId, off: u64, size: u64, prov: bool) -> Option<Scalar> {
        let al = self.tcx.try_get_global_alloc(a)?;
        let m = match al {
            GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let r = AllocRange {
            start: rustc_abi::Size::from_bytes(off),
            size: rustc_abi::Size::from_bytes(size),
        };
        m.inner().read_scalar(&self.tcx, r, prov).ok()
    }

    fn raw_bytes(&self, a: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(a)? {
            GlobalAlloc::Memory(m) => {
                let i = m.inner();
                if off + len > i.len() as u64 {
                    return None;
                }
                Some(
                    i.inspect_with_uninit_and_ptr_outside_interpreter(
                        off as usize..(off + len) as usize,
                    )
                    .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn int_val(&self, raw: u128, t: Ty<'tcx>, bits: u64) -> J {
        match t.kind() {
            ty::Bool => obj(vec![("b", J::Bool(raw != 0))]),
            ty::Int(_) => {
                let sh = 128 - bits;
                let v = ((raw << sh) as i128) >> sh;
                obj(vec![("i", J::Int(v))])
            }
            _ => obj(vec![("i", J::Int(raw as i128))]),
        }
    }

    fn mem_inner(&mut self, a: AllocId, off: u64, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let lay = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let s = self.scalar_at(a, off, size, false)?;
                let i = s.try_to_scalar_int().ok()?;
                Some(self.int_val(i.to_bits(i.size()), t, size * 8))
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let s = self.scalar_at(a, off, 8, true)?;
                let p = match s {
                    Scalar::Ptr(p, _) => p,
                    Scalar::Int(_) => {
                        return Some(obj(vec![("ref", obj(vec![("opaque", J::from("int ptr"))]))]));
                    }
                };
                let (prov, o2) = p.into_raw_parts();
                let id = prov.alloc_id();
                match e.kind() {
                    ty::Str | ty::Slice(_) => {
                        let l = self.scalar_at(a, off + 8, 8, false)?;
                        let l = l.try_to_scalar_int().ok()?.to_u64();
                        self.fat(id, o2.bytes(), l, *e)
                    }
                    _ => Some(obj(vec![("ref", self.mem(id, o2.bytes(), *e))])),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                self.arr(a, off, n, *e)
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, et) in ts.iter().enumerate() {
                    let o2 = lay.fields.offset(i).bytes();
                    v.push(self.mem(a, off + o2, et));
                }
                Some(obj(vec![("tup", J::Arr(v))]))
            }
            ty::Adt(def, args) => {
                let vi = match &lay.variants {
                    Variants::Empty => return None,
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = lay.fields.offset(tag_field.index()).bytes();
                        let tsz = tag.size(&tcx).bytes();
                        let is_ptr = tsz == 8 && matches!(
                            self.scalar_at(a, off + toff, tsz, true),
                            Some(Scalar::Ptr(..))
                        );
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let s = self.scalar_at(a, off + toff, tsz, false)?;
                                let raw = s.try_to_scalar_int().ok()?;
                                let bits = raw.to_bits(raw.size());
                                let mut f = None;
                                for (vi, d) in def.discriminants(tcx) {
                                    let m = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d.val & m == bits {
                                        f = Some(vi);
                                    }
                                }
                                f?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr {
                                    *untagged_variant
                                } else {
                                    let s = self.scalar_at(a, off + toff, tsz, false)?;
                                    let raw = s.try_to_scalar_int().ok()?;
                                    let bits = raw.to_bits(raw.size());
                                    let rel = bits.wrapping_sub(*niche_start);
                                    let m = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = rel & m;
                                    let start = niche_variants.start.as_u32() as u128;
                                    let last = niche_variants.last.as_u32() as u128;
                                    if rel <= last - start {
                                        VariantIdx::from_u32((rel + start) as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                };
                let vdef = &def.variants()[vi];
                let vlay = {
                    let cx = ty::layout::LayoutCx::new(tcx, self.env);
                    lay.for_variant(&cx, vi)
                };
                let mut v = vec![];
                for i in 0..vdef.fields.len() {
                    let ft = vdef.fields[FieldIdx::from_usize(i)].ty(tcx, args).skip_norm_wip();
                    let ft = tcx
                        .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft))
                        .unwrap_or(ft);
                    let o2 = vlay.fields.offset(i).bytes();
                    v.push(self.mem(a, off + o2, ft));
                }
                Some(obj(vec![
                    ("adt", J::from(self.path(def.did()))),
                    ("v", J::from(vi.as_u32())),
                    ("vn", J::from(vdef.name.as_str())),
                    ("f", J::Arr(v)),
                ]))
            }
            ty::FnDef(..) => Some(obj(vec![("zst", J::Bool(true))])),
            _ => None,
        }
    }

    fn arr(&mut self, a: AllocId, off: u64, n: u64, e: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            let b = self.raw_bytes(a, off, n)?;
            return Some(obj(vec![("bytes", J::from(hex(&b)))]));
        }
        let el = tcx.layout_of(self.env.as_query_input(e)).ok()?;
        let es = el.size.bytes();
        let mut v = vec![];
        for i in 0..n {
            v.push(self.mem(a, off + i * es, e));
        }
        Some(obj(vec![("arr", J::Arr(v))]))
    }

    fn fat(&mut self, a: AllocId, off: u64, n: u64, e: Ty<'tcx>) -> Option<J> {
        match e.kind() {
            ty::Str => {
                let b = self.raw_bytes(a, off, n)?;
                Some(obj(vec![("str", J::from(hex(&b)))]))
            }
            ty::Slice(el) => {
                let inner = self.arr(a, off, n, *el)?;
                Some(obj(vec![("slice", inner), ("n", J::from(n))]))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: Const<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let cal = self.callee(*d, args);
            return obj(vec![("c", obj(vec![("fn", cal)])), ("ty", tid)]);
        }
        let v = c.eval(tcx, self.env, span).ok();
        let from = match c {
            Const::Unevaluated(u, _) => {
                if u.promoted.is_none() {
                    J::from(self.path(u.def))
                } else {
                    J::Null
                }
            }
            _ => J::Null,
        };
        let j = match v {
            None => obj(vec![("opaque", J::from(format!("{c:?}")))]),
            Some(cv) => self.const_value(cv, t),
        };
        obj(vec![("c", j), ("ty", tid), ("from", from)])
    }

    fn const_value(&mut self, cv: ConstValue, t: Ty<'tcx>) -> J {
        let op = |s: &str| obj(vec![("opaque", J::from(s))]);
        match cv {
            ConstValue::ZeroSized => match t.kind() {
                ty::Adt(def, _) => {
                    if def.is_struct() {
                        obj(vec![
                            ("adt", J::from(self.path(def.did()))),
                            ("v", J::from(0usize)),
                            ("vn", J::from("")),
                            ("f", J::Arr(vec![])),
                            ("zst", J::Bool(true)),
                        ])
                    } else {
                        obj(vec![("zst", J::Bool(true))])
                    }
                }
                _ => obj(vec![("zst", J::Bool(true))]),
            },
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                    self.int_val(i.to_bits(i.size()), t, i.size().bits())
                }
                ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                    // Materialise the scalar in memory and decode it by layout.
                    let bits = i.to_bits(i.size());
                    let sz = i.size().bytes() as usize;
                    let bytes = bits.to_le_bytes()[..sz].to_vec();
                    let al = rustc_middle::mir::interpret::Allocation::from_bytes_byte_aligned_immutable(bytes, ());
                    let al = self.tcx.mk_const_alloc(al);
                    let id = self.tcx.reserve_and_set_memory_alloc(al);
                    self.mem(id, 0, t)
                }
                _ => op("scalar"),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                        if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(id) {
                            return obj(vec![("static", J::from(self.path(d)))]);
                        }
                        obj(vec![("ref", self.mem(id, off.bytes(), *e))])
                    }
                    _ => op("scalarptr"),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                    self.fat(alloc_id, 0, meta, *e).unwrap_or_else(|| op("slice"))
                }
                _ => op("slice?"),
            },
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::from("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec!["f".into(), J::from(f.as_u32()), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec!["i".into(), J::from(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    "ci".into(),
                    J::from(offset),
                    J::from(min_length),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec!["ss".into(), J::from(from), J::from(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec!["d".into(), J::from(v.as_u32())]),
                _ => J::Arr(vec!["?".into()]),
            });
        }
        J::Arr(vec![J::from(p.local.as_u32()), J::Arr(v)])
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj(vec![("p", self.place(p))]),
            Operand::Move(p) => obj(vec![("p", self.place(p)), ("m", J::Bool(true))]),
            Operand::Constant(c) => self.constant(c.const_, c.span),
            #[allow(unreachable_patterns)]
            other => obj(vec![("rc", J::from(format!("{other:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec!["use".into(), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(J::from).unwrap_or(J::Null);
                J::Arr(vec!["repeat".into(), self.operand(o), n])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let fake = matches!(bk, BorrowKind::Fake(_));
                J::Arr(vec!["ref".into(), self.place(p), J::Bool(m), J::Bool(fake)])
            }
            Rvalue::RawPtr(_, p) => J::Arr(vec!["rawptr".into(), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{k:?}");
                let o = self.operand(o);
                let t = self.ty(*t);
                J::Arr(vec!["cast".into(), k.into(), o, t])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0);
                let b = self.operand(&ab.1);
                J::Arr(vec!["bin".into(), format!("{op:?}").into(), a, b])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a);
                J::Arr(vec!["un".into(), format!("{op:?}").into(), a])
            }
            Rvalue::Discriminant(p) => J::Arr(vec!["discr".into(), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => J::Arr(vec!["array".into(), self.ty(*t)]),
                    AggregateKind::Tuple => J::Arr(vec!["tuple".into()]),
                    AggregateKind::Adt(d, vi, _args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*vi).name.to_string();
                        J::Arr(vec![
                            "adt".into(),
                            J::from(self.path(*d)),
                            J::from(vi.as_u32()),
                            J::from(vn),
                            active.map(|f| J::from(f.as_u32())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let n = self.want(inst);
                        J::Arr(vec!["closure".into(), J::from(n)])
                    }
                    AggregateKind::RawPtr(..) => J::Arr(vec!["rawptr".into()]),
                    other => J::Arr(vec!["other".into(), J::from(format!("{other:?}"))]),
                };
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(o));
                }
                J::Arr(vec!["agg".into(), kk, J::Arr(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec!["use".into(), obj(vec![("p", p)])])
            }
            Rvalue::ThreadLocalRef(d) => J::Arr(vec!["tls".into(), J::from(self.path(*d))]),
            #[allow(unreachable_patterns)]
            other => J::Arr(vec!["other".into(), J::from(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let src = match inst.def {
            InstanceKind::Item(_) => tcx.instance_mir(inst.def),
            _ => return None,
        };
        let body = src.clone();
        let body: Body<'tcx> = {
            let b = EarlyBinder::bind(tcx, body);
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, b) {
                Ok(b) => b,
                Err(_) => src.clone(),
            }
        };
        let mut locals = vec![];
        for (_, d) in body.local_decls.iter_enumerated() {
            locals.push(self.ty(d.ty));
        }
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                names.push(J::Arr(vec![J::from(v.name.as_str()), pl]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut ss = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1);
                        let sp = self.span(s.source_info.span);
                        J::Arr(vec!["=".into(), p, r, sp])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        J::Arr(vec!["setd".into(), p, J::from(variant_index.as_u32())])
                    }
                    StatementKind::StorageLive(l) => J::Arr(vec!["live".into(), J::from(l.as_u32())]),
                    StatementKind::StorageDead(l) => J::Arr(vec!["dead".into(), J::from(l.as_u32())]),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o);
                            J::Arr(vec!["assume".into(), o])
                        }
                        _ => J::Arr(vec!["intr".into()]),
                    },
                    _ => continue,
                };
                ss.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::Arr(vec!["goto".into(), J::from(target.as_u32())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(J::Arr(vec![J::Int(val as i128), J::from(b.as_u32())]));
                    }
                    J::Arr(vec![
                        "switch".into(),
                        d,
                        J::Arr(v),
                        J::from(targets.otherwise().as_u32()),
                        dt,
                    ])
                }
                TerminatorKind::Return => J::Arr(vec!["return".into()]),
                TerminatorKind::Unreachable => J::Arr(vec!["unreachable".into()]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place);
                    let pt = self.ty(pt);
                    J::Arr(vec!["drop".into(), p, J::from(target.as_u32()), pt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => obj(vec![("indirect", self.operand(func))]),
                    };
                    let mut v = vec![];
                    let mut at = vec![];
                    for a in args.iter() {
                        v.push(self.operand(&a.node));
                        let t = a.node.ty(&body.local_decls, tcx);
                        at.push(self.ty(t));
                    }
                    let d = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    J::Arr(vec![
                        "call".into(),
                        f,
                        J::Arr(v),
                        d,
                        target.map(|b| J::from(b.as_u32())).unwrap_or(J::Null),
                        J::Arr(at),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(len), self.operand(index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow {op:?}"),
                            vec![self.operand(a), self.operand(b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow Neg".into(), vec![self.operand(a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a)]),
                        other => (format!("other {other:?}"), vec![]),
                    };
                    J::Arr(vec![
                        "assert".into(),
                        c,
                        J::Bool(*expected),
                        k.into(),
                        J::Arr(ops),
                        J::from(target.as_u32()),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec!["goto".into(), J::from(real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec!["goto".into(), J::from(real_target.as_u32())])
                }
                TerminatorKind::UnwindResume => J::Arr(vec!["unreachable".into()]),
                other => J::Arr(vec!["other".into(), J::from(format!("{other:?}"))]),
            };
            blocks.push(obj(vec![("s", J::Arr(ss)), ("t", tj), ("sp", sp)]));
        }
        let spj = self.span(body.span);
        Some(obj(vec![
            ("path", J::from(self.path(did))),
            ("local", J::Bool(did.is_local())),
            ("kind", J::from(format!("{:?}", tcx.def_kind(did)))),
            ("args", J::from(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::from(l.as_u32())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
            ("span", spj),
        ]))
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE);
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        type_ids: HashMap::new(),
        adts: BTreeMap::new(),
        queue: VecDeque::new(),
        inst_ids: HashMap::new(),
        names: HashSet::new(),
        const_depth: 0,
    };
    let ev = tcx.effective_visibilities(());
    let mut roots = vec![];
    let mut items = vec![];
    let mut bodies: Vec<(String, J)> = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d));
                let tl = tcx.is_thread_local_static(d);
                let ts = with_no_trimmed_paths!(format!("{t}"));
                let sp = cx.span(tcx.def_span(d));
                statics.push(obj(vec![
                    ("path", J::from(cx.path(d))),
                    ("mut", J::Bool(mutability.is_mut())),
                    ("freeze", J::Bool(freeze)),
                    ("tls", J::Bool(tl)),
                    ("ty", J::from(ts)),
                    ("span", sp),
                ]));
            }
            _ => {}
        }
    }
    for &id in tcx.mir_keys(()) {
        let d = id.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        if !tcx.is_mir_available(d) {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(d, args);
        cx.env = TypingEnv::post_analysis(tcx, d);
        let name = cx.want(inst);
        // Everything found below this root is normalised in the root's own environment.
        while let Some(i) = cx.queue.pop_front() {
            let n = cx.inst_ids[&i].clone();
            if let Some(j) = cx.body(i) {
                bodies.push((n, j));
            }
        }
        let reach = ev.is_reachable(id);
        let sig = tcx.fn_sig(d).skip_binder();
        let unsafe_ = sig.safety().is_unsafe();
        let sp = cx.span(tcx.def_span(d));
        let in_trait_impl = tcx
            .impl_of_assoc(d)
            .map(|i| tcx.impl_opt_trait_ref(i).is_some())
            .unwrap_or(false);
        let tr = tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i));
        let trn = match tr {
            Some(t) => with_no_trimmed_paths!(format!("{}", t.skip_binder())),
            None => String::new(),
        };
        let derived = tcx.is_automatically_derived(tcx.parent(d));
        items.push(obj(vec![
            ("path", J::from(cx.path(d))),
            ("body", J::from(name.clone())),
            ("reachable", J::Bool(reach)),
            ("unsafe", J::Bool(unsafe_)),
            ("const", J::Bool(tcx.is_const_fn(d))),
            ("trait_impl", J::Bool(in_trait_impl)),
            ("trait", J::from(trn)),
            ("derived", J::Bool(derived)),
            ("span", sp),
        ]));
        if reach || in_trait_impl {
            roots.push(J::from(name));
        }
    }
    // Trait impls present in the crate (for Copy/Drop/Send/Sync facts).
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = if of_trait {
                with_no_trimmed_paths!(format!("{}", tcx.impl_trait_ref(d).skip_binder()))
            } else {
                String::new()
            };
            impls.push(obj(vec![
                ("trait", J::from(t)),
                ("self", J::from(with_no_trimmed_paths!(format!("{st}")))),
            ]));
        }
    }
    let mut cfgs: Vec<String> = vec![];
    for (k, v) in &tcx.sess.config {
        if let Some(v) = v {
            if k.as_str() == "feature" {
                cfgs.push(v.to_string());
            }
        }
    }
    cfgs.sort();
    // Crate-level documentation text.
    let mut docs = String::new();
    for a in tcx.hir_krate_attrs() {
        if let Some(d) = a.doc_str() {
            docs.push_str(d.as_str());
            docs.push('\n');
        }
    }
    // Public enums of the crate: variants and docs.
    let mut enums = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if tcx.def_kind(d) == DefKind::Enum {
            let def = tcx.adt_def(d);
            let mut v = vec![];
            for x in def.variants() {
                v.push(J::from(x.name.as_str()));
            }
            enums.push(obj(vec![
                ("path", J::from(cx.path(d))),
                ("variants", J::Arr(v)),
                ("public", J::Bool(ev.is_reachable(id))),
            ]));
        }
    }
    let top = obj(vec![
        ("crate", J::from(krate.as_str())),
        ("features", J::Arr(cfgs.into_iter().map(J::from).collect())),
        ("debug_assertions", J::Bool(tcx.sess.opts.debug_assertions)),
        ("overflow_checks", J::Bool(tcx.sess.overflow_checks())),
        ("items", J::Arr(items)),
        ("roots", J::Arr(roots)),
        ("statics", J::Arr(statics)),
        ("impls", J::Arr(impls)),
        ("enums", J::Arr(enums)),
        ("docs", J::from(docs)),
        ("adts", J::Map(cx.adts.into_iter().collect())),
        ("types", J::Arr(cx.types)),
        ("bodies", J::Map(bodies)),
    ]);
    let mut s = String::new();
    top.print(&mut s);
    std::fs::write(out, s).expect("cannot write facts");
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "file_format")
        && !args.iter().any(|a| a == "--test");
    let out = std::env::var("FF_FACTS_OUT").ok();
    rustc_driver::catch_with_exit_code(move || {
        match (is_target, out) {
            (true, Some(out)) => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
            _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
        }
    })
}
