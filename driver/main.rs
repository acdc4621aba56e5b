// MIR extractor: a rustc driver that compiles the `orchard` crate exactly as
// cargo asks it to and, after analysis, writes the MIR of every function of
// the crate (and of selected generic library functions they call) as JSON.
//
// The extraction drops: lifetimes, source spans (kept per function only),
// storage/coverage/retag statements, unwind edges and drop elaboration
// details (Drop terminators are kept).  Everything else of MIR is emitted.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Work<'tcx> { inst: Instance<'tcx>, root: DefId, promoted: Option<Promoted> }

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: BTreeMap<String, String>,
    fns: HashMap<(Instance<'tcx>, Option<DefId>, Option<u32>), usize>,
    fn_out: Vec<String>,
    queue: VecDeque<(usize, Work<'tcx>)>,
    statics: BTreeMap<String, usize>,
}

fn want_external(path: &str) -> bool {
    const PRE: &[&str] = &[
        "std::option::", "core::option::", "std::result::", "core::result::",
        "<std::option::", "<std::result::", "<core::option", "<core::result",
        "nonempty::", "<nonempty::", "zcash_note_encryption::", "<zcash_note_encryption::",
        "halo2_proofs::circuit::value::", "halo2_proofs::circuit::Value", "<halo2_proofs::circuit::Value",
        "zip32::", "<zip32::", "std::cmp::", "core::cmp::", "std::convert::", "<T as std::convert", "std::bool::", "core::bool::",
        "<halo2_gadgets::poseidon", "halo2_gadgets::poseidon::primitives",
        "reddsa::batch", "<reddsa::batch", "std::ops::", "<T as std::ops", "<bool as", "<&'a ", "<&A as", "<&B as",
        "incrementalmerkletree::", "<incrementalmerkletree::",
        "std::bool", "core::bool", "zcash_spec::", "<zcash_spec::",
        "std::array::", "std::clone", "<std::ops::ControlFlow",
        "std::ops::FnOnce",
        "subtle::", "<subtle::",
    ];
    PRE.iter().any(|p| path.starts_with(p)) || path.contains(" as subtle::")
}

impl<'tcx> Ctx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.path(def.did());
        if !self.adts.contains_key(&p) {
            self.adts.insert(p.clone(), String::new());
            let mut vs = vec![];
            for (idx, v) in def.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() { fs.push(js(f.name.as_str())); }
                let discr = if def.is_enum() {
                    def.discriminant_for_variant(self.tcx, idx).val.to_string()
                } else { "0".into() };
                vs.push(format!("{{\"n\":{},\"f\":{},\"d\":\"{}\"}}", js(v.name.as_str()), list(fs), discr));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            self.adts.insert(p.clone(), format!("{{\"k\":\"{}\",\"local\":{},\"v\":{}}}", kind, def.did().is_local(), list(vs)));
        }
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let name = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"w\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", i.bit_width().unwrap_or(64)),
            ty::Adt(d, args) => {
                let p = self.adt(*d);
                let a = self.args(args);
                // field types of each variant
                let mut vs = vec![];
                let many = d.variants().iter().map(|v| v.fields.len()).sum::<usize>();
                if many < 200 {
                    // reserve the id first: types can be recursive
                    let id = self.ty_out.len();
                    self.tys.insert(t, id);
                    self.ty_out.push(String::new());
                    for v in d.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.tcx.erase_and_anonymize_regions(ft);
                            fs.push(self.ty(ft).to_string());
                        }
                        vs.push(list(fs));
                    }
                    self.ty_out[id] = format!("{{\"s\":{},\"k\":\"adt\",\"p\":{},\"a\":{},\"v\":{}}}", js(&name), js(&p), a, list(vs));
                    return id;
                }
                format!("\"k\":\"adt\",\"p\":{},\"a\":{},\"v\":[]", js(&p), a)
            }
            ty::Str => "\"k\":\"str\"".into(),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => js(&format!("{}", n)) };
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n)
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), m.is_mut()),
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), m.is_mut()),
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let args = args.no_bound_vars().unwrap();
                format!("\"k\":\"fndef\",\"p\":{},\"a\":{}", js(&p), self.args(args))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|u| self.ty(u).to_string()).collect();
                format!("\"k\":\"closure\",\"p\":{},\"u\":{}", js(&p), list(ups))
            }
            ty::Never => "\"k\":\"never\"".into(),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|u| self.ty(u).to_string()).collect();
                format!("\"k\":\"tuple\",\"e\":{}", list(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"p\":{}", js(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(format!("{{\"s\":{},{}}}", js(&name), body));
        id
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() { v.push(self.ty(t).to_string()); }
            else if let Some(c) = x.as_const() {
                match c.try_to_target_usize(self.tcx) { Some(n) => v.push(format!("[{}]", n)), None => v.push(format!("[{}]", js(&format!("{}", c)))) }
            }
        }
        list(v)
    }

    fn intern_fn(&mut self, inst: Instance<'tcx>, root: DefId, promoted: Option<Promoted>) -> usize {
        // Instances without type parameters do not depend on the root's environment.
        let generic = inst.args.iter().any(|a| ty::TypeVisitableExt::has_param(&a));
        let key = (inst, if generic { Some(root) } else { None }, promoted.map(|p| p.as_u32()));
        if let Some(i) = self.fns.get(&key) { return *i; }
        let id = self.fn_out.len();
        self.fns.insert(key, id);
        self.fn_out.push(String::new());
        self.queue.push_back((id, Work { inst, root, promoted }));
        id
    }

    fn env(&self, root: DefId) -> TypingEnv<'tcx> { TypingEnv::post_analysis(self.tcx, root) }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> String {
        let env = self.env(root);
        let p = self.path(d);
        let mut out = format!("\"p\":{},\"a\":{}", js(&p), self.args(args));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(self.tcx, env, d, args)));
        if let Ok(Ok(Some(inst))) = res {
            match inst.def {
                InstanceKind::Item(rd) => {
                    let rp = self.path(rd);
                    let id = self.intern_fn(inst, root, None);
                    let _ = write!(out, ",\"r\":{},\"i\":{}", js(&rp), id);
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { call_once: _, closure, .. }) => {
                    let _ = write!(out, ",\"shim\":\"closure_once\",\"r\":{}", js(&self.path(closure)));
                }
                InstanceKind::Shim(ShimKind::FnPtr(..)) => { out.push_str(",\"shim\":\"fnptr\""); }
                InstanceKind::Shim(ShimKind::Clone(..)) => { out.push_str(",\"shim\":\"clone\""); }
                InstanceKind::Intrinsic(_) => { out.push_str(",\"shim\":\"intrinsic\""); }
                InstanceKind::Virtual(..) => { out.push_str(",\"shim\":\"virtual\""); }
                _ => { out.push_str(",\"shim\":\"other\""); }
            }
        }
        format!("{{{}}}", out)
    }

    fn read(&mut self, t: Ty<'tcx>, alloc: &rustc_middle::mir::interpret::Allocation, off: u64, root: DefId, depth: usize) -> String {
        let env = self.env(root);
        let tcx = self.tcx;
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> {
            let (o, n) = (o as usize, n as usize);
            if o + n > alloc.len() { return None; }
            Some(alloc.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec())
        };
        let int = |o: u64, n: u64| -> String {
            match bytes(o, n) { Some(b) => { let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); } format!("\"{}\"", x) }, None => "\"?\"".into() }
        };
        if depth > 12 { return "{\"c\":\"opaque\"}".into(); }
        let lay = match tcx.layout_of(env.as_query_input(t)) { Ok(l) => l, Err(_) => return "{\"c\":\"opaque\"}".into() };
        let size = lay.size.bytes();
        let tid = self.ty(t);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => format!("{{\"c\":\"int\",\"t\":{},\"v\":{}}}", tid, int(off, size)),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let el = tcx.layout_of(env.as_query_input(*e)).unwrap();
                let es = el.size.bytes();
                if matches!(e.kind(), ty::Uint(_)) && es == 1 && n <= 4096 {
                    let b = bytes(off, n).unwrap_or_default();
                    return format!("{{\"c\":\"bytes\",\"t\":{},\"v\":{}}}", tid, list(b.iter().map(|x| x.to_string()).collect()));
                }
                if n > 4096 || size > 40000 { return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid); }
                let v: Vec<String> = (0..n).map(|i| self.read(*e, alloc, off + i * es, root, depth + 1)).collect();
                format!("{{\"c\":\"arr\",\"t\":{},\"v\":{}}}", tid, list(v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.read(ft, alloc, off + lay.fields.offset(i).bytes(), root, depth + 1)); }
                format!("{{\"c\":\"tup\",\"t\":{},\"v\":{}}}", tid, list(v))
            }
            ty::Adt(d, args) if d.is_struct() => {
                let mut v = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = tcx.erase_and_anonymize_regions(f.ty(tcx, args).skip_norm_wip());
                    v.push(self.read(ft, alloc, off + lay.fields.offset(i).bytes(), root, depth + 1));
                }
                format!("{{\"c\":\"adt\",\"t\":{},\"var\":0,\"v\":{}}}", tid, list(v))
            }
            ty::Adt(d, args) if d.is_enum() => {
                use rustc_abi::{Variants, TagEncoding};
                let var = match &lay.variants {
                    Variants::Single { index } => Some(*index),
                    Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. } => {
                        let o = lay.fields.offset(tag_field.as_usize()).bytes();
                        let n = tag.primitive().size(&tcx).bytes();
                        let b = bytes(off + o, n).unwrap_or_default();
                        let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                        let mut r = None;
                        for (vi, dv) in d.discriminants(tcx) { let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 }; if dv.val & m == x { r = Some(vi); } }
                        r
                    }
                    Variants::Multiple { tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, .. } => {
                        let o = lay.fields.offset(tag_field.as_usize()).bytes();
                        let n = tag.primitive().size(&tcx).bytes();
                        let has_prov = alloc.provenance().ptrs().iter().any(|(po, _)| po.bytes() == off + o);
                        if has_prov { Some(*untagged_variant) } else {
                            let b = bytes(off + o, n).unwrap_or_default();
                            let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                            let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                            let rel = x.wrapping_sub(*niche_start) & m;
                            let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                            if rel <= cnt { Some(rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)) } else { Some(*untagged_variant) }
                        }
                    }
                    _ => None,
                };
                if let Some(vi) = var {
                    let cx = ty::layout::LayoutCx::new(tcx, env);
                    let vl = lay.for_variant(&cx, vi);
                    let mut v = vec![];
                    for (i, f) in d.variant(vi).fields.iter().enumerate() {
                        let ft = tcx.erase_and_anonymize_regions(f.ty(tcx, args).skip_norm_wip());
                        v.push(self.read(ft, alloc, off + vl.fields.offset(i).bytes(), root, depth + 1));
                    }
                    return format!("{{\"c\":\"adt\",\"t\":{},\"var\":{},\"v\":{}}}", tid, vi.as_u32(), list(v));
                }
                format!("{{\"c\":\"opaque\",\"t\":{}}}", tid)
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                for (po, prov) in alloc.provenance().ptrs().iter() {
                    if po.bytes() == off {
                        let addr = bytes(off, 8).unwrap();
                        let mut a: u64 = 0; for (i, y) in addr.iter().enumerate() { a |= (*y as u64) << (8 * i); }
                        let meta = if size == 16 { let m = bytes(off + 8, 8).unwrap(); let mut x: u64 = 0; for (i, y) in m.iter().enumerate() { x |= (*y as u64) << (8 * i); } Some(x) } else { None };
                        return self.pointee(*e, prov.alloc_id(), a, meta, tid, root, depth);
                    }
                }
                format!("{{\"c\":\"opaque\",\"t\":{}}}", tid)
            }
            ty::FnDef(..) | ty::Closure(..) if size == 0 => format!("{{\"c\":\"zst\",\"t\":{}}}", tid),
            _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
        }
    }

    fn pointee(&mut self, e: Ty<'tcx>, id: rustc_middle::mir::interpret::AllocId, addr: u64, meta: Option<u64>, tid: usize, root: DefId, depth: usize) -> String {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                let p = self.path(d);
                let ety = self.ty(e);
                self.statics.insert(p.clone(), ety);
                format!("{{\"c\":\"ref\",\"t\":{},\"v\":{{\"c\":\"static\",\"p\":{},\"t\":{}}}}}", tid, js(&p), ety)
            }
            GlobalAlloc::Memory(a) => {
                let inner = a.inner();
                match (e.kind(), meta) {
                    (ty::Str, Some(n)) => {
                        let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(addr as usize..(addr + n) as usize);
                        format!("{{\"c\":\"str\",\"t\":{},\"v\":{}}}", tid, js(&String::from_utf8_lossy(b)))
                    }
                    (ty::Slice(el), Some(n)) => {
                        let et = self.ty(*el);
                        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) && n <= 4096 {
                            let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(addr as usize..(addr + n) as usize);
                            return format!("{{\"c\":\"ref\",\"t\":{},\"v\":{{\"c\":\"bytes\",\"et\":{},\"v\":{}}}}}", tid, et, list(b.iter().map(|x| x.to_string()).collect()));
                        }
                        let es = match self.tcx.layout_of(self.env(root).as_query_input(*el)) { Ok(l) => l.size.bytes(), Err(_) => return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid) };
                        if n > 4096 { return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid); }
                        let v: Vec<String> = (0..n).map(|i| self.read(*el, inner, addr + i * es, root, depth + 1)).collect();
                        format!("{{\"c\":\"ref\",\"t\":{},\"v\":{{\"c\":\"arr\",\"et\":{},\"v\":{}}}}}", tid, et, list(v))
                    }
                    (_, None) => {
                        let v = self.read(e, inner, addr, root, depth + 1);
                        format!("{{\"c\":\"ref\",\"t\":{},\"v\":{}}}", tid, v)
                    }
                    _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                }
            }
            GlobalAlloc::Function { instance } => {
                let c = self.callee(instance.def_id(), instance.args, root);
                format!("{{\"c\":\"fn\",\"t\":{},\"f\":{}}}", tid, c)
            }
            _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, root: DefId) -> String {
        let env = self.env(root);
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.no_bound_vars().unwrap(), root);
            return format!("{{\"c\":\"fn\",\"t\":{},\"f\":{}}}", tid, f);
        }
        let mut tag = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() { tag = format!(",\"n\":{}", js(&self.path(u.def))); }
        }
        let r = c.eval(self.tcx, env, rustc_span::DUMMY_SP);
        let body = match r {
            Err(_) => {
                if let Const::Unevaluated(u, _) = c {
                    let inst = Instance::new_raw(u.def, u.args);
                    if let Some(p) = u.promoted {
                        let id = self.intern_fn(inst, root, Some(p));
                        return format!("{{\"c\":\"promoted\",\"t\":{},\"i\":{}}}", tid, id);
                    }
                    let a = self.args(u.args);
                    return format!("{{\"c\":\"uneval\",\"t\":{},\"n\":{},\"a\":{}}}", tid, js(&self.path(u.def)), a);
                }
                return format!("{{\"c\":\"generic\",\"t\":{},\"n\":{}}}", tid, js(&with_no_trimmed_paths!(format!("{}", c))));
            }
            Ok(ConstValue::ZeroSized) => {
                if let ty::Adt(d, args) = t.kind() {
                    // zero-sized ADT: read with no bytes
                    let _ = (d, args);
                }
                format!("{{\"c\":\"zst\",\"t\":{}}}", tid)
            }
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                match t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => format!("{{\"c\":\"int\",\"t\":{},\"v\":\"{}\"}}", tid, i.to_bits_unchecked()),
                    _ => {
                        // scalar-layout aggregate: write it to a fresh allocation and read it back
                        let size = i.size();
                        let v = i.to_bits_unchecked();
                        let bytes: Vec<u8> = (0..size.bytes()).map(|k| (v >> (8 * k)) as u8).collect();
                        let alloc = rustc_middle::mir::interpret::Allocation::from_bytes_byte_aligned_immutable(&bytes[..], ());
                        self.read(t, &alloc, 0, root, 0)
                    }
                }
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, e, _) | ty::RawPtr(e, _) = t.kind() {
                    self.pointee(*e, prov.alloc_id(), off.bytes(), None, tid, root, 0)
                } else if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(prov.alloc_id()) {
                    let c = self.callee(instance.def_id(), instance.args, root);
                    format!("{{\"c\":\"fn\",\"t\":{},\"f\":{}}}", tid, c)
                } else { format!("{{\"c\":\"opaque\",\"t\":{}}}", tid) }
            }
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                if let ty::Ref(_, e, _) = t.kind() { self.pointee(*e, alloc_id, 0, Some(meta), tid, root, 0) }
                else { format!("{{\"c\":\"opaque\",\"t\":{}}}", tid) }
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                match self.tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(a) => self.read(t, a.inner(), offset.bytes(), root, 0),
                    _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                }
            }
        };
        if tag.is_empty() { body } else { format!("{}{}}}", &body[..body.len() - 1], tag) }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_u32(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_u32()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::PhantomDeref => "\"o\"".into(),
                ProjectionElem::UnwrapUnsafeBinder(_) => "\"u\"".into(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>, root: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => { let c = self.constant(&c.const_, root); format!("{{\"o\":\"const\",\"c\":{}}}", c) }
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rtc\",\"v\":\"{:?}\"}}", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, root: DefId) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, root)),
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => js(&format!("{}", n)) };
                format!("[\"repeat\",{},{}]", self.operand(o, root), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", if matches!(k, BorrowKind::Mut { .. }) { "true" } else { "false" }, self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o, root), t) }
            Rvalue::BinaryOp(b, ops) => { let (x, y) = (&ops.0, &ops.1); format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x, root), self.operand(y, root)) }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, root)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, root)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, v.as_u32(), match f { Some(f) => f.as_u32().to_string(), None => "null".into() })
                    }
                    AggregateKind::Closure(d, args) => {
                        let p = self.path(*d);
                        let inst = Instance::new_raw(*d, args);
                        let id = self.intern_fn(inst, root, None);
                        format!("[\"closure\",{},{}]", js(&p), id)
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"o\":\"copy\",\"p\":{}}}]", self.place(p)),
            other => format!("[\"unsupported\",{}]", js(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, root: DefId) -> String {
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for vdi in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_u32(), js(vdi.name.as_str()))); }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(&b.1, root);
                        st.push(format!("[\"=\",{},{}]", self.place(&b.0), r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_u32())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        other => st.push(format!("[\"unsupported\",{}]", js(&format!("{:?}", other)))),
                    },
                    _ => {}
                }
            }
            let t = &bb.terminator().kind;
            let tj = match t {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr, root), list(v), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, root);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, root)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, list(a), d, match target { Some(t) => t.as_u32().to_string(), None => "null".into() })
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow neg".into(),
                        AssertKind::DivisionByZero(_) => "div by zero".into(),
                        AssertKind::RemainderByZero(_) => "rem by zero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, root), expected, js(&k), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                other => format!("[\"unsupported\",{}]", js(&format!("{:?}", other))),
            };
            blocks.push(format!("[{},{}]", list(st), tj));
        }
        format!("\"n\":{},\"l\":{},\"names\":{},\"b\":{}", body.arg_count, list(locals), list(names), list(blocks))
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
            if tcx.is_constructor(d) { continue; }
            let args = GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            self.intern_fn(Instance::new_raw(d, args), d, None);
        }
        while let Some((id, w)) = self.queue.pop_front() {
            let d = w.inst.def_id();
            let p = self.path(d);
            let a = self.args(w.inst.args);
            let kind = tcx.def_kind(d);
            let identity = w.inst.args == tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d)) && d == w.root;
            let has_body = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) && tcx.is_mir_available(d) && !tcx.is_foreign_item(d);
            let local = d.is_local();
            let mut o = format!("\"id\":{},\"p\":{},\"a\":{},\"local\":{},\"identity\":{}", id, js(&p), a, local, identity);
            if matches!(kind, DefKind::Ctor(..)) { o.push_str(",\"ctor\":true"); }
            if let Some(pr) = w.promoted { let _ = write!(o, ",\"promoted\":{}", pr.as_u32()); }
            let span = tcx.def_span(d);
            if local {
                let sm = tcx.sess.source_map();
                let loc = sm.lookup_char_pos(span.lo());
                let _ = write!(o, ",\"file\":{},\"line\":{}", js(&format!("{}", loc.file.name.prefer_local_unconditionally())), loc.line);
                if let Some(imp) = tcx.trait_impl_of_assoc(d) {
                    let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", js(&with_no_trimmed_paths!(format!("{}", tr))));
                }
                let _ = write!(o, ",\"pub\":{}", d.as_local().map_or(false, |l| tcx.effective_visibilities(()).is_exported(l)));
            }
            if has_body && (local || want_external(&p)) {
                let env = self.env(w.root);
                let raw: &Body<'tcx> = match w.promoted {
                    Some(pr) => &tcx.promoted_mir(d)[pr],
                    None => tcx.instance_mir(w.inst.def),
                };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    w.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone()))
                }));
                if let Ok(Ok(b)) = res {
                    let bj = self.body(&b, w.root);
                    o.push(',');
                    o.push_str(&bj);
                }
            }
            self.fn_out[id] = format!("{{{}}}", o);
        }
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Ctx { tcx, tys: HashMap::new(), ty_out: vec![], adts: BTreeMap::new(), fns: HashMap::new(), fn_out: vec![], queue: VecDeque::new(), statics: BTreeMap::new() };
        cx.run();
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let s = format!("{{\"tys\":[\n{}\n],\"adts\":{{\n{}\n}},\"fns\":[\n{}\n]}}\n", cx.ty_out.join(",\n"), adts.join(",\n"), cx.fn_out.join(",\n"));
        std::fs::write(&self.out, s).expect("write MIR json");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "orchard");
    match (is_target, std::env::var("ORCHARD_MIR_OUT")) {
        (true, Ok(out)) => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
