//! rustc_private driver: dumps the type-checked program (MIR with resolved
//! callees, evaluated constants, type and impl tables) of every workspace
//! crate it compiles as JSON.  It never runs any of the code it dumps.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::ShimKind;
use rustc_middle::ty::{self, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, String)>,
    seen: HashSet<String>,
    bodies: Vec<String>,
    n_ext: usize,
    cur_locals: Option<Body<'tcx>>,
}

// External (non-workspace) functions whose bodies are worth inlining.
const INLINE_EXT: &[&str] = &[
    "core::option::", "std::option::", "core::result::", "std::result::", "core::ops::", "std::ops::",
    "core::convert::", "std::convert::", "core::cmp::", "std::cmp::", "core::bool::", "std::bool::",
    "core::mem::swap", "core::mem::replace", "core::mem::take","std::mem::swap", "std::mem::replace", "std::mem::take",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let s = with_no_trimmed_paths!(format!("{}", t));
        let mut o = format!("{{\"s\":{}", esc(&s));
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => { let _ = write!(o, ",\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64)); }
            ty::Uint(i) => { let _ = write!(o, ",\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64)); }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Ref(_, x, m) => { let x = self.ty(x); let _ = write!(o, ",\"k\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut()); }
            ty::RawPtr(x, m) => { let x = self.ty(x); let _ = write!(o, ",\"k\":\"ptr\",\"to\":{},\"mut\":{}", x, m.is_mut()); }
            ty::Slice(x) => { let x = self.ty(x); let _ = write!(o, ",\"k\":\"slice\",\"of\":{}", x); }
            ty::Array(x, n) => {
                let x = self.ty(x);
                let n = match n.try_to_target_usize(tcx) { Some(n) => n.to_string(), None => esc(&format!("{}", n)) };
                let _ = write!(o, ",\"k\":\"array\",\"of\":{},\"len\":{}", x, n);
            }
            ty::Tuple(l) => {
                let l: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"f\":{}", list(&l));
            }
            ty::Adt(def, args) => {
                let a = self.gargs(args);
                let _ = write!(o, ",\"k\":\"adt\",\"path\":{},\"args\":{},\"kind\":\"{}\"", esc(&self.path(def.did())), a,
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" });
                // only expand fields for types whose fields matter
                let p = self.path(def.did());
                let local = def.did().is_local();
                let expand = local || def.is_enum() || !(p.starts_with("alloc::") || p.starts_with("std::") || p.starts_with("core::"));
                if expand {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = ft.skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new(ft)).unwrap_or(ft);
                            let fi = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                        }
                        vs.push(format!("{{\"n\":{},\"f\":{}}}", esc(v.name.as_str()), list(&fs)));
                    }
                    let _ = write!(o, ",\"variants\":{}", list(&vs));
                    if def.is_enum() {
                        let ds: Vec<String> = def.discriminants(tcx).map(|(_, d)| format!("{}", d.val)).collect();
                        let _ = write!(o, ",\"discrs\":{}", list(&ds));
                    }
                }
            }
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"up\":{}", esc(&self.path(d)), list(&up));
            }
            ty::FnDef(d, args) => {
                let a = self.gargs(args.skip_binder());
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{},\"args\":{}", esc(&self.path(d)), a);
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Param(p) => { let _ = write!(o, ",\"k\":\"param\",\"n\":{}", esc(p.name.as_str())); }
            ty::Alias(..) => { let _ = write!(o, ",\"k\":\"alias\""); }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.ty_out[id] = o;
        id
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(self.ty(t).to_string()); }
            else if let Some(c) = a.as_const() {
                match c.try_to_target_usize(self.tcx) {
                    Some(n) => v.push(esc(&n.to_string())),
                    None => v.push(esc(&format!("{}", c))),
                }
            }
        }
        list(&v)
    }

    // ---------------- constants -----------------
    fn bytes_of(&self, aid: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(aid)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if (off + len) as usize > m.len() { return None; }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: usize) -> String {
        match s {
            Scalar::Int(i) => {
                let v = i.to_bits_unchecked();
                let v = if let ty::Int(it) = t.kind() {
                    let b = it.bit_width().unwrap_or(64) as u32;
                    let sh = 128 - b;
                    format!("{}", ((v << sh) as i128) >> sh)
                } else { format!("{}", v) };
                if let ty::Adt(..) | ty::Tuple(..) = t.kind() {
                    return self.destructure(ConstValue::Scalar(s), t, depth);
                }
                format!("{{\"i\":\"{}\"}}", v)
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match t.kind() {
                    ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                        match self.tcx.try_get_global_alloc(aid) {
                            Some(GlobalAlloc::Memory(_)) => {
                                let inner = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, *to, depth + 1);
                                format!("{{\"ref\":{}}}", inner)
                            }
                            Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", esc(&self.path(d))),
                            Some(GlobalAlloc::Function { instance }) => format!("{{\"fnptr\":{}}}", esc(&self.path(instance.def_id()))),
                            _ => "{\"opaque\":\"ptr\"}".into(),
                        }
                    }
                    ty::Adt(..) | ty::Tuple(..) => self.destructure(ConstValue::Scalar(s), t, depth),
                    _ => match self.tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Function { instance }) => format!("{{\"fnptr\":{}}}", esc(&self.path(instance.def_id()))),
                        _ => "{\"opaque\":\"ptr\"}".into(),
                    },
                }
            }
        }
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let r = self.tcx.try_destructure_mir_constant_for_user_output(v, t);
        match r {
            Some(d) => {
                let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                match t.kind() {
                    ty::Array(..) => format!("{{\"arr\":{}}}", list(&fs)),
                    ty::Tuple(..) => format!("{{\"tup\":{}}}", list(&fs)),
                    _ => {
                        let ti = self.ty(t);
                        format!("{{\"adt\":{},\"v\":{},\"f\":{}}}", ti, d.variant.map(|x| x.as_usize()).unwrap_or(0), list(&fs))
                    }
                }
            }
            None => "{\"opaque\":\"destructure\"}".into(),
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if depth > 24 || t.has_param() { return "{\"opaque\":\"depth\"}".into(); }
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        match v {
            ConstValue::ZeroSized => { let ti = self.ty(t); format!("{{\"zst\":{}}}", ti) }
            ConstValue::Scalar(s) => match t.kind() {
                ty::Array(..) => self.destructure(v, t, depth),
                _ => self.scalar(s, t, depth),
            },
            ConstValue::Slice { alloc_id, meta } => {
                match t.kind() {
                    ty::Ref(_, to, _) => match to.kind() {
                        ty::Str => match self.bytes_of(alloc_id, 0, meta) {
                            Some(b) => format!("{{\"ref\":{{\"str\":{}}}}}", esc(&String::from_utf8_lossy(&b))),
                            None => "{\"opaque\":\"str\"}".into(),
                        },
                        ty::Slice(el) => { let s = self.slice(alloc_id, 0, meta, *el, depth); format!("{{\"ref\":{}}}", s) }
                        _ => "{\"opaque\":\"slice\"}".into(),
                    },
                    _ => "{\"opaque\":\"slice\"}".into(),
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                match *t.kind() {
                    ty::Array(el, n) => {
                        match n.try_to_target_usize(tcx) {
                            Some(n) => self.slice(alloc_id, offset.bytes(), n, el, depth),
                            None => "{\"opaque\":\"len\"}".into(),
                        }
                    }
                    ty::Adt(..) | ty::Tuple(..) => {
                        if self.bytes_of(alloc_id, 0, 0).is_none() { return "{\"opaque\":\"alloc\"}".into(); }
                        self.destructure(v, t, depth)
                    }
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                        let sz = match tcx.layout_of(env.as_query_input(t)) { Ok(l) => l.size.bytes(), Err(_) => return "{\"opaque\":\"layout\"}".into() };
                        match self.bytes_of(alloc_id, offset.bytes(), sz) {
                            Some(b) => { let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                                let x = if let ty::Int(_) = t.kind() { let sh = 128 - 8 * sz as u32; format!("{}", ((x << sh) as i128) >> sh) } else { x.to_string() };
                                format!("{{\"i\":\"{}\"}}", x) }
                            None => "{\"opaque\":\"bytes\"}".into(),
                        }
                    }
                    ty::Ref(_, to, _) => {
                        // read pointer (and possibly length) from the allocation
                        let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) else { return "{\"opaque\":\"refalloc\"}".into() };
                        let m = m.inner();
                        let Some(prov) = m.provenance().get_ptr(offset) else { return "{\"opaque\":\"noprov\"}".into() };
                        let aid = prov.alloc_id();
                        let Some(off) = self.bytes_of(alloc_id, offset.bytes(), 8) else { return "{\"opaque\":\"off\"}".into() };
                        let off = u64::from_le_bytes(off.try_into().unwrap());
                        let inner = match *to.kind() {
                            ty::Str | ty::Slice(_) => {
                                let Some(l) = self.bytes_of(alloc_id, offset.bytes() + 8, 8) else { return "{\"opaque\":\"meta\"}".into() };
                                let l = u64::from_le_bytes(l.try_into().unwrap());
                                match *to.kind() {
                                    ty::Str => match self.bytes_of(aid, off, l) { Some(b) => format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b))), None => "{\"opaque\":\"str\"}".into() },
                                    ty::Slice(el) => self.slice(aid, off, l, el, depth),
                                    _ => unreachable!(),
                                }
                            }
                            _ if !to.is_sized(tcx, env) => return "{\"opaque\":\"unsized\"}".into(),
                            _ => match tcx.try_get_global_alloc(aid) {
                                Some(GlobalAlloc::Memory(_)) => self.cval(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) }, to, depth + 1),
                                Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", esc(&self.path(d))),
                                _ => "{\"opaque\":\"ptr\"}".into(),
                            },
                        };
                        format!("{{\"ref\":{}}}", inner)
                    }
                    _ => "{\"opaque\":\"indirect\"}".into(),
                }
            }
        }
    }
    fn slice(&mut self, aid: interpret::AllocId, off: u64, n: u64, el: Ty<'tcx>, depth: usize) -> String {
        let env = TypingEnv::fully_monomorphized();
        if let ty::Uint(ty::UintTy::U8) = el.kind() {
            return match self.bytes_of(aid, off, n) { Some(b) => format!("{{\"bytes\":\"{}\"}}", Self::hex(&b)), None => "{\"opaque\":\"bytes\"}".into() };
        }
        if n > 4096 { return "{\"opaque\":\"big\"}".into(); }
        let sz = match self.tcx.layout_of(env.as_query_input(el)) { Ok(l) => l.size.bytes(), Err(_) => return "{\"opaque\":\"layout\"}".into() };
        if self.bytes_of(aid, off, n * sz).is_none() { return "{\"opaque\":\"alloc\"}".into(); }
        let v: Vec<String> = (0..n).map(|i| self.cval(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + i * sz) }, el, depth + 1)).collect();
        format!("{{\"arr\":{}}}", list(&v))
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span, root: &str) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"ty\":{}", ti);
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"promoted\":{}", p.as_usize());
                } else {
                    let _ = write!(o, ",\"def\":{}", esc(&self.path(u.def)));
                    let a = self.gargs(u.args);
                    let _ = write!(o, ",\"args\":{}", a);
                }
            }
            Const::Ty(_, k) => { if k.has_non_region_param() { let _ = write!(o, ",\"param\":{}", esc(&format!("{}", k))); } }
            _ => {}
        }
        if let ty::FnDef(..) = t.kind() {
            let f = self.callee(t, env, root);
            let _ = write!(o, ",\"fn\":{}", f);
        } else if !c.has_non_region_param() {
            if let Ok(v) = c.eval(self.tcx, env, span) {
                let s = self.cval(v, t, 0);
                let _ = write!(o, ",\"val\":{}", s);
            }
        } else if let Const::Unevaluated(u, _) = c {
            // generic promoted / provided constant: dump its body so the reader can evaluate it
            if u.promoted.is_none() {
                let (rd, ra) = match Instance::try_resolve(self.tcx, env, u.def, self.tcx.erase_and_anonymize_regions(u.args)) {
                    Ok(Some(i)) => (i.def_id(), i.args),
                    _ => (u.def, u.args),
                };
                if rd.is_local() && matches!(self.tcx.def_kind(rd), DefKind::AssocConst{..} | DefKind::Const{..}) && rd.as_local().map_or(false, |l| self.tcx.hir_maybe_body_owned_by(l).is_some()) {
                    let key = format!("{}#const<{}>@{}", self.path(rd), with_no_trimmed_paths!(format!("{:?}", ra)), root);
                    let _ = write!(o, ",\"pbody\":{}", esc(&key));
                    if self.seen.insert(key.clone()) {
                        let inst = Instance::new_raw(rd, ra);
                        let b = self.tcx.mir_for_ctfe(rd);
                        self.body(&key, inst, env, root, Some(b));
                    }
                }
            }
            if let Some(p) = u.promoted {
                let key = format!("{}#promoted{}<{}>@{}", self.path(u.def), p.as_usize(), with_no_trimmed_paths!(format!("{:?}", u.args)), root);
                let _ = write!(o, ",\"pbody\":{}", esc(&key));
                if self.seen.insert(key.clone()) {
                    let inst = Instance::new_raw(u.def, u.args);
                    let b = &self.tcx.promoted_mir(u.def)[p];
                    self.body(&key, inst, env, root, Some(b));
                }
            }
        }
        o.push('}');
        o
    }

    // ---------------- callees -----------------
    fn callee(&mut self, ft: Ty<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        let tcx = self.tcx;
        match *ft.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let p = self.path(d);
                let mut o = format!("{{\"path\":{},\"name\":{}", esc(&p), esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
                let a = self.gargs(args);
                let _ = write!(o, ",\"args\":{}", a);
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
                    if args.len() > 0 { if let Some(s) = args[0].as_type() { let s = self.ty(s); let _ = write!(o, ",\"self\":{}", s); } }
                } else if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
                    let st = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(st)).unwrap_or(st);
                    let s = self.ty(st);
                    let _ = write!(o, ",\"self\":{}", s);
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    o.push_str(",\"ctor\":true");
                }
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let r = self.inst_ref(inst, env, root);
                    o.push_str(&r);
                }
                o.push('}');
                o
            }
            _ => { let t = self.ty(ft); format!("{{\"indirect\":{}}}", t) }
        }
    }
    fn inst_ref(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut o = String::new();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            _ => "shim",
        };
        let rp = self.path(d);
        let _ = write!(o, ",\"rpath\":{},\"rkind\":\"{}\"", esc(&rp), kind);
        let _ = write!(o, ",\"local\":{}", d.is_local());
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"rimpl\":{}", esc(&with_no_trimmed_paths!(format!("{}", st))));
        }
        let key = self.key(inst, root);
        let cn = tcx.crate_name(d.krate).to_string();
        let inline_ext = !d.is_local() && kind == "item" && matches!(cn.as_str(), "core" | "alloc" | "std") && INLINE_EXT.iter().any(|p| rp.contains(p));
        let want = match inst.def {
            InstanceKind::Item(d) => (d.is_local() || inline_ext) && tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..)),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        if want {
            let _ = write!(o, ",\"inst\":{}", esc(&key));
            if self.seen.insert(key.clone()) {
                if !d.is_local() { self.n_ext += 1; }
                self.queue.push_back((key, inst, env, root.to_string()));
            }
        }
        o
    }
    fn key(&self, inst: Instance<'tcx>, root: &str) -> String {
        let p = self.path(inst.def_id());
        let k = match inst.def { InstanceKind::Item(_) => "", InstanceKind::Shim(ShimKind::ClosureOnce{..}) => "#once", InstanceKind::Shim(ShimKind::FnPtr(..)) => "#fnptr", _ => "#shim" };
        let a = with_no_trimmed_paths!(format!("{:?}", self.tcx.erase_and_anonymize_regions(inst.args)));
        if inst.args.has_param() { format!("{}{}{}@{}", p, k, a, root) } else if inst.args.types().next().is_none() && inst.args.consts().next().is_none() { format!("{}{}", p, k) } else { format!("{}{}{}", p, k, a) }
    }

    // ---------------- bodies -----------------
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".into(),
            });
        }
        list(&v)
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.konst(&c.const_, env, c.span, root)),
            #[allow(unreachable_patterns)]
            _ => "{\"c\":{\"runtime_check\":1}}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env, root)),
            Rvalue::Repeat(o, n) => { let n = match n.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => esc(&format!("{}", n)) }; format!("[\"repeat\",{},{}]", self.operand(o, env, root), n) }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let t2 = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, env, root), t2) }
            Rvalue::BinaryOp(b, bx) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(&bx.0, env, root), self.operand(&bx.1, env, root)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(o, env, root)),
            Rvalue::Discriminant(p) => { let t = p.ty(&self.cur_locals.as_ref().unwrap().local_decls, self.tcx).ty; let t = self.ty(t); format!("[\"discr\",{},{}]", self.place(p), t) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env, root)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "\"array\"".into(),
                    AggregateKind::Tuple => "\"tuple\"".into(),
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, vi.as_usize(), uf.map(|x| x.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        // enqueue the closure body
                        let inst = Instance::new_raw(*d, args);
                        let r = self.inst_ref(inst, env, root);
                        format!("[\"closure\",{},{{\"x\":0{}}}]", ti, r)
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\"".into(),
                    _ => "\"other\"".into(),
                };
                format!("[\"agg\",{},{}]", k, list(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            _ => "[\"other\"]".into(),
        }
    }
    fn line(&self, s: rustc_span::Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn file(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        format!("{}", self.tcx.sess.source_map().lookup_char_pos(s.lo()).file.name.prefer_local_unconditionally())
    }
    fn body(&mut self, key: &str, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str, given: Option<&'tcx Body<'tcx>>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw = match given { Some(b) => b, None => tcx.instance_mir(inst.def) };
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => { self.bodies.push(format!("{{\"key\":{},\"path\":{},\"fail\":true}}", esc(key), esc(&self.path(d)))); return; }
        };
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let saved = self.cur_locals.replace(body.clone());
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let pl = self.place(&bx.0);
                        let rv = self.rvalue(&bx.1, env, root);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        st.push(format!("[\"sd\",{},{}]", pl, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(bx) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**bx {
                            let a = self.operand(&c.src, env, root); let b2 = self.operand(&c.dst, env, root); let n = self.operand(&c.count, env, root);
                            st.push(format!("[\"copy\",{},{},{}]", a, b2, n));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, env, root);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", o, list(&v), targets.otherwise().as_usize(), dt, ln)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", target.as_usize(), p) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let mut f = self.callee(ft, env, root);
                    if f.starts_with("{\"indirect\"") {
                        let o = self.operand(func, env, root);
                        f = format!("{{\"ptr\":{}}}", o);
                    }
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env, root)).collect();
                    let dst = self.place(destination);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty);
                    format!("[\"call\",{},{},{},{},{},{}]", f, list(&a), dst, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), ln, dty)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let o = self.operand(cond, env, root);
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(30).collect();
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, target.as_usize(), esc(&m), ln)
                }
                _ => "[\"abort\"]".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{}{}}}", list(&st), tj, if bb.is_cleanup { ",\"cl\":1" } else { "" }));
        }
        self.cur_locals = saved;
        let sp = tcx.def_span(d);
        let p = self.path(d);
        let vis = if d.is_local() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
        let mut extra = String::new();
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(extra, ",\"impl_self\":{}", sti);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_trait\":{}", esc(&with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))));
            }
        }
        let s = format!("{{\"key\":{},\"path\":{},\"name\":{},\"local\":{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":{},\"names\":{},\"pub\":{},\"exp\":{},\"root\":{}{},\"spread\":{},\"bbs\":{}}}",
            esc(key), esc(&p), esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()), d.is_local(), esc(&self.file(sp)), self.line(sp), body.arg_count, list(&locals), list(&names), vis,
            sp.from_expansion(), esc(root), extra,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), list(&bbs));
        self.bodies.push(s);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("OZDUMP_DIR") { dump(tcx, &dir); }
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
    let want = std::env::var("OZDUMP_CRATES").unwrap_or_default();
    if !want.split(',').any(|c| c == crate_name) { return; }
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![], n_ext: 0, cur_locals: None };
    let mut roots = 0;
    for &ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        // skip derive / sol! generated code unless reached from other code
        let sp = tcx.def_span(d);
        if sp.from_expansion() {
            let mut skip = false;
            for e in sp.macro_backtrace() {
                let n = e.kind.descr();
                if n.contains("sol") && !n.contains("solidity") && !n.contains("sol_interface") { skip = true; }
                if matches!(n.as_str(), "Debug" | "Clone" | "PartialEq" | "Eq" | "Hash" | "Default" | "sol" | "SolidityError" | "sol_storage") && n != "PartialEq" && n != "Clone" { skip = true; }
            }
            // the topic list of an event states which fields are indexed
            if skip && tcx.opt_item_name(d).map(|n| n.as_str() == "topics").unwrap_or(false) { skip = false; }
            if skip { continue; }
        }
        roots += 1;
        let args = GenericArgs::identity_for_item(tcx, d);
        let inst = Instance::new_raw(d, args);
        let root = cx.path(d);
        let env = TypingEnv::post_analysis(tcx, ld);
        let key = cx.key(inst, &root);
        if cx.seen.insert(key.clone()) { cx.queue.push_back((key, inst, env, root)); }
    }
    // generic associated constants, with their identity arguments
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::AssocConst{..}) || !tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
        if tcx.hir_maybe_body_owned_by(ld).is_none() || tcx.def_span(d).from_expansion() { continue; }
        let inst = Instance::new_raw(d, GenericArgs::identity_for_item(tcx, d));
        let root = cx.path(d);
        let key = format!("{}#assoc@{}", root, root);
        if cx.seen.insert(key.clone()) {
            let b = tcx.mir_for_ctfe(d);
            cx.body(&key, inst, TypingEnv::post_analysis(tcx, ld), &root, Some(b));
        }
    }
    while let Some((key, inst, env, root)) = cx.queue.pop_front() {
        cx.body(&key, inst, env, &root, None);
    }
    // constants
    let mut consts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Const{..} | DefKind::AssocConst{..}) { continue; }
        if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
        if let Some(tr) = tcx.trait_of_assoc(d) { let _ = tr; continue; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let p = cx.path(d);
        let v = match tcx.const_eval_poly(d) { Ok(v) => cx.cval(v, t, 0), Err(_) => "{\"opaque\":\"err\"}".into() };
        let ti = cx.ty(t);
        let sp = tcx.def_span(d);
        let mut extra = String::new();
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(extra, ",\"self\":{}", esc(&with_no_trimmed_paths!(format!("{}", st))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"trait\":{}", esc(&with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))));
            }
        }
        consts.push(format!("{{\"path\":{},\"name\":{},\"ty\":{},\"val\":{},\"file\":{},\"line\":{}{}}}", esc(&p), esc(tcx.item_name(d).as_str()), ti, v, esc(&cx.file(sp)), cx.line(sp), extra));
    }
    // provided constants of local traits, evaluated for each concrete implementation
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
            let tr = match tcx.impl_opt_trait_ref(d) { Some(t) => t.instantiate_identity().skip_norm_wip(), None => continue };
            if !tr.def_id.is_local() { continue; }
            let own: HashSet<String> = tcx.associated_items(d).in_definition_order().map(|i| i.opt_name().map(|n| n.to_string()).unwrap_or_default()).collect();
            for it in tcx.associated_items(tr.def_id).in_definition_order() {
                if !matches!(tcx.def_kind(it.def_id), DefKind::AssocConst{..}) { continue; }
                let nm = it.opt_name().map(|n| n.to_string()).unwrap_or_default();
                if own.contains(&nm) { continue; }
                let env = TypingEnv::fully_monomorphized();
                let t = match tcx.try_instantiate_and_normalize_erasing_regions(tr.args, env, tcx.type_of(it.def_id)) { Ok(t) => t, Err(_) => continue };
                let c = Const::Unevaluated(UnevaluatedConst { def: it.def_id, args: tcx.erase_and_anonymize_regions(tr.args), promoted: None }, t);
                let v = match c.eval(tcx, env, tcx.def_span(d)) { Ok(v) => cx.cval(v, t, 0), Err(_) => "{\"opaque\":\"err\"}".into() };
                let ti = cx.ty(t);
                let sp = tcx.def_span(d);
                let st = with_no_trimmed_paths!(format!("{}", tr.self_ty()));
                let trs = with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()));
                consts.push(format!("{{\"path\":{},\"name\":{},\"ty\":{},\"val\":{},\"file\":{},\"line\":{},\"self\":{},\"trait\":{},\"provided\":true}}", esc(&format!("<{} as {}>::{}", st, trs, nm)), esc(&nm), ti, v, esc(&cx.file(sp)), cx.line(sp), esc(&st), esc(&trs)));
            }
        }
    }
    // impl table
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let s = with_no_trimmed_paths!(format!("{}", st));
            let tr = if of_trait { tcx.impl_opt_trait_ref(d).map(|t| with_no_trimmed_paths!(format!("{}", t.instantiate_identity().skip_norm_wip().print_only_trait_path()))) } else { None };
            let items: Vec<String> = tcx.associated_items(d).in_definition_order().map(|i| esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str())).collect();
            let sp = tcx.def_span(d);
            let mut at = vec![];
            if of_trait {
                for i in tcx.associated_items(d).in_definition_order() {
                    if tcx.def_kind(i.def_id) == DefKind::AssocTy && !tcx.generics_of(i.def_id).requires_monomorphization(tcx) {
                        let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                        at.push(format!("[{},{}]", esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), esc(&with_no_trimmed_paths!(format!("{}", t)))));
                    }
                }
            }
            impls.push(format!("{{\"self\":{},\"trait\":{},\"items\":{},\"assoc\":{},\"file\":{},\"line\":{}}}", esc(&s), tr.map(|t| esc(&t)).unwrap_or("null".into()), list(&items), list(&at), esc(&cx.file(sp)), cx.line(sp)));
        }
    }
    // adts & fns & traits
    let mut adts = vec![];
    let mut fns = vec![];
    let mut traits = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let sp = tcx.def_span(d);
                let mut fv = vec![];
                for v in tcx.adt_def(d).variants() { for f in v.fields.iter() { fv.push(format!("[{},{}]", esc(f.name.as_str()), esc(&format!("{:?}", f.vis)))); } }
                adts.push(format!("{{\"path\":{},\"ty\":{},\"file\":{},\"line\":{},\"exp\":{},\"vis\":{}}}", esc(&cx.path(d)), ti, esc(&cx.file(sp)), cx.line(sp), sp.from_expansion(), list(&fv)));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sp = tcx.def_span(d);
                let mut extra = String::new();
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"impl_self\":{}", esc(&with_no_trimmed_paths!(format!("{}", st))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"impl_trait\":{}", esc(&with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))));
                    }
                }
                if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(extra, ",\"in_trait\":{}", esc(&cx.path(tr))); }
                let sig = with_no_trimmed_paths!(format!("{}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip()));
                fns.push(format!("{{\"path\":{},\"name\":{},\"file\":{},\"line\":{},\"pub\":{},\"exp\":{},\"sig\":{}{}}}", esc(&cx.path(d)), esc(tcx.item_name(d).as_str()), esc(&cx.file(sp)), cx.line(sp), tcx.visibility(d).is_public(), sp.from_expansion(), esc(&sig), extra));
            }
            DefKind::Trait => {
                let items: Vec<String> = tcx.associated_items(d).in_definition_order().map(|i| esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str())).collect();
                traits.push(format!("{{\"path\":{},\"items\":{}}}", esc(&cx.path(d)), list(&items)));
            }
            _ => {}
        }
    }
    let out = format!("{{\"crate\":{},\"roots\":{},\"types\":{},\"bodies\":{},\"consts\":{},\"impls\":{},\"adts\":{},\"fns\":{},\"traits\":{}}}",
        esc(&crate_name), roots, list(&cx.ty_out), list(&cx.bodies), list(&consts), list(&impls), list(&adts), list(&fns), list(&traits));
    let f = format!("{}/{}.json", dir, crate_name);
    let tmp = format!("{}.tmp", f);
    std::fs::write(&tmp, out).unwrap();
    std::fs::rename(&tmp, &f).unwrap();
    eprintln!("ozdump: {} roots={} bodies={} ext={}", crate_name, roots, cx.bodies.len(), cx.n_ext);
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    if std::env::var("OZDUMP_DIR").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("--cap-lints=allow".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
