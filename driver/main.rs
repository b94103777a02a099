// MIR dumper for fourleaf: exports the type-checked, resolved program as JSON.
//
// Every non-closure fn of the local crate is a "root".  For each root the
// driver walks the callees in the root's own typing environment, resolves
// trait method calls as far as the environment permits, and dumps each
// reachable body (with the instance's generic arguments substituted).
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_crate_prefix;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::print::with_no_visible_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    crate_name: String,
    env: ty::TypingEnv<'tcx>,
    env_id: usize,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    insts: HashMap<(usize, InstKey<'tcx>), usize>,
    inst_json: Vec<String>,
    bodies: Vec<(usize, String)>,
    work: Vec<(usize, Instance<'tcx>)>,
    promoteds: HashMap<(usize, DefId, GenericArgsRef<'tcx>, usize), ()>,
    cur_inst: usize,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
enum InstKey<'tcx> {
    Res(Instance<'tcx>, Option<DefId>),
    Unres(DefId, GenericArgsRef<'tcx>),
}

fn body_allowed(cx: &Cx<'_>, def: DefId) -> bool {
    if def.is_local() {
        return true;
    }
    let tcx = cx.tcx;
    let cname = tcx.crate_name(def.krate);
    let cname = cname.as_str();
    if cname == "fourleaf" || cname == "quick_error" || cname == "fl_models" {
        return true;
    }
    let path = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(def)));
    let p2 = tcx.def_path(def).to_string_no_crate_verbose();
    match cname {
        "core" => {
            let ok = [
                "::option::", "::result::", "::ops::", "::convert::", "::cmp::", "::num::",
                "::clone::", "::default::", "::iter::", "::array::", "::bool::", "::tuple::",
                "::borrow::", "::hint::", "::char::convert", "::any::", "::slice::index::",
                "::internal_macros::", "::range::", "::slice::", "::cell::", "::io::write::",
            ];
            let bad = [
                "::iter::traits::iterator::Iterator::sum", "::num::fmt", "::num::imp", "::num::flt2dec",
                "::num::dec2flt", "::num::bignum", "::slice::sort", "::slice::memchr",
                "::slice::ascii", "::slice::rotate", "::slice::cmp",
            ];
            ok.iter().any(|m| p2.starts_with(m)) && !bad.iter().any(|m| p2.starts_with(m))
        }
        "alloc" => {
            p2.starts_with("::borrow::")
                || (p2.starts_with("::io::read::") && !p2.contains("read_to_end")
                    && !p2.contains("read_to_string") && !p2.contains("read_buf"))
        }
        "std" => {
            p2.starts_with("::io::") && !p2.contains("copy") && !p2.contains("stdio")
                && !path.contains("read_to_end") && !p2.contains("::io::error")
        }
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, s: String) -> String {
        // local items print with a "crate::" prefix
        let mut out = String::with_capacity(s.len() + 16);
        let b: Vec<char> = s.chars().collect();
        let pat: Vec<char> = "crate::".chars().collect();
        let mut i = 0;
        while i < b.len() {
            let boundary = i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_');
            if boundary && b[i..].starts_with(&pat) {
                out.push_str(&self.crate_name);
                out.push_str("::");
                i += pat.len();
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        out
    }
    fn path(&self, d: DefId) -> String {
        let s = with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        )));
        self.fix(s)
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        let s = with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))));
        self.fix(s)
    }
    fn norm<T>(&self, v: T) -> T
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy,
    {
        let e = self.tcx.erase_and_anonymize_regions(v);
        match self
            .tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(e))
        {
            Ok(v) => v,
            Err(_) => e,
        }
    }
    fn args_json(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                let id = self.ty(t);
                v.push(format!("{}", id));
            } else if let Some(c) = a.as_const() {
                v.push(q(&format!("{}", c)));
            }
        }
        list(&v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let s = self.ty_str(t);
        let tcx = self.tcx;
        let rest = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Ref(_, t, m) => {
                let i = self.ty(t);
                format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), i)
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(t);
                format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), i)
            }
            ty::Slice(t) => {
                let i = self.ty(t);
                format!("\"k\":\"slice\",\"t\":{}", i)
            }
            ty::Array(t, n) => {
                let i = self.ty(t);
                let n = match n.try_to_target_usize(tcx) {
                    Some(n) => format!("{}", n),
                    None => q(&format!("{}", n)),
                };
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", i, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| format!("{}", self.ty(t))).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", list(&v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", q(p.name.as_str())),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let inst = self.inst(d, args);
                format!("\"k\":\"fndef\",\"inst\":{}", inst)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, args) => {
                let v: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| format!("{}", self.ty(t)))
                    .collect();
                format!("\"k\":\"closure\",\"path\":{},\"ts\":{}", q(&self.path(d)), list(&v))
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let cn = tcx.crate_name(def.did().krate).to_string();
                let with_fields = def.did().is_local()
                    || ["core", "quick_error", "fourleaf", "fl_models"].contains(&cn.as_str())
                    || path.starts_with("alloc::borrow::")
                    || path.starts_with("std::io::");
                let aj = self.args_json(args);
                let mut vs = vec![];
                let discrs: Vec<String> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| format!("{}", d.val as i128)).collect()
                } else {
                    vec!["0".to_string()]
                };
                if def.is_enum() || (with_fields && def.is_struct()) {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = if with_fields {
                                format!("{}", {
                                    let t = f.ty(tcx, args).skip_norm_wip();
                                    self.ty(t)
                                })
                            } else {
                                "-1".to_string()
                            };
                            fs.push(format!("[{},{}]", q(f.name.as_str()), ft));
                        }
                        vs.push(format!(
                            "{{\"name\":{},\"d\":{},\"f\":{}}}",
                            q(v.name.as_str()),
                            discrs.get(vi.as_usize()).cloned().unwrap_or("0".into()),
                            list(&fs)
                        ));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"args\":{},\"enum\":{},\"union\":{},\"crate\":{},\"vs\":{}",
                    q(&path), aj, def.is_enum(), def.is_union(), q(&cn), list(&vs)
                )
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[id] = format!("{{\"s\":{},{}}}", q(&s), rest);
        id
    }

    fn provided_instead(&self, d: DefId, args: GenericArgsRef<'tcx>) -> bool {
        let tcx = self.tcx;
        let Some(tr) = tcx.trait_of_assoc(d) else { return false };
        if self.path(tr) != "core::iter::traits::iterator::Iterator" {
            return false;
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        if !["for_each", "fold", "all", "any", "find", "find_map"].contains(&name.as_str()) {
            return false;
        }
        match args.type_at(0).kind() {
            ty::Adt(a, _) => {
                let p = self.path(a.did());
                p == "core::slice::iter::Iter" || p == "core::slice::iter::IterMut"
            }
            _ => false,
        }
    }

    /// Resolve (def, args) in the current root's environment.
    fn inst(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> usize {
        let tcx = self.tcx;
        let args = self.norm(args);
        let res = match tcx.def_kind(d) {
            // iterators over slices walk raw pointers; by the contract of Iterator the
            // provided method of the trait, in terms of next(), does the same
            DefKind::AssocFn if self.provided_instead(d, args) => Some(Instance::new_raw(d, args)),
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(_, CtorKind::Fn) => {
                Instance::try_resolve(tcx, self.env, d, args).ok().flatten()
            }
            DefKind::Closure => Some(Instance::new_raw(d, args)),
            _ => None,
        };
        match res {
            Some(i) => {
                let decl = if i.def.def_id() != d { Some(d) } else { None };
                self.inst_res(i, decl)
            }
            None => {
                let key = (self.env_id, InstKey::Unres(d, args));
                if let Some(&i) = self.insts.get(&key) {
                    return i;
                }
                let id = self.inst_json.len();
                self.insts.insert(key, id);
                self.inst_json.push(String::new());
                let aj = self.args_json(args);
                let path = self.path(d);
                let tr = tcx.trait_of_assoc(d).map(|t| self.path(t)).unwrap_or_default();
                self.inst_json[id] = format!(
                    "{{\"kind\":\"unresolved\",\"path\":{},\"decl\":{},\"name\":{},\"args\":{},\"trait\":{},\"crate\":{}}}",
                    q(&path), q(&path),
                    q(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
                    aj, q(&tr), q(tcx.crate_name(d.krate).as_str())
                );
                id
            }
        }
    }

    fn inst_res(&mut self, i: Instance<'tcx>, decl: Option<DefId>) -> usize {
        let tcx = self.tcx;
        let key = (self.env_id, InstKey::Res(i, decl));
        if let Some(&x) = self.insts.get(&key) {
            return x;
        }
        let id = self.inst_json.len();
        self.insts.insert(key, id);
        self.inst_json.push(String::new());
        let d = i.def.def_id();
        let (kind, avail) = match i.def {
            InstanceKind::Item(d) => {
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    ("ctor", false)
                } else {
                    ("item", body_allowed(self, d) && tcx.is_mir_available(d)
                        && !tcx.is_foreign_item(d))
                }
            }
            InstanceKind::Intrinsic(_) => ("intrinsic", false),
            InstanceKind::Virtual(..) => ("virtual", false),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => ("closure_once", true),
            InstanceKind::Shim(ShimKind::FnPtr(..)) => ("fnptr_shim", true),
            InstanceKind::Shim(ShimKind::Clone(..)) => ("clone_shim", true),
            InstanceKind::Shim(ShimKind::Reify(..)) => ("reify", false),
            _ => ("other", false),
        };
        let aj = self.args_json(i.args);
        let path = self.path(d);
        let declp = decl.map(|d| self.path(d)).unwrap_or(path.clone());
        let mut extra = String::new();
        // For trait impl methods: name the trait method.
        let tm = tcx.opt_associated_item(d).and_then(|ai| ai.trait_item_def_id());
        if let Some(tm) = tm {
            let _ = write!(extra, ",\"trait_item\":{}", q(&self.path(tm)));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate(tcx, i.args).skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(extra, ",\"impl_self\":{}", st);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"trait\":{}", q(&self.path(tr)));
        }
        if kind == "ctor" {
            let parent = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.parent(parent);
                (adt, tcx.adt_def(adt).variant_index_with_ctor_id(d).as_usize())
            } else {
                (parent, 0)
            };
            let at = tcx.type_of(adt).instantiate(tcx, i.args).skip_norm_wip();
            let at = self.ty(at);
            let _ = write!(extra, ",\"adt\":{},\"variant\":{}", at, vi);
        }
        self.inst_json[id] = format!(
            "{{\"kind\":{},\"path\":{},\"decl\":{},\"name\":{},\"args\":{},\"crate\":{},\"body\":{},\"env\":{}{}}}",
            q(kind), q(&path), q(&declp),
            q(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            aj, q(tcx.crate_name(d.krate).as_str()), avail, self.env_id, extra
        );
        if avail {
            self.work.push((id, i));
        }
        id
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(&v))
    }

    fn scalar_bytes(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        let g = self.tcx.try_get_global_alloc(alloc)?;
        let a = match g {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => a,
            _ => return None,
        };
        let inner = a.inner();
        if (off + len) as usize > inner.len() {
            return None;
        }
        Some(
            inner
                .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize)
                .to_vec(),
        )
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        use rustc_middle::mir::interpret::Scalar;
        let tcx = self.tcx;
        let tid = self.ty(t);
        match v {
            ConstValue::ZeroSized => Some(format!("{{\"o\":\"zst\",\"t\":{}}}", tid)),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let sz = i.size().bits();
                let val: String = match t.kind() {
                    ty::Int(_) => {
                        let sh = 128 - sz as u32;
                        format!("{}", ((bits << sh) as i128) >> sh)
                    }
                    _ => format!("{}", bits),
                };
                Some(format!("{{\"o\":\"int\",\"v\":{},\"t\":{}}}", val, tid))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                // reference to sized memory, or a fn pointer
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Function { instance }) =
                    tcx.try_get_global_alloc(aid)
                {
                    let i = self.inst_res(instance, None);
                    return Some(format!("{{\"o\":\"fnptr\",\"inst\":{},\"t\":{}}}", i, tid));
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(et, n) = inner.kind() {
                        if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                if let Some(b) = self.scalar_bytes(aid, off.bytes(), n) {
                                    let v: Vec<String> =
                                        b.iter().map(|x| format!("{}", x)).collect();
                                    return Some(format!(
                                        "{{\"o\":\"bytes\",\"b\":{},\"t\":{}}}",
                                        list(&v),
                                        tid
                                    ));
                                }
                            }
                        }
                    }
                    if let ty::Uint(_) | ty::Int(_) | ty::Bool | ty::Char = inner.kind() {
                        let sz = match tcx.layout_of(self.env.as_query_input(*inner)) {
                            Ok(l) => l.size.bytes(),
                            Err(_) => return None,
                        };
                        let b = self.scalar_bytes(aid, off.bytes(), sz)?;
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        return Some(format!(
                            "{{\"o\":\"refint\",\"v\":{},\"t\":{}}}", x, tid));
                    }
                }
                Some(format!("{{\"o\":\"ptr\",\"s\":{},\"t\":{}}}", q(&format!("{:?}", aid)), tid))
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.scalar_bytes(alloc_id, 0, meta)?;
                let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if is_str {
                    Some(format!(
                        "{{\"o\":\"str\",\"v\":{},\"t\":{}}}",
                        q(&String::from_utf8_lossy(&b)), tid
                    ))
                } else {
                    let v: Vec<String> = b.iter().map(|x| format!("{}", x)).collect();
                    Some(format!("{{\"o\":\"bytes\",\"b\":{},\"t\":{}}}", list(&v), tid))
                }
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let c = self.norm(*c);
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            let i = self.inst(d, args);
            return format!("{{\"o\":\"fn\",\"inst\":{},\"t\":{}}}", i, tid);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // dump the promoted body so that the analysis can evaluate it
                let body = &tcx.promoted_mir(u.def)[p];
                let body = ty::EarlyBinder::bind(tcx, body.clone())
                    .instantiate(tcx, u.args)
                    .skip_norm_wip();
                let key = (self.env_id, u.def, u.args, p.as_usize());
                let i = if self.promoteds.contains_key(&key) {
                    String::new()
                } else {
                    self.promoteds.insert(key, ());
                    String::new()
                };
                let _ = i;
                let b = self.body(&body);
                return format!("{{\"o\":\"promoted\",\"body\":{},\"t\":{}}}", b, tid);
            }
        }
        if let Ok(v) = c.eval(tcx, self.env, DUMMY_SP) {
            if let Some(s) = self.const_val(v, t) {
                return s;
            }
        }
        if let Const::Unevaluated(u, _) = c {
            let p = self.path(u.def);
            let aj = self.args_json(u.args);
            return format!("{{\"o\":\"constitem\",\"path\":{},\"args\":{},\"t\":{}}}", q(&p), aj, tid);
        }
        format!("{{\"o\":\"opaque\",\"s\":{},\"t\":{}}}", q(&format!("{:?}", c)), tid)
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                format!("{{\"o\":\"int\",\"v\":0,\"t\":{}}}", t)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(*n);
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => format!("{}", n),
                    None => q(&format!("{}", n)),
                };
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, _, p) => {
                format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let kind = format!("{:?}", k);
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{}}}", q(&kind), self.operand(o), t)
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                q(&format!("{:?}", op)), self.operand(&ab.0), self.operand(&ab.1)
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"r\":\"un\",\"op\":{},\"a\":{}}}", q(&format!("{:?}", op)), self.operand(a)
            ),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p))
            }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                let (kind, extra) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = self
                            .tcx
                            .type_of(*d)
                            .instantiate(self.tcx, args)
                            .skip_norm_wip();
                        let t = self.ty(t);
                        (
                            "adt",
                            format!(
                                ",\"t\":{},\"v\":{},\"af\":{}",
                                t,
                                vi.as_usize(),
                                af.map(|f| f.as_usize() as i64).unwrap_or(-1)
                            ),
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        // closure body
                        let i = self.inst(*d, args);
                        ("closure", format!(",\"t\":{},\"inst\":{}", t, i))
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", String::new()),
                    _ => ("other", String::new()),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"fs\":{}{}}}", q(kind), list(&v), extra)
            }
            _ => format!("{{\"r\":\"other\",\"s\":{}}}", q(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| format!("{}", self.ty(l.ty)))
            .collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), q(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[\"dead\",{}]", l.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = {
                let sm = tcx.sess.source_map();
                let sp = t.source_info.span.source_callsite();
                let loc = sm.lookup_char_pos(sp.lo());
                format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tyd = discr.ty(&body.local_decls, tcx);
                    let signed = match tyd.kind() {
                        ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match signed {
                                Some(w) => {
                                    let sh = 128 - w as u32;
                                    format!("{}", ((v << sh) as i128) >> sh)
                                }
                                None => format!("{}", v),
                            };
                            format!("[{},{}]", v, b.as_usize())
                        })
                        .collect();
                    format!(
                        "[\"switch\",{},{},{}]",
                        self.operand(discr), list(&vs), targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        o => format!("other:{:?}", std::mem::discriminant(o)),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond), expected, q(&m), target.as_usize(), q(&line)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let dplace = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f, list(&a), dplace,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1), q(&line)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                o => format!("[\"other\",{}]", q(&format!("{:?}", o))),
            };
            blocks.push(format!("[{},{},{}]", list(&st), tj, if bb.is_cleanup { 1 } else { 0 }));
        }
        let spread = body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"bb\":{}}}",
            body.arg_count, spread, list(&locals), list(&names), list(&blocks)
        )
    }

    fn drain(&mut self) {
        let tcx = self.tcx;
        while let Some((id, i)) = self.work.pop() {
            self.cur_inst = id;
            let b = tcx.instance_mir(i.def).clone();
            let eb = ty::EarlyBinder::bind(tcx, b);
            let b = if i.def.has_polymorphic_mir_body() {
                eb.instantiate(tcx, i.args).skip_norm_wip()
            } else {
                eb.instantiate_identity().skip_norm_wip()
            };
            let s = self.body(&b);
            self.bodies.push((id, s));
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or("fourleaf".into());
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        if !want.split(',').any(|w| w == cname) {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            crate_name: cname.clone(),
            env: ty::TypingEnv::fully_monomorphized(),
            env_id: 0,
            tys: HashMap::new(),
            ty_json: vec![],
            insts: HashMap::new(),
            inst_json: vec![],
            bodies: vec![],
            work: vec![],
            promoteds: HashMap::new(),
            cur_inst: 0,
        };
        let eff = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut n = 0usize;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            n += 1;
            cx.env_id = n;
            cx.env = ty::TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = cx.norm(args);
            let i = Instance::new_raw(d, args);
            let id = cx.inst_res(i, None);
            cx.drain();
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let sig = tcx.liberate_late_bound_regions(d, sig);
            let ins: Vec<String> = sig.inputs().iter().map(|t| format!("{}", cx.ty(*t))).collect();
            let outt = cx.ty(sig.output());
            let mut extra = String::new();
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let _ = write!(extra, ",\"impl_self\":{}", st);
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let aj = cx.args_json(tr.args);
                    let _ = write!(extra, ",\"impl_trait\":{},\"trait_args\":{}", q(&cx.path(tr.def_id)), aj);
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(extra, ",\"in_trait\":{}", q(&cx.path(tr)));
            }
            let sp = tcx.def_span(d).source_callsite();
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let derived = tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            roots.push(format!(
                "{{\"inst\":{},\"path\":{},\"name\":{},\"mod\":{},\"vis\":{},\"reach\":{},\"derived\":{},\"ins\":{},\"out\":{},\"file\":{},\"line\":{}{}}}",
                id, q(&cx.path(d)), q(tcx.item_name(d).as_str()),
                q(&{ let m = tcx.parent_module_from_def_id(ld).to_def_id(); cx.path(m) }),
                tcx.visibility(d).is_public(), eff.is_reachable(ld), derived,
                list(&ins), outt,
                q(&format!("{}", loc.file.name.prefer_local_unconditionally())), loc.line, extra
            ));
        }
        // trait impls of the local crate, for coverage tables
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                cx.env = ty::TypingEnv::post_analysis(tcx, d);
                n += 1;
                cx.env_id = n;
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let aj = cx.args_json(tr.args);
                let items: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| {
                        let name = i.opt_name().map(|s| s.to_string()).unwrap_or_default();
                        let t = if matches!(i.kind, ty::AssocKind::Type { .. }) {
                            let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            format!("{}", cx.ty(t))
                        } else {
                            "-1".to_string()
                        };
                        format!("[{},{}]", q(&name), t)
                    })
                    .collect();
                impls.push(format!(
                    "{{\"trait\":{},\"args\":{},\"items\":{},\"path\":{}}}",
                    q(&cx.path(tr.def_id)), aj, list(&items), q(&cx.path(d))
                ));
            }
        }
        let mut o = String::new();
        o.push_str("{\"crate\":");
        o.push_str(&q(&cname));
        o.push_str(",\"tys\":[\n");
        o.push_str(&cx.ty_json.join(",\n"));
        o.push_str("],\"insts\":[\n");
        o.push_str(&cx.inst_json.join(",\n"));
        o.push_str("],\"roots\":[\n");
        o.push_str(&roots.join(",\n"));
        o.push_str("],\"impls\":[\n");
        o.push_str(&impls.join(",\n"));
        o.push_str("],\"bodies\":{\n");
        let b: Vec<String> = cx.bodies.iter().map(|(i, s)| format!("\"{}\":{}", i, s)).collect();
        o.push_str(&b.join(",\n"));
        o.push_str("}}\n");
        std::fs::write(format!("{}.{}.json", out, cname), o).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let Ok(extra) = std::env::var("MIRDUMP_FLAGS") {
        let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
        if !is_query {
            for f in extra.split_whitespace() {
                args.push(f.to_string());
            }
        }
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
