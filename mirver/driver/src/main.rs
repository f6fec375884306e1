//! MIR exporter: a rustc driver that type-checks the crate it is given and, starting from its `root_*`
//! functions, writes the monomorphic MIR of everything reachable (except below the cut) as JSON.
//! It only reads what the compiler produced; it does not change or interpret the program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    inst_json: Vec<String>,
    statics: HashMap<DefId, String>,
    vtables: HashMap<(Ty<'tcx>, Ty<'tcx>), String>,
    keep: Vec<String>,
    cut: Vec<String>,
    opaque: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn raw_path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn longest(list: &[String], p: &str) -> usize {
        list.iter().filter(|x| p.starts_with(x.as_str())).map(|x| x.len() + 1).max().unwrap_or(0)
    }
    fn want_body(&self, d: DefId) -> bool {
        let p = self.raw_path(d);
        Self::longest(&self.keep, &p) > Self::longest(&self.cut, &p)
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, t: T) -> T {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }

    fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
        arr(&v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        if let ty::Pat(inner, _) = *t.kind() {
            let i = self.ty(inner);
            self.tys.insert(t, i);
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let name = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{t}")));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", it.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let raw = self.raw_path(def.did());
                let ga = self.generic_args(args);
                let op = Self::longest(&self.opaque, &raw) > Self::longest(&self.keep, &raw);
                let mut variants = vec![];
                if !op {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                        }
                        variants.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), esc(&discr), arr(&fs)));
                    }
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let drop = match tcx.adt_destructor(def.did()) {
                    Some(d) if self.want_body(def.did()) => {
                        // the Drop::drop method of this type, with the type's own arguments
                        let inst = Instance::try_resolve(tcx, self.env, d.did, args).ok().flatten();
                        match inst {
                            Some(x) => self.inst(x).to_string(),
                            None => "null".into(),
                        }
                    }
                    _ => "null".into(),
                };
                let hasdrop = tcx.adt_destructor(def.did()).is_some();
                format!(
                    "\"k\":\"adt\",\"path\":{},\"raw\":{},\"args\":{},\"kind\":\"{}\",\"opaque\":{},\"variants\":{},\"drop\":{},\"hasdrop\":{}",
                    esc(&path), esc(&raw), ga, kind, op, arr(&variants), drop, hasdrop
                )
            }
            ty::Ref(_, to, m) => format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(to)),
            ty::RawPtr(to, m) => format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(to)),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", arr(&v))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(e), n)
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
            ty::Closure(def, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| { let t = self.norm(t); self.ty(t).to_string() }).collect();
                let inst = Instance::new_raw(def, args);
                let kind = format!("{:?}", args.as_closure().kind());
                let idx = self.inst(inst);
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"inst\":{},\"ckind\":{}", esc(&self.path(def)), arr(&ups), idx, esc(&kind))
            }
            ty::Coroutine(def, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|t| { let t = self.norm(t); self.ty(t).to_string() }).collect();
                let inst = Instance::new_raw(def, args);
                let idx = self.inst(inst);
                let mut vf = vec![];
                let mut saved = vec![];
                if self.want_body(def) && tcx.is_mir_available(def) {
                    if let Ok(l) = tcx.coroutine_layout(def, args) {
                        for v in l.variant_fields.iter() {
                            let x: Vec<String> = v.iter().map(|s| s.as_usize().to_string()).collect();
                            vf.push(arr(&x));
                        }
                        for s in l.field_tys.iter() {
                            let st = tcx.instantiate_and_normalize_erasing_regions(args, self.env, ty::EarlyBinder::bind(tcx, s.ty));
                            saved.push(self.ty(st).to_string());
                        }
                    }
                }
                format!("\"k\":\"coroutine\",\"path\":{},\"upvars\":{},\"inst\":{},\"vf\":{},\"saved\":{}", esc(&self.path(def)), arr(&ups), idx, arr(&vf), arr(&saved))
            }
            ty::FnDef(def, args) => self.fndef(def, args.skip_binder()),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[i] = format!("{{\"name\":{},{}}}", esc(&name), body);
        i
    }

    /// the fields describing a function item: generic path, type arguments and the resolved instance
    fn fndef(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(def);
        let ga = self.generic_args(args);
        let inst = match tcx.def_kind(def) {
            DefKind::Fn | DefKind::AssocFn => Instance::try_resolve(tcx, self.env, def, args).ok().flatten(),
            _ => None,
        };
        let i = match inst {
            Some(x) => self.inst(x).to_string(),
            None => "null".into(),
        };
        let ctor = match tcx.def_kind(def) {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(def);
                let (adt, vi) = match tcx.def_kind(parent) {
                    DefKind::Variant => {
                        let e = tcx.parent(parent);
                        (e, tcx.adt_def(e).variant_index_with_id(parent).as_usize())
                    }
                    _ => (parent, 0),
                };
                let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
                let t = self.norm(t);
                format!("[{},{}]", self.ty(t), vi)
            }
            _ => "null".into(),
        };
        format!("\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{},\"ctor\":{}", esc(&path), ga, i, ctor)
    }

    fn inst(&mut self, x: Instance<'tcx>) -> usize {
        if let Some(i) = self.insts.get(&x) {
            return *i;
        }
        let i = self.inst_list.len();
        self.insts.insert(x, i);
        self.inst_list.push(x);
        self.inst_json.push(String::new());
        i
    }

    fn dump_inst(&mut self, i: usize) {
        let tcx = self.tcx;
        let x = self.inst_list[i];
        let def = x.def_id();
        let kind = match x.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".into(),
            InstanceKind::Virtual(_, n) => format!("virtual:{n}"),
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => "closure_once".into(),
                ShimKind::FnPtr(..) => "fnptr_shim".into(),
                ShimKind::Clone(..) => "clone_shim".into(),
                ShimKind::DropGlue(..) => "drop_glue".into(),
                ShimKind::Reify(..) => "reify".into(),
                ShimKind::VTable(..) => "vtable_shim".into(),
                _ => "shim".into(),
            },
        };
        let path = self.path(def);
        let raw = self.raw_path(def);
        let ga = self.generic_args(x.args);
        let has = match x.def {
            InstanceKind::Item(d) => {
                self.want_body(d) && tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..))
            }
            InstanceKind::Shim(s) => matches!(s, ShimKind::ClosureOnce { .. } | ShimKind::Clone(..) | ShimKind::FnPtr(..) | ShimKind::Reify(..)),
            _ => false,
        };
        let body = if has { self.dump_body(x) } else { "null".into() };
        let span = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(def));
        let parent_impl_trait = match tcx.trait_impl_of_assoc(def) {
            Some(im) => {
                let tr = tcx.impl_trait_ref(im).skip_binder().def_id;
                format!("{}::{}", self.path(tr), tcx.item_name(def))
            }
            None => String::new(),
        };
        self.inst_json[i] = format!(
            "{{\"path\":{},\"raw\":{},\"trait\":{},\"args\":{},\"kind\":{},\"span\":{},\"body\":{}}}",
            esc(&path), esc(&raw), esc(&parent_impl_trait), ga, esc(&kind), esc(&span), body
        );
    }

    fn dump_body(&mut self, x: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let body = tcx.instance_mir(x.def);
        let body = x.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(&body, s) {
                    st.push(j);
                }
            }
            let t = self.term(&body, bb.terminator());
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(&st), t));
        }
        let spread = body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        format!(
            "{{\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}}}",
            body.arg_count, arr(&locals), arr(&names), spread, arr(&blocks)
        )
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally().to_string_lossy(), l.line)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            pr.push(match e {
                Deref => "[\"*\"]".to_string(),
                Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                OpaqueCast(_) | UnwrapUnsafeBinder(_) => "[\"oc\"]".to_string(),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(&pr))
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                format!("[\"k\",{},{}]", ti, self.constant(&c.const_, t))
            }
            mir::Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, t: Ty<'tcx>) -> String {
        if let ty::FnDef(..) = t.kind() {
            return "{\"k\":\"zst\"}".into();
        }
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => "{\"k\":\"opaque\"}".into(),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"k\":\"opaque\"}".into();
        }
        if let ty::Pat(inner, _) = *t.kind() {
            return self.cval(v, inner, depth + 1);
        }
        match (*t.kind(), v) {
            (ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char, ConstValue::Scalar(Scalar::Int(i))) => {
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"sz\":{}}}", i.to_bits_unchecked(), i.size().bytes())
            }
            (ty::Ref(_, to, _) | ty::RawPtr(to, _), ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let ti = self.ty(to);
                        self.static_(d, to);
                        format!("{{\"k\":\"static\",\"path\":{},\"ty\":{}}}", esc(&self.raw_path(d)), ti)
                    }
                    GlobalAlloc::Memory(_) => {
                        if matches!(to.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..)) {
                            return "{\"k\":\"opaque\"}".into();
                        }
                        let inner = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let ti = self.ty(to);
                        format!("{{\"k\":\"ref\",\"ty\":{},\"to\":{}}}", ti, self.cval(inner, to, depth + 1))
                    }
                    _ => "{\"k\":\"opaque\"}".into(),
                }
            }
            (_, ConstValue::ZeroSized) => match *t.kind() {
                ty::Adt(def, _) if def.is_struct() => {
                    "{\"k\":\"zst\"}".to_string()
                }
                _ => "{\"k\":\"zst\"}".into(),
            },
            (ty::Ref(_, to, _), ConstValue::Slice { .. }) if matches!(to.kind(), ty::Str) || matches!(to.kind(), ty::Slice(e) if e.is_integral()) => {
                match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => {
                        let x: Vec<String> = b.iter().map(|y| y.to_string()).collect();
                        format!("{{\"k\":\"bytes\",\"str\":{},\"v\":{}}}", to.is_str(), arr(&x))
                    }
                    None => "{\"k\":\"opaque\"}".into(),
                }
            }
            (ty::Ref(_, to, _), ConstValue::Indirect { .. }) if matches!(to.kind(), ty::Str) => {
                match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => {
                        let x: Vec<String> = b.iter().map(|y| y.to_string()).collect();
                        format!("{{\"k\":\"bytes\",\"str\":true,\"v\":{}}}", arr(&x))
                    }
                    None => "{\"k\":\"opaque\"}".into(),
                }
            }
            (ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char, ConstValue::Indirect { alloc_id, offset }) => {
                let size = tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size).ok();
                if let (Some(size), GlobalAlloc::Memory(a)) = (size, tcx.global_alloc(alloc_id)) {
                    let r = mir::interpret::AllocRange { start: offset, size };
                    if let Ok(Scalar::Int(i)) = a.inner().read_scalar(&tcx, r, false) {
                        return format!("{{\"k\":\"int\",\"v\":\"{}\",\"sz\":{}}}", i.to_bits_unchecked(), i.size().bytes());
                    }
                }
                "{\"k\":\"opaque\"}".into()
            }
            (ty::Ref(_, to, _) | ty::RawPtr(to, _), ConstValue::Indirect { alloc_id, offset }) if to.is_sized(tcx, self.env) => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let size = tcx.data_layout.pointer_size();
                    let r = mir::interpret::AllocRange { start: offset, size };
                    if let Ok(s @ Scalar::Ptr(..)) = a.inner().read_scalar(&tcx, r, true) {
                        return self.cval(ConstValue::Scalar(s), t, depth + 1);
                    }
                }
                "{\"k\":\"opaque\"}".into()
            }
            (ty::Adt(..) | ty::Tuple(_) | ty::Array(..), _) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).map(|x| x > 4096).unwrap_or(true) {
                        return "{\"k\":\"opaque\"}".into();
                    }
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return "{\"k\":\"opaque\"}".into();
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<String> = d.fields.iter().map(|(v, t)| { let ti = self.ty(*t); let c = self.cval(*v, *t, depth + 1); format!("[{},{}]", ti, c) }).collect();
                        let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                        format!("{{\"k\":\"agg\",\"variant\":{},\"fields\":{}}}", vi, arr(&fs))
                    }
                    None => "{\"k\":\"opaque\"}".into(),
                }
            }
            _ => "{\"k\":\"opaque\"}".into(),
        }
    }

    fn static_(&mut self, d: DefId, t: Ty<'tcx>) {
        if self.statics.contains_key(&d) {
            return;
        }
        self.statics.insert(d, String::new());
        let ti = self.ty(t);
        let init = if self.want_body(d) && !self.tcx.is_mutable_static(d) {
            match self.tcx.eval_static_initializer(d) {
                Ok(a) => {
                    let id = self.tcx.reserve_and_set_memory_alloc(a);
                    self.cval(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t, 0)
                }
                Err(_) => "{\"k\":\"opaque\"}".into(),
            }
        } else {
            "{\"k\":\"opaque\"}".into()
        };
        let j = format!("{{\"path\":{},\"ty\":{},\"init\":{}}}", esc(&self.raw_path(d)), ti, init);
        self.statics.insert(d, j);
    }

    fn unsize_pair(&self, s: Ty<'tcx>, d: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        match (s.kind(), d.kind()) {
            (_, ty::Dynamic(..)) => if matches!(s.kind(), ty::Dynamic(..)) { None } else { Some((s, d)) },
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => self.unsize_pair(*a, *b),
            (ty::Adt(x, xa), ty::Adt(y, ya)) if x == y => {
                for (a, b) in xa.iter().zip(ya.iter()) {
                    if let (Some(a), Some(b)) = (a.as_type(), b.as_type()) {
                        if a != b {
                            if let Some(r) = self.unsize_pair(a, b) {
                                return Some(r);
                            }
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn vtable(&mut self, s: Ty<'tcx>, d: Ty<'tcx>) {
        let tcx = self.tcx;
        if self.vtables.contains_key(&(s, d)) {
            return;
        }
        self.vtables.insert((s, d), String::new());
        let ty::Dynamic(preds, _) = d.kind() else { return };
        let si = self.ty(s);
        let di = self.ty(d);
        let mut ms = vec![];
        if let Some(p) = preds.principal() {
            let p = tcx.instantiate_bound_regions_with_erased(p);
            let tr = p.with_self_ty(tcx, s);
            let tr = tcx.erase_and_anonymize_regions(tr);
            for e in tcx.vtable_entries(tr) {
                if let ty::VtblEntry::Method(inst) = e {
                    // name the trait method it implements
                    let def = inst.def_id();
                    let name = match tcx.trait_impl_of_assoc(def) {
                        Some(im) => format!("{}::{}", self.path(tcx.impl_trait_ref(im).skip_binder().def_id), tcx.item_name(def)),
                        None => self.path(def),
                    };
                    let i = self.inst(*inst);
                    ms.push(format!("[{},{}]", esc(&name), i));
                }
            }
        }
        let j = format!("{{\"src\":{},\"dst\":{},\"methods\":{}}}", si, di, arr(&ms));
        self.vtables.insert((s, d), j);
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.raw_path(*d))),
            RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, self.tcx);
                let kind = match k {
                    mir::CastKind::PointerCoercion(pc, _) => {
                        if let ty::adjustment::PointerCoercion::Unsize = pc {
                            if let Some((a, b)) = self.unsize_pair(st, *t) {
                                self.vtable(a, b);
                            }
                        }
                        if let ty::adjustment::PointerCoercion::ReifyFnPointer(_) = pc {}
                        format!("{pc:?}")
                    }
                    k => format!("{k:?}"),
                };
                let s = self.ty(st);
                let d = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&kind), self.operand(o), s, d)
            }
            BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{op:?}")), self.operand(&ab.0), self.operand(&ab.1), ti)
            }
            UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!("[\"un\",{},{},{}]", esc(&format!("{op:?}")), self.operand(a), ti)
            }
            Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                let dt = t.discriminant_ty(self.tcx);
                let di = self.ty(dt);
                format!("[\"discr\",{},{},{}]", self.place(p), ti, di)
            }
            Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kind, ti, vi, fi) = match **k {
                    mir::AggregateKind::Array(t) => ("array", self.ty(t), 0, None),
                    mir::AggregateKind::Tuple => ("tuple", 0, 0, None),
                    mir::AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        ("adt", self.ty(t), vi.as_usize(), fi)
                    }
                    mir::AggregateKind::Closure(d, a) => ("closure", self.ty(Ty::new_closure(self.tcx, d, a)), 0, None),
                    mir::AggregateKind::Coroutine(d, a) => ("coroutine", self.ty(Ty::new_coroutine(self.tcx, d, a)), 0, None),
                    mir::AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(t), 0, None),
                    _ => ("other", 0, 0, None),
                };
                let fi = fi.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                format!("[\"agg\",\"{}\",{},{},{},{}]", kind, ti, vi, fi, arr(&v))
            }
            CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn stmt(&mut self, body: &mir::Body<'tcx>, s: &mir::Statement<'tcx>) -> Option<String> {
        use mir::StatementKind::*;
        let ln = self.line(s.source_info.span);
        match &s.kind {
            Assign(b) => Some(format!("[\"=\",{},{},{}]", self.place(&b.0), self.rvalue(body, &b.1), esc(&ln))),
            SetDiscriminant { place, variant_index } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                Some(format!("[\"sd\",{},{},{},{}]", self.place(place), variant_index.as_usize(), esc(&ln), ti))
            }
            Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => None,
                mir::NonDivergingIntrinsic::CopyNonOverlapping(_) => Some("[\"cno\"]".into()),
            },
            _ => None,
        }
    }

    fn term(&mut self, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> String {
        use mir::TerminatorKind::*;
        let ln = esc(&self.line(t.source_info.span));
        match &t.kind {
            Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            FalseEdge { real_target, .. } | FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            SwitchInt { discr, targets } => {
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                let dt = discr.ty(&body.local_decls, self.tcx);
                let ti = self.ty(dt);
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr), arr(&v), targets.otherwise().as_usize(), ti, ln)
            }
            Return => "[\"ret\"]".into(),
            Unreachable => format!("[\"unreachable\",{}]", ln),
            Drop { place, target, .. } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_usize(), ti, ln)
            }
            Call { func, args, destination, target, .. } => {
                let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                let ft = func.ty(&body.local_decls, self.tcx);
                let f = if let ty::FnDef(d, ga) = *ft.kind() {
                    format!("{{{}}}", self.fndef(d, ga.skip_binder()))
                } else {
                    format!("{{\"k\":\"op\",\"op\":{}}}", self.operand(func))
                };
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dti = self.ty(dt);
                let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                format!("[\"call\",{},{},{},{},{},{},{}]", f, arr(&a), self.place(destination), tg, dti, ln, arr(&at))
            }
            Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
                    mir::AssertKind::OverflowNeg(_) => "arithmetic overflow in Neg".into(),
                    mir::AssertKind::DivisionByZero(_) => "division by zero".into(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                    mir::AssertKind::ResumedAfterReturn(_) => "future polled after completion".into(),
                    mir::AssertKind::ResumedAfterPanic(_) => "future polled after panic".into(),
                    _ => "assertion".into(),
                };
                format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(&m), target.as_usize(), ln)
            }
            k => format!("[\"other\",{}]", esc(&format!("{k:?}").chars().take(80).collect::<String>())),
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRVER_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let lists = std::fs::read_to_string(std::env::var("MIRVER_CUT").expect("MIRVER_CUT")).expect("cut file");
        let (mut keep, mut cut, mut opaque) = (vec![], vec![], vec![]);
        for l in lists.lines() {
            let l = l.trim();
            if let Some(x) = l.strip_prefix("keep ") { keep.push(x.trim().to_string()) }
            if let Some(x) = l.strip_prefix("cut ") { cut.push(x.trim().to_string()) }
            if let Some(x) = l.strip_prefix("opaque ") { opaque.push(x.trim().to_string()) }
        }
        let mut cx = Cx {
            tcx, env: TypingEnv::fully_monomorphized(), tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(),
            inst_list: vec![], inst_json: vec![], statics: HashMap::new(), vtables: HashMap::new(), keep, cut, opaque,
        };
        cx.ty(tcx.types.unit);
        let mut roots = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn) && tcx.item_name(d).as_str().starts_with("root_") {
                let n = tcx.item_name(d).to_string();
                let i = cx.inst(Instance::mono(tcx, d));
                roots.push(format!("{}:{}", esc(&n), i));
            }
        }
        let mut i = 0;
        while i < cx.inst_list.len() {
            cx.dump_inst(i);
            i += 1;
        }
        let st: Vec<String> = cx.statics.values().filter(|x| !x.is_empty()).cloned().collect();
        let mut vt: Vec<String> = cx.vtables.values().filter(|x| !x.is_empty()).cloned().collect();
        vt.sort();
        let j = format!(
            "{{\"roots\":{{{}}},\"types\":[\n{}\n],\"fns\":[\n{}\n],\"statics\":{},\"vtables\":{}}}",
            roots.join(","), cx.ty_json.join(",\n"), cx.inst_json.join(",\n"), arr(&st), arr(&vt)
        );
        std::fs::write(out, j).expect("write MIR");
        Compilation::Stop
    }
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
