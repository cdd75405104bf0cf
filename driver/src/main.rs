//! MIR dumper: runs as RUSTC_WORKSPACE_WRAPPER and writes the resolved MIR of the crates named in
//! MIRDUMP_CRATES to $MIRDUMP_OUT/<crate>.json
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if want.split(',').any(|w| w == name) {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let s = rustc_middle::ty::print::with_no_trimmed_paths!(Dumper::new(tcx).run(&name));
            std::fs::write(format!("{}/{}.json", out, name), s).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

/// unsafe operations written in the local crate (inside `unsafe` blocks), unsafe functions and unsafe impls
struct Unsafety<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    owner: String,
    tr: &'tcx ty::TypeckResults<'tcx>,
    depth: u32,
    out: &'a mut Vec<(String, String, String)>,
    span: Box<dyn Fn(rustc_span::Span) -> String + 'a>,
}

impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafety<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        let u = matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided));
        if u {
            self.depth += 1;
        }
        rustc_hir::intravisit::walk_block(self, b);
        if u {
            self.depth -= 1;
        }
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        use rustc_hir::ExprKind as K;
        let on = self.depth > 0;
        let mut add = |op: String| {
            if !on {
                return;
            }
            let sp = (self.span)(e.span);
            self.out.push((self.owner.clone(), op, sp));
        };
        let is_unsafe = |d: DefId| self.tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        match &e.kind {
            K::Call(f, _) => {
                let t = self.tr.expr_ty_adjusted(f);
                match t.kind() {
                    TyKind::FnDef(d, _) if is_unsafe(*d) => add(self.tcx.def_path_str(*d)),
                    TyKind::FnPtr(_, h) if h.safety().is_unsafe() => add("call of an unsafe function pointer".into()),
                    _ => {}
                }
            }
            K::MethodCall(..) => {
                if let Some(d) = self.tr.type_dependent_def_id(e.hir_id) {
                    if is_unsafe(d) {
                        add(self.tcx.def_path_str(d));
                    }
                }
            }
            K::Unary(rustc_hir::UnOp::Deref, x) => {
                if matches!(self.tr.expr_ty_adjusted(x).kind(), TyKind::RawPtr(..)) {
                    add("dereference of a raw pointer".into());
                }
            }
            K::InlineAsm(_) => add("inline assembly".into()),
            K::Field(x, _) => {
                if let TyKind::Adt(a, _) = self.tr.expr_ty_adjusted(x).kind() {
                    if a.is_union() {
                        add("access to a union".into());
                    }
                }
            }
            K::Path(rustc_hir::QPath::Resolved(_, p)) => {
                if let rustc_hir::def::Res::Def(DefKind::Static { mutability, .. }, _) = p.res {
                    if mutability.is_mut() {
                        add("access to a mutable static".into());
                    }
                }
            }
            _ => {}
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

/// replaces the session-specific numbers of constant allocations
fn no_alloc_ids(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut r = s;
    while let Some(i) = r.find("alloc") {
        o.push_str(&r[..i + 5]);
        r = r[i + 5..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    o.push_str(r);
    o
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hexs(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_rows: Vec<Option<String>>,
    queue: VecDeque<(Instance<'tcx>, DefId, u32)>,
    seen: HashSet<String>,
    root: DefId,
    depth: u32,
    files: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper {
            tcx,
            types: HashMap::new(),
            type_rows: vec![],
            queue: VecDeque::new(),
            seen: HashSet::new(),
            root: rustc_hir::def_id::CRATE_DEF_ID.to_def_id(),
            depth: 0,
            files: vec![],
        }
    }
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, self.root)
    }
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    fn vpath(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }
    fn key(&self, i: &Instance<'tcx>) -> String {
        let k = match i.def {
            InstanceKind::Item(d) => {
                if matches!(self.tcx.def_kind(d), DefKind::Closure) {
                    format!("{}<{}>", self.vpath(d), i.args.iter().map(|a| format!("{a}")).collect::<Vec<_>>().join(","))
                } else {
                    self.tcx.def_path_str_with_args(d, i.args)
                }
            }
            InstanceKind::Intrinsic(d) => format!("intrinsic:{}", self.tcx.def_path_str_with_args(d, i.args)),
            InstanceKind::Virtual(d, _) => format!("virtual:{}", self.tcx.def_path_str_with_args(d, i.args)),
            InstanceKind::Shim(ShimKind::DropGlue(_, t)) => format!("dropglue:{:?}", t),
            d => format!("shim:{}|{}", format!("{:?}", d), i.args.iter().map(|a| format!("{a}")).collect::<Vec<_>>().join(",")),
        };
        k
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.type_rows.len();
        self.types.insert(t, id);
        self.type_rows.push(None);
        let s = esc(&format!("{t}"));
        let body = match *t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".to_string(),
            TyKind::Char => "\"k\":\"char\"".to_string(),
            TyKind::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.normalize(64).bit_width().unwrap()),
            TyKind::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.normalize(64).bit_width().unwrap()),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            TyKind::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            TyKind::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"es\":{}", list(v))
            }
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            TyKind::Closure(d, args) => {
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = up.into_iter().map(|x| self.ty(x).to_string()).collect();
                let k = args.as_closure().kind_ty().to_opt_closure_kind().map(|k| format!("{:?}", k)).unwrap_or_default();
                format!("\"k\":\"closure\",\"path\":{},\"up\":{},\"ck\":{}", esc(&self.vpath(d)), list(v), esc(&k))
            }
            TyKind::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&self.path(d))),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            TyKind::Dynamic(p, _) => {
                let pr = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&pr))
            }
            TyKind::Alias(..) => "\"k\":\"alias\"".to_string(),
            TyKind::Adt(def, args) => {
                let targs: Vec<String> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x).to_string()).collect();
                let mut vs = vec![];
                let local_or_small = !def.is_union();
                if local_or_small {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(self.env(), ft)
                                .unwrap_or(ft.skip_norm_wip());
                            let vis = matches!(f.vis, ty::Visibility::Public);
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), self.ty(ft), vis));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", esc(v.name.as_str()), discr, list(fs)));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"args\":{},\"enum\":{},\"variants\":{}",
                    esc(&self.path(def.did())),
                    list(targs),
                    def.is_enum(),
                    list(vs)
                )
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        let nd = t.needs_drop(self.tcx, self.env());
        self.type_rows[id] = Some(format!("{{\"s\":{},{},\"nd\":{}}}", s, body, nd));
        id
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_u32().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_u32()),
                _ => "[\"other\"]".into(),
            });
        }
        list(v)
    }
    fn scalar_at(&mut self, alloc_id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, ty: Ty<'tcx>) -> Option<ConstValue> {
        let a = match self.tcx.global_alloc(alloc_id) {
            GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let size = self.tcx.layout_of(self.env().as_query_input(ty)).ok()?.size;
        let is_ptr = ty.is_any_ptr();
        let ptr_size = self.tcx.data_layout.pointer_size();
        if is_ptr && size != ptr_size {
            return Some(ConstValue::Indirect { alloc_id, offset: off });
        }
        a.inner().read_scalar(&self.tcx, alloc_range(off, size), is_ptr).ok().map(ConstValue::Scalar)
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> String {
        let tid = self.ty(t);
        if depth > 6 {
            return format!("{{\"ty\":{},\"opaque\":true}}", tid);
        }
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                let v = match v {
                    ConstValue::Indirect { alloc_id, offset } => self.scalar_at(alloc_id, offset, t),
                    v => Some(v),
                };
                if let Some(i) = v.and_then(|v| v.try_to_scalar_int()) {
                    let bits = i.to_bits_unchecked();
                    let s = match t.kind() {
                        TyKind::Int(_) => i.to_int(i.size()).to_string(),
                        _ => bits.to_string(),
                    };
                    return format!("{{\"ty\":{},\"int\":{}}}", tid, s);
                }
            }
            TyKind::Pat(inner, _) => return self.constval(v, inner, depth + 1),
            TyKind::FnDef(d, args) => {
                return format!("{{\"ty\":{},\"fn\":{}}}", tid, self.callee(d, args.skip_binder()));
            }
            TyKind::Ref(_, e, _) => {
                let ek = *e.kind();
                let is_bytes = matches!(ek, TyKind::Str) || matches!(ek, TyKind::Slice(x) if x == self.tcx.types.u8);
                if is_bytes {
                    if let Some(b) = match v {
                        ConstValue::Slice { .. } | ConstValue::Indirect { .. } => v.try_get_slice_bytes_for_diagnostics(self.tcx),
                        _ => None,
                    } {
                        return format!("{{\"ty\":{},\"bytes\":\"{}\"}}", tid, hexs(b));
                    }
                }
                if let TyKind::Slice(x) = ek {
                    let (aid, start, len) = match v {
                        ConstValue::Slice { alloc_id, meta } => (Some(alloc_id), rustc_abi::Size::ZERO, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            let ps = self.tcx.data_layout.pointer_size();
                            let a = self.tcx.global_alloc(alloc_id).unwrap_memory();
                            let p = a.inner().read_scalar(&self.tcx, alloc_range(offset, ps), true);
                            let l = a.inner().read_scalar(&self.tcx, alloc_range(offset + ps, ps), false);
                            match (p, l) {
                                (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) => {
                                    let (pr, o) = p.prov_and_relative_offset();
                                    (Some(pr.alloc_id()), o, l.to_bits_unchecked() as u64)
                                }
                                (_, Ok(Scalar::Int(l))) if l.to_bits_unchecked() == 0 => (None, rustc_abi::Size::ZERO, 0),
                                _ => (None, rustc_abi::Size::ZERO, 99999),
                            }
                        }
                        _ => (None, rustc_abi::Size::ZERO, 99999),
                    };
                    if len <= 4096 {
                        if let Ok(l) = self.tcx.layout_of(self.env().as_query_input(x)) {
                            let mut es = vec![];
                            for i in 0..len {
                                let cv = ConstValue::Indirect { alloc_id: aid.unwrap(), offset: start + l.size * i };
                                es.push(self.constval(cv, x, depth + 1));
                            }
                            return format!("{{\"ty\":{},\"refto\":{{\"ty\":{},\"elems\":{}}}}}", tid, self.ty(e), list(es));
                        }
                    }
                }
                let v2 = match v {
                    ConstValue::Indirect { alloc_id, offset } => self.scalar_at(alloc_id, offset, t).unwrap_or(v),
                    v => v,
                };
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v2 {
                    let (pr, o) = p.prov_and_relative_offset();
                    let aid = pr.alloc_id();
                    match self.tcx.global_alloc(aid) {
                        GlobalAlloc::Memory(_) => {
                            let inner = if let TyKind::Array(x, n) = ek {
                                if x == self.tcx.types.u8 {
                                    let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                                    let a = self.tcx.global_alloc(aid).unwrap_memory();
                                    let s = o.bytes() as usize;
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n);
                                    return format!("{{\"ty\":{},\"bytes\":\"{}\"}}", tid, hexs(b));
                                }
                                None
                            } else {
                                None::<String>
                            };
                            let _ = inner;
                            let cv = ConstValue::Indirect { alloc_id: aid, offset: o };
                            let s = self.constval(cv, e, depth + 1);
                            return format!("{{\"ty\":{},\"refto\":{}}}", tid, s);
                        }
                        GlobalAlloc::Static(d) => {
                            let frozen = e.is_freeze(self.tcx, self.env());
                            if d.is_local() && !self.tcx.is_mutable_static(d) && frozen && o.bytes() == 0 {
                                if let Ok(a) = self.tcx.eval_static_initializer(d) {
                                    let aid = self.tcx.reserve_and_set_memory_alloc(a);
                                    let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO };
                                    let s = self.constval(cv, e, depth + 1);
                                    return format!("{{\"ty\":{},\"refto\":{}}}", tid, s);
                                }
                            }
                            return format!("{{\"ty\":{},\"static\":{}}}", tid, esc(&self.path(d)));
                        }
                        _ => {}
                    }
                }
            }
            TyKind::Array(x, n) => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(self.tcx)) {
                    if n <= 4096 {
                        if let Ok(l) = self.tcx.layout_of(self.env().as_query_input(x)) {
                            let mut es = vec![];
                            for i in 0..n {
                                let cv = ConstValue::Indirect { alloc_id, offset: offset + l.size * i };
                                es.push(self.constval(cv, x, depth + 1));
                            }
                            return format!("{{\"ty\":{},\"elems\":{}}}", tid, list(es));
                        }
                    }
                } else if let (ConstValue::ZeroSized, _) = (v, 0) {
                    return format!("{{\"ty\":{},\"elems\":[]}}", tid);
                } else if let (ConstValue::Scalar(s), Some(n)) = (v, n.try_to_target_usize(self.tcx)) {
                    if x == self.tcx.types.u8 {
                        if let Scalar::Int(i) = s {
                            let b = i.to_bits_unchecked().to_le_bytes();
                            let u8t = self.ty(x);
                            let es = b[..n as usize].iter().map(|b| format!("{{\"ty\":{},\"int\":{}}}", u8t, b)).collect();
                            return format!("{{\"ty\":{},\"elems\":{}}}", tid, list(es));
                        }
                    }
                }
            }
            TyKind::Adt(def, _) if !def.is_union() => {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (cv, ct) in d.fields.iter() {
                        fs.push(self.constval(*cv, *ct, depth + 1));
                    }
                    return format!(
                        "{{\"ty\":{},\"variant\":{},\"fields\":{}}}",
                        tid,
                        d.variant.map(|v| v.as_u32()).unwrap_or(0),
                        list(fs)
                    );
                }
            }
            TyKind::Tuple(_) => {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (cv, ct) in d.fields.iter() {
                        fs.push(self.constval(*cv, *ct, depth + 1));
                    }
                    return format!("{{\"ty\":{},\"variant\":0,\"fields\":{}}}", tid, list(fs));
                }
                if let ConstValue::ZeroSized = v {
                    return format!("{{\"ty\":{},\"variant\":0,\"fields\":[]}}", tid);
                }
            }
            TyKind::Closure(..) => {
                if let ConstValue::ZeroSized = v {
                    return format!("{{\"ty\":{},\"zst\":true}}", tid);
                }
            }
            _ => {}
        }
        format!("{{\"ty\":{},\"opaque\":true}}", tid)
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, host: &Instance<'tcx>) -> String {
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = *t.kind() {
            let tid = self.ty(t);
            return format!("{{\"ty\":{},\"fn\":{}}}", tid, self.callee(d, args.skip_binder()));
        }
        let generic = match c.const_ {
            Const::Unevaluated(u, _) => {
                use rustc_middle::ty::TypeVisitableExt;
                u.args.has_non_region_param()
            }
            _ => false,
        };
        if let Const::Unevaluated(u, _) = c.const_ {
            if let (Some(p), true) = (u.promoted, generic) {
                let tid = self.ty(t);
                return format!("{{\"ty\":{},\"promoted\":{},\"of\":{}}}", tid, p.as_u32(), esc(&self.key(host)));
            }
            if generic {
                // try anyway: many generic consts do not depend on their params
                let tid = self.ty(t);
                let (tr, nm) = self.assoc(u.def);
                let st = if tr != "null" { u.args.types().next().map(|x| self.ty(x).to_string()).unwrap_or("null".into()) } else { "null".into() };
                return format!("{{\"ty\":{},\"const\":{},\"trait\":{},\"name\":{},\"self\":{}}}", tid, esc(&self.path(u.def)), tr, nm, st);
            }
        }
        match c.const_.eval(self.tcx, self.env(), DUMMY_SP) {
            Ok(v) => self.constval(v, t, 0),
            Err(_) => {
                let tid = self.ty(t);
                let p = match c.const_ {
                    Const::Unevaluated(u, _) => esc(&self.path(u.def)),
                    _ => esc(&format!("{}", c.const_)),
                };
                format!("{{\"ty\":{},\"const\":{}}}", tid, p)
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, host: &Instance<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(c, host)),
            _ => "{\"rt\":true}".into(),
        }
    }
    fn assoc(&mut self, d: DefId) -> (String, String) {
        let nm = self.tcx.opt_item_name(d).map(|s| esc(s.as_str())).unwrap_or("null".into());
        let tr = self.tcx.trait_of_assoc(d).map(|t| esc(&self.path(t))).unwrap_or("null".into());
        (tr, nm)
    }
    /// describes a callee; enqueues its body when wanted
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let (tr, nm) = self.assoc(d);
        let targs: Vec<String> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x).to_string()).collect();
        let (mut kind, mut key, mut rpath) = ("none", "null".to_string(), "null".to_string());
        let mut local = false;
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env(), d, args) {
            kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
            key = esc(&self.key(&inst));
            let rd = inst.def_id();
            rpath = esc(&self.path(rd));
            local = rd.is_local();
            if !matches!(inst.def, InstanceKind::Virtual(..) | InstanceKind::Intrinsic(_)) {
                self.enqueue(inst);
            }
        }
        format!(
            "{{\"path\":{},\"name\":{},\"trait\":{},\"targs\":{},\"kind\":\"{}\",\"key\":{},\"rpath\":{},\"local\":{}}}",
            esc(&self.path(d)), nm, tr, list(targs), kind, key, rpath, local
        )
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) {
        let d = inst.def_id();
        if self.tcx.is_foreign_item(d) || (matches!(inst.def, InstanceKind::Item(_)) && !self.tcx.is_mir_available(d)) {
            return;
        }
        let depth = if d.is_local() { 0 } else { self.depth + 1 };
        if !d.is_local() {
            if depth > 8 {
                return;
            }
            let p = self.vpath(d);
            let skip = ["core::fmt", "alloc::fmt", "log::", "std::", "core::panicking", "alloc::raw_vec", "alloc::alloc", "core::unicode", "core::num::fmt", "core::slice::sort", "bitflags::parser", "core::intrinsics","alloc::string","core::str::lossy","core::alloc"];
            if skip.iter().any(|s| p.starts_with(s)) {
                return;
            }
            match inst.def {
                InstanceKind::Item(_) => {
                    if !self.tcx.is_mir_available(d) {
                        return;
                    }
                }
                _ => {}
            }
        }
        let k = self.key(&inst);
        if self.seen.insert(k) {
            self.queue.push_back((inst, self.root, depth));
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, host: &Instance<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, host)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, host),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o, host), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(&ops.0, host), self.operand(&ops.1, host))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, host)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o, host)).collect();
                let head = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi.as_u32(), fi.map(|f| f.as_u32().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(d, args);
                        let key = self.key(&inst);
                        self.enqueue(inst);
                        format!("[\"closure\",{}]", esc(&key))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", head, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            _ => "[\"other\"]".into(),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, host: &Instance<'tcx>) -> String {
        let mut locals = vec![];
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(format!("[{},{}]", t, names.get(&l.as_u32()).map(|s| esc(s)).unwrap_or("null".into())));
        }
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", self.place(&b.0), self.rvalue(&b.1, host), esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            st.push("[\"copynonoverlapping\"]".into());
                        }
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    let t = discr.ty(&body.local_decls, self.tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, host), list(v), targets.otherwise().as_u32(), self.ty(t))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let tid = self.ty(t);
                    // find the user Drop impl, if this type has one
                    let mut dk = "null".to_string();
                    if let TyKind::Adt(def, args) = *t.kind() {
                        if let Some(dd) = self.tcx.adt_destructor(def.did()) {
                            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env(), dd.did, args) {
                                dk = esc(&self.key(&i));
                                self.enqueue(i);
                            }
                        }
                    }
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_u32(), tid, dk)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, host);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, host)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        list(a),
                        self.place(destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(len, host), self.operand(index, host)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.operand(x, host), self.operand(y, host)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x, host)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(x, host)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(x, host)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond, host), expected, esc(&k), list(ops), target.as_u32(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"unreachable\"]".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{}}}", list(st), t));
        }
        let spread = body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into());
        format!("\"argc\":{},\"spread\":{},\"locals\":{},\"bbs\":{}", body.arg_count, spread, list(locals), list(bbs))
    }
    fn func(&mut self, inst: Instance<'tcx>) -> Option<(String, String)> {
        let d = inst.def_id();
        let tcx = self.tcx;
        let body: Body<'tcx> = match inst.def {
            InstanceKind::Item(_) => {
                let b = tcx.instance_mir(inst.def);
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, b.clone()))
            }
            InstanceKind::Shim(_) => {
                let b = tcx.instance_mir(inst.def);
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, b.clone()))
            }
            _ => return None,
        };
        let key = self.key(&inst);
        let bs = self.body(&body, &inst);
        let mut proms = vec![];
        if let InstanceKind::Item(_) = inst.def {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                for p in tcx.promoted_mir(d).iter() {
                    let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, p.clone()));
                    proms.push(format!("{{{}}}", self.body(&pb, &inst)));
                }
            }
        }
        // a digest of the body as text (types by name): comparable between configurations
        let mut h = std::hash::DefaultHasher::new();
        if d.is_local() {
            use std::hash::Hash;
            for b in body.basic_blocks.iter() {
                for s in &b.statements {
                    no_alloc_ids(&format!("{:?}", s)).hash(&mut h);
                }
                no_alloc_ids(&format!("{:?}", b.terminator().kind)).hash(&mut h);
            }
        }
        let text = format!("{:016x}", std::hash::Hasher::finish(&h));
        let (tr, nm) = self.assoc(d);
        // impl-of-trait information
        let mut impl_trait = "null".to_string();
        let mut self_ty = "null".to_string();
        if matches!(inst.def, InstanceKind::Item(_)) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(t) = tcx.impl_opt_trait_ref(im) {
                    impl_trait = esc(&self.path(t.skip_binder().def_id));
                }
                let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                self_ty = self.ty(st).to_string();
            }
        }
        let kind = format!("{:?}", tcx.def_kind(d));
        let vis = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
        let unsafe_ = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { tcx.fn_sig(d).skip_binder().safety().is_unsafe() } else { false };
        let sp = esc(&self.span(tcx.def_span(d)));
        let parent = if matches!(tcx.def_kind(d), DefKind::Closure) { esc(&self.vpath(tcx.typeck_root_def_id(d))) } else { "null".into() };
        Some((
            key.clone(),
            format!(
                "{{\"key\":{},\"path\":{},\"vpath\":{},\"name\":{},\"trait\":{},\"impl_trait\":{},\"self\":{},\"kind\":{},\"local\":{},\"pub\":{},\"unsafe\":{},\"span\":{},\"parent\":{},\"text\":\"{}\",\"promoted\":{},{}}}",
                esc(&key), esc(&self.path(d)), esc(&self.vpath(d)), nm, tr, impl_trait, self_ty, esc(&kind), d.is_local(), vis, unsafe_, sp, parent, text, list(proms), bs
            ),
        ))
    }
    fn run(mut self, name: &str) -> String {
        let tcx = self.tcx;
        for l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            self.root = d;
            self.depth = 0;
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            self.enqueue(Instance::new_raw(d, args));
        }
        let mut out = vec![];
        while let Some((i, root, depth)) = self.queue.pop_front() {
            self.root = root;
            if i.def_id().is_local() && matches!(tcx.def_kind(i.def_id()), DefKind::Fn | DefKind::AssocFn) {
                let idargs = ty::GenericArgs::identity_for_item(tcx, i.def_id());
                if i.args == idargs {
                    self.root = i.def_id();
                }
            }
            self.depth = depth;
            if let Some((_, s)) = self.func(i) {
                out.push(s);
            }
        }
        // traits: methods with defaultness
        let mut traits = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Trait => {
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let k = format!("{:?}", it.tag());
                        ms.push(format!("[{},{},{}]", it.opt_name().map(|s| esc(s.as_str())).unwrap_or("null".into()), esc(&k), it.defaultness(tcx).has_value()));
                    }
                    traits.push(format!("{{\"path\":{},\"pub\":{},\"items\":{},\"span\":{}}}", esc(&self.path(d)), tcx.visibility(d).is_public(), list(ms), esc(&self.span(tcx.def_span(d)))));
                }
                DefKind::Impl { of_trait } => {
                    self.root = d;
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let tr = if of_trait { esc(&format!("{}", tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip())) } else { "null".into() };
                    let trp = if of_trait { esc(&self.path(tcx.impl_trait_ref(d).skip_binder().def_id)) } else { "null".into() };
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let k = format!("{:?}", it.tag());
                        let v = if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) { esc(&format!("{}", tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip())) } else { "null".into() };
                        ms.push(format!("[{},{},{},{}]", it.opt_name().map(|s| esc(s.as_str())).unwrap_or("null".into()), esc(&k), esc(&self.path(it.def_id)), v));
                    }
                    impls.push(format!("{{\"path\":{},\"trait\":{},\"trait_path\":{},\"self\":{},\"items\":{},\"span\":{}}}", esc(&self.vpath(d)), tr, trp, st, list(ms), esc(&self.span(tcx.def_span(d)))));
                }
                _ => {}
            }
        }
        // constants (non generic)
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let g = tcx.generics_of(d);
                if g.count() == 0 && (tcx.trait_of_assoc(d).is_none()) {
                    self.root = d;
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let s = self.constval(v, t, 0);
                        consts.push(format!("{{\"path\":{},\"value\":{},\"pub\":{}}}", esc(&self.path(d)), s, tcx.visibility(d).is_public()));
                    }
                }
            }
        }
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Static { .. }) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                statics.push(format!(
                    "{{\"path\":{},\"ty\":{},\"mut\":{},\"freeze\":{},\"thread_local\":{},\"span\":{}}}",
                    esc(&self.path(d)), esc(&format!("{}", t)), tcx.is_mutable_static(d), freeze, tcx.is_thread_local_static(d), esc(&self.span(tcx.def_span(d)))
                ));
            }
        }
        let mut uns: Vec<(String, String, String)> = vec![];
        for l in tcx.hir_body_owners() {
            let d = l.to_def_id();
            if tcx.typeck_root_def_id(d) != d {
                continue;
            }
            let tr = tcx.typeck(l);
            let body = tcx.hir_body_owned_by(l);
            let me = &self;
            let uf = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let mut v = Unsafety { tcx, owner: me.path(d), tr, depth: uf as u32, out: &mut uns, span: Box::new(move |s| me.span(s)) };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
            drop(v);
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                uns.push((self.path(d), "unsafe fn".into(), self.span(tcx.def_span(d))));
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                if tcx.impl_trait_header(d).safety.is_unsafe() && !tcx.def_span(d).from_expansion() {
                    uns.push((self.vpath(d), "unsafe impl".into(), self.span(tcx.def_span(d))));
                }
            }
        }
        let uns: Vec<String> = uns.iter().map(|(a, b, c)| format!("[{},{},{}]", esc(a), esc(b), esc(c))).collect();
        let crates: Vec<String> = tcx.crates(()).iter().filter(|c| tcx.extern_crate(**c).is_some_and(|e| e.is_direct())).map(|c| esc(tcx.crate_name(*c).as_str())).collect();
        let rows: Vec<String> = self.type_rows.iter().map(|r| r.clone().unwrap_or("null".into())).collect();
        let _ = &self.files;
        format!(
            "{{\"crate\":{},\"types\":{},\"traits\":{},\"impls\":{},\"consts\":{},\"unsafe\":{},\"statics\":{},\"crates\":{},\"fns\":[\n{}\n]}}",
            esc(name), list(rows), list(traits), list(impls), list(consts), list(uns), list(statics), list(crates), out.join(",\n")
        )
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
