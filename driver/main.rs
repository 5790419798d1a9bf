//! MIR dumper: prints the type-checked program of crate `gpt` (plus the bodies of the small
//! generic std helpers it reaches) as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv, ShimKind};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.ub_checks = Some(false);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dumper::new(tcx);
        let s = d.run();
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let mut crate_name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
    }
    let out = std::env::var("GPT_MIR_OUT").ok();
    let want = std::env::var("GPT_MIR_CRATE").unwrap_or_else(|_| "gpt".into());
    struct Plain;
    impl Callbacks for Plain {}
    if crate_name == want && out.is_some() {
        let mut cb = Cb { out: out.unwrap() };
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
        let _ = code; std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    } else {
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Key<'tcx> {
    inst: Instance<'tcx>,
    env: Option<ty::ParamEnv<'tcx>>,
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    bodies: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper { tcx, types: vec![], tymap: HashMap::new(), insts: HashMap::new(), queue: VecDeque::new(), bodies: vec![] }
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}:{}", f, lo.line, lo.col.0 + 1)
    }

    fn norm(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn ty(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> usize {
        let t = self.norm(env, t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, id);
        let s = self.ty_str(env, t);
        let d = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t))));
        self.types[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, js(&d), s);
        id
    }

    fn args(&mut self, env: TypingEnv<'tcx>, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(env, t).to_string());
            } else if let Some(c) = x.as_const() {
                v.push(js(&format!("const:{}", c)));
            }
        }
        arr(v)
    }

    fn ty_str(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match *t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".into(),
            TyKind::Char => "\"k\":\"char\"".into(),
            TyKind::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64)),
            TyKind::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64)),
            TyKind::Float(_) => "\"k\":\"float\"".into(),
            TyKind::Str => "\"k\":\"str\"".into(),
            TyKind::Never => "\"k\":\"never\"".into(),
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            TyKind::Array(e, n) => {
                let e = self.ty(env, e);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
            }
            TyKind::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(env, e)),
            TyKind::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(env, e), m.is_mut()),
            TyKind::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(env, e), m.is_mut()),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(env, x).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
            }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let p = self.path(d.into());
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", js(&p), self.args(env, a))
            }
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            TyKind::Closure(d, a) => {
                let c = a.as_closure();
                let up: Vec<String> = c.upvar_tys().iter().map(|x| self.ty(env, x).to_string()).collect();
                let p = self.path(d);
                let kind = format!("{:?}", c.kind());
                let inst = self.closure_inst(env, d, a);
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"ckind\":{},\"inst\":{}", js(&p), arr(up), js(&kind), inst)
            }
            TyKind::Adt(def, a) => {
                let p = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                for (i, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, i).val.to_string() } else { "0".into() };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, a).skip_norm_wip();
                        let ft = self.ty(env, ft);
                        fs.push(format!("[{},{}]", js(f.name.as_str()), ft));
                    }
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), discr, arr(fs)));
                }
                let args = self.args(env, a);
                format!("\"k\":\"adt\",\"adt\":{},\"path\":{},\"local\":{},\"args\":{},\"variants\":{}", js(kind), js(&p), def.did().is_local(), args, arr(vs))
            }
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".into(),
            _ => "\"k\":\"other\"".into(),
        }
    }

    fn closure_inst(&mut self, env: TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        if !tcx.is_mir_available(d) {
            return "null".into();
        }
        let a = tcx.erase_and_anonymize_regions(a);
        let inst = Instance { def: InstanceKind::Item(d), args: a };
        self.inst_id(inst, env).to_string()
    }

    fn inst_id(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let has = inst.args.has_param();
        let env = if has { env } else { TypingEnv::fully_monomorphized() };
        let key = Key { inst, env: if has { Some(env.param_env) } else { None } };
        if let Some(i) = self.insts.get(&key) {
            return *i;
        }
        let id = self.bodies.len();
        self.bodies.push(String::new());
        self.insts.insert(key, id);
        self.queue.push_back((id, inst, env));
        id
    }

    fn dumpable(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let kr = self.tcx.crate_name(d.krate);
        let p = self.path(d);
        match kr.as_str() {
            "core" | "alloc" | "std" => {
                const OK: &[&str] = &[
                    "core::option::", "core::result::", "core::ops::", "core::bool::", "core::convert::",
                    "core::cmp::", "core::tuple::", "core::default::", "core::borrow::", "core::clone::",
                    "core::hint::", "core::iter::sources::", "core::array::equality",
                    "std::option::", "std::result::", "std::ops::", "std::cmp::", "std::convert::", "std::borrow::", "std::clone::", "std::default::",
                    "<", "bool::",
                ];
                OK.iter().any(|x| p.starts_with(x))
            }
            _ => false,
        }
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let ev = tcx.effective_visibilities(());
        let mut consts = vec![];
        let mut adts = vec![];
        let mut drops = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let env = TypingEnv::post_analysis(tcx, d);
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance { def: InstanceKind::Item(d), args };
                    let id = self.inst_id(inst, env);
                    let vis = ev.is_exported(ld);
                    let reach = ev.is_reachable(ld);
                    let mut tr = "null".to_string();
                    let mut selfty = "null".to_string();
                    let mut drv = false;
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        if let Some(t) = tcx.impl_opt_trait_id(imp) {
                            tr = js(&self.path(t));
                        }
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        selfty = self.ty(env, st).to_string();
                        drv = tcx.is_automatically_derived(imp);
                    }
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let uns = !sig.safety().is_safe();
                    roots.push(format!(
                        "{{\"path\":{},\"inst\":{},\"exported\":{},\"reachable\":{},\"trait\":{},\"self\":{},\"derived\":{},\"unsafe\":{},\"span\":{},\"name\":{}}}",
                        js(&self.path(d)), id, vis, reach, tr, selfty, drv, uns, js(&self.span(tcx.def_span(d))),
                        js(tcx.item_name(d).as_str())
                    ));
                    if tr == "\"core::ops::Drop\"" || tr.contains("ops::drop::Drop") || tr.contains("ops::Drop") {
                        drops.push(format!("{{\"self\":{},\"inst\":{}}}", selfty, id));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let g = tcx.generics_of(d);
                    if g.count() > 0 {
                        continue;
                    }
                    let env = TypingEnv::fully_monomorphized();
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let v = match tcx.const_eval_poly(d) {
                        Ok(cv) => self.cval(env, cv, self.norm(env, t), 0),
                        Err(_) => "{\"c\":\"unk\"}".into(),
                    };
                    let ti = self.ty(env, t);
                    consts.push(format!("{{\"path\":{},\"ty\":{},\"exported\":{},\"v\":{},\"span\":{}}}", js(&self.path(d)), ti, ev.is_exported(ld), v, js(&self.span(tcx.def_span(d)))));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(env, t);
                    let adt = tcx.adt_def(d);
                    let mut fs = vec![];
                    for v in adt.variants() {
                        for f in v.fields.iter() {
                            fs.push(format!("[{},{},{}]", js(v.name.as_str()), js(f.name.as_str()), f.vis.is_public()));
                        }
                    }
                    // marker traits, for plain type arguments
                    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
                        ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
                    });
                    let menv = TypingEnv::fully_monomorphized();
                    let mt = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(menv);
                    let imp = |t: Option<DefId>| t.map(|t| infcx.type_implements_trait(t, [mt], penv).must_apply_modulo_regions()).unwrap_or(false);
                    let send = imp(tcx.get_diagnostic_item(rustc_span::sym::Send));
                    let sync = imp(tcx.lang_items().sync_trait());
                    let freeze = mt.is_freeze(tcx, menv);
                    adts.push(format!("{{\"path\":{},\"ty\":{},\"fields\":{},\"exported\":{},\"send\":{},\"sync\":{},\"freeze\":{},\"span\":{}}}", js(&self.path(d)), ti, arr(fs), ev.is_exported(ld), send, sync, freeze, js(&self.span(tcx.def_span(d)))));
                }
                _ => {}
            }
        }
        let uns = self.unsafe_sites();
        while let Some((id, inst, env)) = self.queue.pop_front() {
            let s = self.body(id, inst, env);
            self.bodies[id] = s;
        }
        let feats: Vec<String> = ["log", "tracing"].iter().filter(|f| {
            tcx.sess.config.iter().any(|(k, v)| k.as_str() == "feature" && v.map(|x| x.as_str() == **f).unwrap_or(false))
        }).map(|s| js(s)).collect();
        format!(
            "{{\"crate\":{},\"features\":{},\n\"roots\":{},\n\"consts\":{},\n\"adts\":{},\n\"drops\":{},\n\"unsafe\":{},\n\"types\":{},\n\"bodies\":[{}]}}\n",
            js(tcx.crate_name(LOCAL_CRATE).as_str()), arr(feats), arr(roots), arr(consts), arr(adts), arr(drops), uns,
            format!("[{}]", self.types.join(",\n")),
            self.bodies.join(",\n")
        )
    }

    fn unsafe_sites(&self) -> String {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            d: &'a Dumper<'tcx>,
            out: Vec<String>,
            depth: usize,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.d.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    let user = matches!(src, rustc_hir::UnsafeSource::UserProvided);
                    let exp = b.span.from_expansion();
                    let owner = self.d.path(b.hir_id.owner.to_def_id());
                    self.out.push(format!("{{\"kind\":\"block\",\"user\":{},\"macro\":{},\"owner\":{},\"span\":{}}}", user, exp, js(&owner), js(&self.d.span(b.span))));
                    self.depth += 1;
                    intravisit::walk_block(self, b);
                    self.depth -= 1;
                    return;
                }
                intravisit::walk_block(self, b);
            }
            fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, _sp: Span, id: rustc_span::def_id::LocalDefId) {
                let uns = match k {
                    intravisit::FnKind::ItemFn(_, _, h) => !h.safety().is_safe(),
                    intravisit::FnKind::Method(_, s) => !s.header.safety().is_safe(),
                    _ => false,
                };
                self.depth += uns as usize;
                intravisit::walk_fn(self, k, d, b, id);
                self.depth -= uns as usize;
            }
            fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
                if self.depth > 0 {
                    let tcx = self.d.tcx;
                    let tr = tcx.typeck(e.hir_id.owner.def_id);
                    let unsafe_fn = |d: rustc_span::def_id::DefId| {
                        matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) && !tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_safe()
                    };
                    let op = match e.kind {
                        rustc_hir::ExprKind::MethodCall(..) => tr.type_dependent_def_id(e.hir_id).filter(|d| unsafe_fn(*d)).map(|d| format!("call {}", self.d.path(d))),
                        rustc_hir::ExprKind::Path(ref q) => match tr.qpath_res(q, e.hir_id) {
                            rustc_hir::def::Res::Def(DefKind::Static { .. }, d) if tcx.is_mutable_static(d) => Some(format!("static {}", self.d.path(d))),
                            rustc_hir::def::Res::Def(DefKind::Fn | DefKind::AssocFn, d) if unsafe_fn(d) => Some(format!("call {}", self.d.path(d))),
                            _ => None,
                        },
                        rustc_hir::ExprKind::Call(f, _) => match tr.expr_ty_adjusted(f).kind() {
                            TyKind::FnPtr(_, h) if !h.safety().is_safe() => Some("call fnptr".to_string()),
                            _ => None,
                        },
                        rustc_hir::ExprKind::Unary(rustc_hir::UnOp::Deref, x) if tr.expr_ty_adjusted(x).is_raw_ptr() => Some("deref".to_string()),
                        rustc_hir::ExprKind::Field(x, _) if tr.expr_ty_adjusted(x).is_union() => Some("union".to_string()),
                        rustc_hir::ExprKind::InlineAsm(..) => Some("asm".to_string()),
                        _ => None,
                    };
                    if let Some(op) = op {
                        let owner = self.d.path(e.hir_id.owner.to_def_id());
                        self.out.push(format!("{{\"kind\":\"op\",\"op\":{},\"macro\":{},\"owner\":{},\"span\":{}}}", js(&op), e.span.from_expansion(), js(&owner), js(&self.d.span(e.span))));
                    }
                }
                intravisit::walk_expr(self, e);
            }
            fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
                let d = i.owner_id.to_def_id();
                match i.kind {
                    rustc_hir::ItemKind::Static(..) => {
                        let m = self.d.tcx.is_mutable_static(d);
                        let exp = i.span.from_expansion();
                        let freeze = self.d.tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(self.d.tcx, TypingEnv::fully_monomorphized());
                        self.out.push(format!("{{\"kind\":\"static\",\"mut\":{},\"freeze\":{},\"macro\":{},\"owner\":{},\"span\":{}}}", m, freeze, exp, js(&self.d.path(d)), js(&self.d.span(i.span))));
                    }
                    rustc_hir::ItemKind::ForeignMod { .. } => self.out.push(format!("{{\"kind\":\"extern\",\"owner\":{},\"span\":{}}}", js(&self.d.path(d)), js(&self.d.span(i.span)))),
                    rustc_hir::ItemKind::GlobalAsm { .. } => self.out.push(format!("{{\"kind\":\"asm\",\"owner\":\"\",\"span\":{}}}", js(&self.d.span(i.span)))),
                    rustc_hir::ItemKind::Impl(imp) => {
                        if let Some(t) = imp.of_trait {
                            if !t.safety.is_safe() {
                                self.out.push(format!("{{\"kind\":\"impl\",\"owner\":{},\"span\":{}}}", js(&self.d.path(d)), js(&self.d.span(i.span))));
                            }
                        }
                    }
                    _ => {}
                }
                intravisit::walk_item(self, i);
            }
        }
        let mut v = V { d: self, out: vec![], depth: 0 };
        self.tcx.hir_visit_all_item_likes_in_crate(&mut v);
        arr(v.out)
    }

    // ---- constants
    fn scalar_int(&self, v: u128, t: Ty<'tcx>, bits: u64) -> String {
        if t.is_signed() && bits < 128 && (v >> (bits - 1)) & 1 == 1 {
            let x = v as i128 - (1i128 << bits);
            return x.to_string();
        }
        v.to_string()
    }

    fn cval(&mut self, env: TypingEnv<'tcx>, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(env, t);
        let unk = |s: String| format!("{{\"c\":\"unk\",\"t\":{},\"d\":{}}}", ti, js(&s));
        if depth > 12 {
            return unk("depth".into());
        }
        match *t.kind() {
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                if let Some(si) = self.read_scalar(env, cv, t) {
                    let bits = si.size().bits();
                    let v = si.to_bits(si.size());
                    let k = match *t.kind() {
                        TyKind::Bool => "bool",
                        TyKind::Char => "char",
                        TyKind::Float(_) => "float",
                        _ => "int",
                    };
                    return format!("{{\"c\":\"{}\",\"v\":\"{}\",\"t\":{}}}", k, self.scalar_int(v, t, bits), ti);
                }
                unk("scalar".into())
            }
            TyKind::FnDef(..) => {
                let f = self.callee(env, t);
                format!("{{\"c\":\"fn\",\"f\":{},\"t\":{}}}", f, ti)
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                match *inner.kind() {
                    TyKind::Str => {
                        if let Some(b) = cv_bytes(tcx, cv, t) {
                            return format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", js(&String::from_utf8_lossy(&b)), ti);
                        }
                        return unk("str".into());
                    }
                    TyKind::Slice(e) if matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)) => {
                        if let Some(b) = cv_bytes(tcx, cv, t) {
                            return format!("{{\"c\":\"bytes\",\"v\":{},\"t\":{}}}", arr(b.iter().map(|x| x.to_string())), ti);
                        }
                        return unk("bytes".into());
                    }
                    TyKind::Slice(_) | TyKind::Dynamic(..) => return unk("slice".into()),
                    _ => {}
                }
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = cv {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    if let mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                        let v = self.cval(env, ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1);
                        return format!("{{\"c\":\"ref\",\"v\":{},\"t\":{}}}", v, ti);
                    }
                    return unk(format!("{:?}", tcx.global_alloc(aid)));
                }
                if let ConstValue::Indirect { alloc_id, offset } = cv {
                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let r = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()), true);
                        if let Ok(s) = r {
                            return self.cval(env, ConstValue::Scalar(s), t, depth + 1);
                        }
                    }
                }
                unk("ref".into())
            }
            TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..) => {
                if let TyKind::Array(e, n) = *t.kind() {
                    if let Some(n) = n.try_to_target_usize(tcx) {
                        if n > 600 {
                            return unk("big array".into());
                        }
                        if n > 64 {
                            // all equal?
                            let _ = e;
                        }
                    }
                }
                if let ConstValue::ZeroSized = cv {
                    if let TyKind::Tuple(ts) = *t.kind() {
                        if ts.is_empty() {
                            return format!("{{\"c\":\"agg\",\"variant\":0,\"fields\":[],\"t\":{}}}", ti);
                        }
                    }
                }
                if t.has_param() {
                    return unk("generic".into());
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let mut fs = vec![];
                    for (v, ft) in dc.fields.iter() {
                        let ft = self.norm(env, *ft);
                        fs.push(self.cval(env, *v, ft, depth + 1));
                    }
                    let vi = dc.variant.map(|v| v.as_u32()).unwrap_or(0);
                    return format!("{{\"c\":\"agg\",\"variant\":{},\"fields\":{},\"t\":{}}}", vi, arr(fs), ti);
                }
                unk("adt".into())
            }
            TyKind::Closure(..) => format!("{{\"c\":\"agg\",\"variant\":0,\"fields\":[],\"t\":{}}}", ti),
            TyKind::FnPtr(..) => {
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = cv {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        return format!("{{\"c\":\"fnptr\",\"path\":{},\"t\":{}}}", js(&self.path(instance.def_id())), ti);
                    }
                }
                unk("fnptr".into())
            }
            _ => unk(format!("{:?}", t.kind())),
        }
    }

    fn read_scalar(&self, _env: TypingEnv<'tcx>, cv: ConstValue, t: Ty<'tcx>) -> Option<ty::ScalarInt> {
        let tcx = self.tcx;
        match cv {
            ConstValue::Scalar(s) => s.try_to_scalar_int().ok(),
            ConstValue::Indirect { alloc_id, offset } => {
                let lay = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let s = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, lay.size), false).ok()?;
                    s.try_to_scalar_int().ok()
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = self.norm(env, c.const_.ty());
        let mut name = String::new();
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = self.path(u.def);
            }
        }
        let base = if let TyKind::FnDef(..) = t.kind() {
            let f = self.callee(env, t);
            let ti = self.ty(env, t);
            format!("{{\"c\":\"fn\",\"f\":{},\"t\":{}", f, ti)
        } else {
            match c.const_.eval(tcx, env, c.span) {
                Ok(v) => {
                    let mut s = self.cval(env, v, t, 0);
                    s.pop();
                    s
                }
                Err(_) => {
                    let ti = self.ty(env, t);
                    format!("{{\"c\":\"unk\",\"t\":{},\"d\":{}", ti, js(&format!("{}", c.const_)))
                }
            }
        };
        if name.is_empty() {
            format!("{}}}", base)
        } else {
            format!("{},\"def\":{}}}", base, js(&name))
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let TyKind::FnDef(d, a) = *t.kind() else { return "null".into() };
        let d: DefId = d.into();
        let a = a.skip_binder();
        let decl = self.path(d);
        let args = self.args(env, a);
        let kr = tcx.crate_name(d.krate);
        let mut tr = "null".to_string();
        let mut name = "null".to_string();
        if let Some(n) = tcx.opt_item_name(d) {
            name = js(n.as_str());
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = js(&self.path(t));
        }
        let mut res = "null".to_string();
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            // constructor used as function
            let (adt_d, vi) = {
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Variant => {
                        let e = tcx.parent(parent);
                        (e, tcx.adt_def(e).variant_index_with_id(parent).as_u32())
                    }
                    _ => (parent, 0),
                }
            };
            let _ = adt_d;
            return format!("{{\"decl\":{},\"ctor\":{},\"args\":{},\"name\":{},\"trait\":null,\"krate\":{},\"res\":null}}", js(&decl), vi, args, name, js(kr.as_str()));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            let rp = self.path(rd);
            let rk = tcx.crate_name(rd.krate);
            let rargs = self.args(env, inst.args);
            let mut iid = "null".to_string();
            let k = match inst.def {
                InstanceKind::Item(_) => {
                    let has = tcx.is_mir_available(rd) && self.dumpable(rd) && !tcx.is_intrinsic(rd, rustc_span::sym::drop_in_place);
                    if has {
                        let i2 = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(inst.args) };
                        iid = self.inst_id(i2, env).to_string();
                    }
                    "item"
                }
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(_) => "shim",
            };
            // closure bodies are found through the type of the receiver
            let mut implself = "null".to_string();
            if let Some(imp) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                implself = js(&rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", st)))));
            }
            res = format!("{{\"kind\":\"{}\",\"path\":{},\"krate\":{},\"args\":{},\"inst\":{},\"implself\":{}}}", k, js(&rp), js(rk.as_str()), rargs, iid, implself);
        }
        format!("{{\"decl\":{},\"args\":{},\"name\":{},\"trait\":{},\"krate\":{},\"res\":{}}}", js(&decl), args, name, tr, js(kr.as_str()), res)
    }

    // ---- bodies
    fn place(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(env, t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_u32()),
                _ => "\"cast\"".to_string(),
            };
            pr.push(s);
        }
        let t = p.ty(&body.local_decls, tcx).ty;
        let t = self.ty(env, t);
        format!("[{},{},{}]", p.local.as_u32(), arr(pr), t)
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(env, body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(env, body, p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"v\":{}}}", self.constant(env, c)),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rt\",\"k\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(env, body, o)),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(env, body, o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(env, body, p)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(env, body, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ti = self.ty(env, *t);
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{}}}", js(&ks), self.operand(env, body, o), ti)
            }
            Rvalue::BinaryOp(op, ab) => {
                format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(env, body, &ab.0), self.operand(env, body, &ab.1))
            }
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(env, body, a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"disc\",\"p\":{}}}", self.place(env, body, p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(env, body, o)).collect();
                let (kind, extra) = match **k {
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    AggregateKind::Adt(_, v, _, _, af) => ("adt", format!(",\"variant\":{},\"active\":{}", v.as_u32(), af.map(|x| x.as_u32().to_string()).unwrap_or("null".into()))),
                    AggregateKind::Closure(..) => ("closure", String::new()),
                    AggregateKind::RawPtr(..) => ("rawptr", String::new()),
                    _ => ("other", String::new()),
                };
                let t = self.norm(env, r.ty(&body.local_decls, self.tcx));
                let ti = self.ty(env, t);
                format!("{{\"r\":\"agg\",\"k\":\"{}\"{},\"f\":{},\"t\":{}}}", kind, extra, arr(f), ti)
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(env, body, p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(env, body, p)),
            _ => format!("{{\"r\":\"other\",\"d\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let body = &body;
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(env, l.ty);
            let n = names.get(&i.as_u32()).map(|s| js(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = vec![];
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            let _ = bi;
            if b.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in b.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(env, body, &bx.0);
                        let r = self.rvalue(env, body, &bx.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, js(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(env, body, place);
                        st.push(format!("[\"setdisc\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", js(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = js(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(env, dt);
                    format!("{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"o\":{},\"sp\":{}}}", self.operand(env, body, discr), ti, arr(v), targets.otherwise().as_u32(), sp)
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => format!("{{\"t\":\"drop\",\"p\":{},\"to\":{},\"sp\":{}}}", self.place(env, body, place), target.as_u32(), sp),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, body, &x.node)).collect();
                    let f = self.operand(env, body, func);
                    let p = self.place(env, body, destination);
                    let _ = fn_span;
                    format!("{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"sp\":{},\"exp\":{}}}", f, arr(a), p, target.map(|x| x.as_u32().to_string()).unwrap_or("null".into()), sp, t.source_info.span.from_expansion())
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let k = k.split(|c| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string();
                    format!("{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"mk\":{},\"to\":{},\"sp\":{}}}", self.operand(env, body, cond), expected, js(&format!("{:?}", msg)), js(&k), target.as_u32(), sp)
                }
                k => format!("{{\"t\":\"other\",\"d\":{}}}", js(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), ts));
        }
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            _ => "shim",
        };
        let args = self.args(env, inst.args);
        let parent = if matches!(tcx.def_kind(d), DefKind::Closure) { js(&self.path(tcx.typeck_root_def_id(d))) } else { "null".into() };
        format!(
            "{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"local\":{},\"args\":{},\"argc\":{},\"parent\":{},\"spread\":{},\"locals\":{},\"blocks\":{},\"span\":{},\"krate\":{}}}",
            id, js(&self.path(d)), kind, d.is_local(), args, body.arg_count, parent,
            body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()),
            arr(locals), arr(blocks), js(&self.span(tcx.def_span(d))), js(tcx.crate_name(d.krate).as_str())
        )
    }
}

fn cv_bytes<'tcx>(tcx: TyCtxt<'tcx>, cv: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
        return Some(b.to_vec());
    }
    // a fat pointer stored in memory
    if let ConstValue::Indirect { alloc_id, offset } = cv {
        let _ = t;
        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
            let ps = tcx.data_layout.pointer_size();
            let a = a.inner();
            let ptr = a.read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok()?;
            let len = a.read_scalar(&tcx, mir::interpret::alloc_range(offset + ps, ps), false).ok()?.to_target_usize(&tcx).discard_err()?;
            if let mir::interpret::Scalar::Ptr(p, _) = ptr {
                let (prov, off) = p.prov_and_relative_offset();
                if let mir::interpret::GlobalAlloc::Memory(b) = tcx.global_alloc(prov.alloc_id()) {
                    let o = off.bytes_usize();
                    return Some(b.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize).to_vec());
                }
            }
        }
    }
    None
}
