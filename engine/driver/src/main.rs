//! Fact extractor: a rustc driver injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
//! For each workspace library crate it writes the built MIR of every body (functions, closures,
//! coroutines), the ADT table and the trait-impl table, with resolved callees, as JSON lines.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt,
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_span::hygiene::{ExpnKind, MacroKind};

macro_rules! paths {
    ($e:expr) => {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e)))
    };
}

struct Dump {
    out_dir: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    strings: Vec<String>,
    index: HashMap<String, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn s(&mut self, s: String) -> usize {
        if let Some(i) = self.index.get(&s) {
            return *i;
        }
        let i = self.strings.len();
        self.index.insert(s.clone(), i);
        self.strings.push(s);
        i
    }
    fn path(&mut self, d: DefId) -> usize {
        let p = paths!(self.tcx.def_path_str(d));
        self.s(p)
    }
    fn path_str(&self, d: DefId) -> String {
        paths!(self.tcx.def_path_str(d))
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        paths!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.ty_str(t);
        self.s(s)
    }
    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        (f, lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn macro_name(&self, sp: Span) -> Option<String> {
        if !sp.from_expansion() {
            return None;
        }
        let mut name = None;
        let mut ctxt = sp.ctxt();
        while !ctxt.is_root() {
            let d = ctxt.outer_expn_data();
            if let ExpnKind::Macro(MacroKind::Bang, n) = d.kind {
                name = Some(n.to_string());
            }
            ctxt = d.call_site.ctxt();
        }
        name
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    def: LocalDefId,
    env: TypingEnv<'tcx>,
    upvars: Vec<String>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pty.variant_index {
                                Some(v) => Some(adt.variant(v)),
                                None if adt.is_enum() => None,
                                None => Some(adt.non_enum_variant()),
                            };
                            v.map(|v| v.fields[f].name.to_string())
                                .unwrap_or_else(|| f.as_u32().to_string())
                        }
                        ty::Closure(..) | ty::Coroutine(..) | ty::CoroutineClosure(..)
                            if p.local.as_u32() == 1 =>
                        {
                            match self.upvars.get(f.as_usize()) {
                                Some(n) => format!("^{}:{}", f.as_usize(), n),
                                None => format!("^{}", f.as_usize()),
                            }
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let _ = write!(o, ",{}", esc(&format!(".{}", name)));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",\"[{}\"", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",\"#{}{}\"", if from_end { "-" } else { "" }, offset);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",\"/{}:{}{}\"", from, if from_end { "-" } else { "" }, to);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match n {
                        Some(n) => n.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                            _ => v.as_u32().to_string(),
                        },
                    };
                    let _ = write!(o, ",{}", esc(&format!("@{}", name)));
                }
                _ => {}
            }
            pty = pty.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }

    fn fn_ref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let p = self.cx.path(d);
        let mut r = None;
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::AssocFn | DefKind::Fn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                let rd = i.def_id();
                if rd != d {
                    r = Some(self.cx.path(rd));
                }
            }
        }
        let mut ga = String::from("[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    ga.push(',');
                }
                first = false;
                let i = self.cx.ty(t);
                let _ = write!(ga, "{}", i);
            }
        }
        ga.push(']');
        match r {
            Some(r) => format!("[{},{},{}]", p, ga, r),
            None => format!("[{},{}]", p, ga),
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fn_ref(*d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
            return format!("[\"F\",{}]", f);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(_p) = u.promoted {
                    return "[\"P\"]".to_string();
                }
                let p = self.cx.path(u.def);
                return format!("[\"C\",{}]", p);
            }
            Const::Val(v, _) => match v {
                ConstValue::Scalar(s) => {
                    if let Some(i) = s.try_to_scalar_int().ok() {
                        let txt = match t.kind() {
                            ty::Bool => {
                                if i.to_bits_unchecked() == 0 {
                                    "false".into()
                                } else {
                                    "true".into()
                                }
                            }
                            ty::Int(_) => {
                                let size = i.size();
                                format!("{}", size.sign_extend(i.to_bits_unchecked()))
                            }
                            ty::Char => {
                                let n = i.to_bits_unchecked() as u32;
                                format!("'{}'", char::from_u32(n).unwrap_or('?'))
                            }
                            ty::Float(ty::FloatTy::F64) => {
                                format!("{:?}", f64::from_bits(i.to_bits_unchecked() as u64))
                            }
                            ty::Float(ty::FloatTy::F32) => {
                                format!("{:?}", f32::from_bits(i.to_bits_unchecked() as u32))
                            }
                            _ => format!("{}", i.to_bits_unchecked()),
                        };
                        let ti = self.cx.ty(t);
                        return format!("[\"k\",{},{}]", esc(&txt), ti);
                    }
                    let ti = self.cx.ty(t);
                    // pointer: maybe a byte string or a static
                    return format!("[\"k\",\"<ptr>\",{}]", ti);
                }
                ConstValue::ZeroSized => {
                    let ti = self.cx.ty(t);
                    return format!("[\"k\",\"()\",{}]", ti);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("[\"s\",{}]", esc(&String::from_utf8_lossy(b)));
                    }
                }
                _ => {}
            },
            Const::Ty(_, ct) => {
                let txt = paths!(ct.to_string());
                let ti = self.cx.ty(t);
                return format!("[\"k\",{},{}]", esc(&txt), ti);
            }
        }
        let ti = self.cx.ty(t);
        format!("[\"k\",\"?\",{}]", ti)
    }

    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            _ => "[\"?\"]".to_string(),
        }
    }

    fn ops<'b>(&mut self, it: impl Iterator<Item = &'b Operand<'tcx>>) -> String
    where
        'tcx: 'b,
    {
        let v: Vec<String> = it.map(|o| self.op(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"u\",{}]", self.op(o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.op(o)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "&",
                    BorrowKind::Mut { .. } => "&m",
                    _ => "&f",
                };
                format!("[\"{}\",{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"&\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"&\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"u\",[\"c\",{}]]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.cx.ty(*t);
                let kn = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&kn), self.op(o), ti)
            }
            Rvalue::BinaryOp(b, ab) => {
                let (a, c) = (&ab.0, &ab.1);
                format!("[\"b\",\"{:?}\",{},{}]", b, self.op(a), self.op(c))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let e = match t.kind() {
                    ty::Adt(a, _) => self.cx.path(a.did()),
                    _ => self.cx.ty(t),
                };
                format!("[\"d\",{},{}]", self.place(p), e)
            }
            Rvalue::Aggregate(k, fs) => match &**k {
                AggregateKind::Array(_) => format!("[\"arr\",{}]", self.ops(fs.iter())),
                AggregateKind::Tuple => format!("[\"tup\",{}]", self.ops(fs.iter())),
                AggregateKind::Adt(d, v, _, _, active) => {
                    let adt = tcx.adt_def(*d);
                    let var = adt.variant(*v);
                    let p = self.cx.path(*d);
                    let vn = if adt.is_enum() {
                        esc(var.name.as_str())
                    } else {
                        "null".to_string()
                    };
                    let mut names = vec![];
                    for (i, _) in fs.iter_enumerated() {
                        let idx = active.unwrap_or(i);
                        names.push(esc(var.fields[idx].name.as_str()));
                    }
                    format!("[\"adt\",{},{},[{}],{}]", p, vn, names.join(","), self.ops(fs.iter()))
                }
                AggregateKind::Closure(d, _)
                | AggregateKind::Coroutine(d, _)
                | AggregateKind::CoroutineClosure(d, _) => {
                    let p = self.cx.path(*d);
                    format!("[\"clo\",{},{}]", p, self.ops(fs.iter()))
                }
                _ => "[\"?\"]".to_string(),
            },
            Rvalue::ThreadLocalRef(d) => {
                let p = self.cx.path(*d);
                format!("[\"tls\",{}]", p)
            }
            _ => "[\"?\"]".to_string(),
        }
    }

    fn dump(&mut self, key: &str, kind: &str, parent: Option<String>) -> String {
        let tcx = self.cx.tcx;
        let body = self.body;
        let (file, line) = self.cx.loc(body.span);
        let end = {
            let sp = body.span.source_callsite();
            tcx.sess.source_map().lookup_char_pos(sp.hi()).line
        };
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"k\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"end\":{}",
            esc(key),
            kind,
            esc(&file),
            line,
            end
        );
        if let Some(p) = parent {
            let _ = write!(o, ",\"parent\":{}", esc(&p));
        }
        if let Some(m) = self.cx.macro_name(body.span) {
            let _ = write!(o, ",\"mac\":{}", esc(&m));
        }
        if matches!(kind, "fn") {
            let d = self.def.to_def_id();
            if tcx.asyncness(self.def).is_async() {
                o.push_str(",\"async\":1");
            }
            let vis = tcx.visibility(d);
            let _ = write!(o, ",\"vis\":{}", esc(&paths!(format!("{:?}", vis))));
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = self.cx.ty_str(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
                let _ = write!(o, ",\"self_ty\":{}", esc(&st));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let t = paths!(tr.instantiate_identity().skip_norm_wip().print_only_trait_path().to_string());
                    let _ = write!(o, ",\"trait\":{}", esc(&t));
                }
            }
        }
        if !self.upvars.is_empty() {
            let v: Vec<String> = self.upvars.iter().map(|s| esc(s)).collect();
            let _ = write!(o, ",\"up\":[{}]", v.join(","));
        }
        let _ = write!(o, ",\"args\":{}", body.arg_count);
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                }
            }
        }
        o.push_str(",\"L\":[");
        for (i, (l, d)) in body.local_decls.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.cx.ty(d.ty);
            match names.get(&l.as_u32()) {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", t, esc(n));
                }
                None => {
                    let _ = write!(o, "[{}]", t);
                }
            }
        }
        o.push_str("],\"B\":[");
        for (i, (_bb, data)) in body.basic_blocks.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            if data.is_cleanup {
                o.push_str("0");
                continue;
            }
            o.push_str("[[");
            let mut first = true;
            let mut disc: HashMap<u32, DefId> = HashMap::new();
            for st in &data.statements {
                let txt = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                            continue;
                        }
                        if let Rvalue::Discriminant(dp) = r {
                            if let ty::Adt(a, _) = dp.ty(&body.local_decls, tcx).ty.kind() {
                                disc.insert(p.local.as_u32(), a.did());
                            }
                        }
                        let rv = self.rvalue(r);
                        let pl = self.place(p);
                        format!("[{},{},{}]", pl, rv, self.cx.line(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { .. } => "[\"setd\"]".to_string(),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],");
            let term = data.terminator();
            let ln = self.cx.line(term.source_info.span);
            let txt = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"g\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let en = match discr {
                        Operand::Copy(p) | Operand::Move(p) => disc.get(&p.local.as_u32()).copied(),
                        _ => None,
                    };
                    let mut ts = vec![];
                    for (v, t) in targets.iter() {
                        let lab = match en {
                            Some(e) => {
                                let adt = tcx.adt_def(e);
                                adt.discriminants(tcx)
                                    .find(|(_, d)| d.val == v)
                                    .map(|(vi, _)| adt.variant(vi).name.to_string())
                                    .unwrap_or_else(|| v.to_string())
                            }
                            None => v.to_string(),
                        };
                        ts.push(format!("[{},{}]", esc(&lab), t.as_u32()));
                    }
                    let dty = discr.ty(&body.local_decls, tcx);
                    let ti = match en {
                        Some(e) => self.cx.path(e),
                        None => self.cx.ty(dty),
                    };
                    format!(
                        "[\"sw\",{},[{}],{},{},{},{}]",
                        self.op(discr),
                        ts.join(","),
                        targets.otherwise().as_u32(),
                        ti,
                        ln,
                        if en.is_some() { 1 } else { 0 }
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unr\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => {
                            if let ty::FnDef(d, ga) = c.const_.ty().kind() {
                                self.fn_ref(*d, ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder()))
                            } else {
                                self.konst(c)
                            }
                        }
                        f => self.op(f),
                    };
                    let a = self.ops(args.iter().map(|s| &s.node));
                    let d = self.place(destination);
                    let t = match target {
                        Some(t) => t.as_u32().to_string(),
                        None => "null".into(),
                    };
                    let m = match self.cx.macro_name(term.source_info.span) {
                        Some(m) => format!(",{}", esc(&m)),
                        None => String::new(),
                    };
                    format!("[\"call\",{},{},{},{},{}{}]", f, a, d, t, ln, m)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(b, ..) => match b {
                            BinOp::Add => "ov-add",
                            BinOp::Sub => "ov-sub",
                            BinOp::Mul => "ov-mul",
                            _ => "ov",
                        },
                        AssertKind::OverflowNeg(_) => "ov-neg",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    format!(
                        "[\"as\",{},{},\"{}\",{},{}]",
                        self.op(cond),
                        expected,
                        k,
                        target.as_u32(),
                        ln
                    )
                }
                TerminatorKind::Yield { resume, .. } => format!("[\"y\",{}]", resume.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"g\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"g\",{}]", real_target.as_u32())
                }
                _ => "[\"x\"]".to_string(),
            };
            o.push_str(&txt);
            o.push(']');
        }
        o.push_str("]}");
        o
    }
}

fn is_derived(tcx: TyCtxt<'_>, d: DefId) -> bool {
    // walk up to the impl
    let mut cur = d;
    loop {
        if matches!(tcx.def_kind(cur), DefKind::Impl { .. }) {
            return tcx.is_builtin_derived(cur);
        }
        match tcx.opt_parent(cur) {
            Some(p) => cur = p,
            None => return false,
        }
    }
}

/// Built bodies, copied as the compiler builds them: type-checking and trait selection on coroutines
/// consume ("steal") the built MIR of some bodies before they could be read.
static ORIG: std::sync::OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>> = std::sync::OnceLock::new();
thread_local! {
    static BUILT: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = Default::default();
}

fn mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = ORIG.get().expect("provider")(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // the copy is only used while `tcx` is alive
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BUILT.with(|m| m.borrow_mut().insert(def, b));
    r
}

fn take_built<'tcx>(_: TyCtxt<'tcx>, def: LocalDefId) -> Option<Body<'tcx>> {
    let b = BUILT.with(|m| m.borrow_mut().remove(&def));
    unsafe { std::mem::transmute::<Option<Body<'static>>, Option<Body<'tcx>>>(b) }
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_, providers| {
            let _ = ORIG.set(providers.queries.mir_built);
            providers.queries.mir_built = mir_built;
        });
    }

    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, strings: vec![], index: HashMap::new() };
        let tmp = format!("{}/{}.facts.tmp.{}", self.out_dir, name, std::process::id());
        let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("facts file"));
        let mut pos: u64 = 0;
        let mut idx: Vec<(String, u64, usize, Vec<usize>)> = vec![];
        let mut seen: HashMap<String, usize> = HashMap::new();
        let mut skipped = 0usize;
        // take all bodies before anything that dumping them may ask the compiler for (trait selection on
        // a coroutine consumes its built MIR)
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let d = def.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. })
                || is_derived(tcx, d)
                || tcx.is_trivial_const(def)
            {
                continue;
            }
            let _ = tcx.mir_built(def);
            let Some(b) = take_built(tcx, def) else {
                eprintln!("facts: no built MIR for {}", tcx.def_path_str(d));
                skipped += 1;
                continue;
            };
            bodies.push((def, b));
        }
        for (def, body) in bodies {
            let d = def.to_def_id();
            let kind = match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => {
                    if tcx.is_coroutine(d) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => "const",
                _ => continue,
            };
            let mut key = cx.path_str(d);
            let n = seen.entry(key.clone()).or_insert(0);
            *n += 1;
            if *n > 1 {
                key = format!("{}#{}", key, n);
            }
            let parent = if matches!(kind, "closure" | "coroutine") {
                tcx.opt_parent(d).map(|p| cx.path_str(p))
            } else {
                None
            };
            let upvars: Vec<String> = if matches!(kind, "closure" | "coroutine") {
                tcx.closure_captures(def).iter().map(|c| c.to_symbol().to_string()).collect()
            } else {
                vec![]
            };
            let env = TypingEnv::non_body_analysis(tcx, d);
            let mut b = BodyCx { cx: &mut cx, body: &body, def, env, upvars };
            let line = b.dump(&key, kind, parent);
            f.write_all(line.as_bytes()).unwrap();
            f.write_all(b"\n").unwrap();
            idx.push((key, pos, line.len(), vec![]));
            pos += line.len() as u64 + 1;
        }
        f.flush().unwrap();
        drop(f);

        // ADTs and impls
        let mut o = String::new();
        o.push_str("{\"adts\":{");
        let mut first = true;
        let mut impls = String::new();
        let mut ifirst = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let (file, line) = cx.loc(tcx.def_span(d));
                    let attrs = attrs(tcx, id);
                    let _ = write!(
                        o,
                        "{}:{{\"enum\":{},\"file\":{},\"line\":{},\"attrs\":{},\"v\":[",
                        esc(&cx.path_str(d)),
                        adt.is_enum(),
                        esc(&file),
                        line,
                        attrs
                    );
                    for (i, v) in adt.variants().iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let va = match v.def_id.as_local() {
                            Some(l) if adt.is_enum() => attrs_of(tcx, l),
                            _ => "[]".into(),
                        };
                        let _ = write!(o, "[{},{},[", esc(v.name.as_str()), va);
                        for (j, fd) in v.fields.iter().enumerate() {
                            if j > 0 {
                                o.push(',');
                            }
                            let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                            let ts = cx.ty_str(t);
                            let fa = match fd.did.as_local() {
                                Some(l) => attrs_of(tcx, l),
                                None => "[]".into(),
                            };
                            let vis = tcx.visibility(fd.did).is_public();
                            let _ = write!(
                                o,
                                "[{},{},{},{}]",
                                esc(fd.name.as_str()),
                                esc(&ts),
                                fa,
                                if vis { 1 } else { 0 }
                            );
                        }
                        o.push_str("]]");
                    }
                    o.push_str("]}");
                }
                DefKind::Impl { of_trait: true } => {
                    if !ifirst {
                        impls.push(',');
                    }
                    ifirst = false;
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let t = paths!(tr.print_only_trait_path().to_string());
                    let td = cx.path_str(tr.def_id);
                    let st = cx.ty_str(tr.self_ty());
                    let (file, line) = cx.loc(tcx.def_span(d));
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(format!(
                            "{}:{}",
                            esc(it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()),
                            esc(&cx.path_str(it.def_id))
                        ));
                    }
                    let _ = write!(
                        impls,
                        "[{},{},{},{},{},{},{{{}}}]",
                        esc(&td),
                        esc(&t),
                        esc(&st),
                        is_derived(tcx, d),
                        esc(&file),
                        line,
                        items.join(",")
                    );
                }
                _ => {}
            }
        }
        o.push_str("},\"impls\":[");
        o.push_str(&impls);
        o.push_str("],\"traits\":{");
        let mut tf = true;
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Trait = tcx.def_kind(id) {
                if !tf {
                    o.push(',');
                }
                tf = false;
                let mut items = vec![];
                for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                    items.push(format!(
                        "[{},{}]",
                        esc(it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()),
                        if it.defaultness(tcx).has_value() { 1 } else { 0 }
                    ));
                }
                let _ = write!(o, "{}:[{}]", esc(&cx.path_str(id.to_def_id())), items.join(","));
            }
        }
        o.push_str("},\"skipped\":");
        let _ = write!(o, "{}", skipped);
        o.push_str(",\"idx\":{");
        for (i, (k, p, l, _)) in idx.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}:[{},{}]", esc(k), p, l);
        }
        o.push_str("},\"S\":[");
        for (i, s) in cx.strings.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&esc(s));
        }
        o.push_str("]}");
        let meta = format!("{}/{}.meta.tmp.{}", self.out_dir, name, std::process::id());
        std::fs::write(&meta, o).expect("meta");
        std::fs::rename(&tmp, format!("{}/{}.facts", self.out_dir, name)).unwrap();
        std::fs::rename(&meta, format!("{}/{}.meta", self.out_dir, name)).unwrap();
        if std::env::var("SAIL_FACTS_STOP").is_ok() {
            return Compilation::Stop;
        }
        Compilation::Continue
    }
}

fn attrs_of(tcx: TyCtxt<'_>, d: LocalDefId) -> String {
    attrs(tcx, d)
}

fn attrs(tcx: TyCtxt<'_>, d: LocalDefId) -> String {
    let hid = tcx.local_def_id_to_hir_id(d);
    let mut v = vec![];
    for a in tcx.hir_attrs(hid) {
        if let rustc_attr_ir::Attribute::Tool(item) | rustc_attr_ir::Attribute::DeriveHelper(item) = a {
            if let Ok(s) = tcx.sess.source_map().span_to_snippet(item.span) {
                v.push(esc(&s));
            }
        }
    }
    format!("[{}]", v.join(","))
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("SAIL_FACTS_DIR").ok();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "rlib" || w[1]=="cdylib" || w[1]=="proc-macro"));
    let test = args.iter().any(|a| a == "--test");
    match out {
        Some(dir)
            if is_lib && !test && !crate_name.is_empty() && crate_name.starts_with("sail") =>
        {
            if std::env::var("SAIL_FACTS_STOP").is_err() {
                let mut o = String::from("{\"args\":[");
                o.push_str(&args.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","));
                o.push_str("],\"env\":{");
                o.push_str(
                    &std::env::vars()
                        .filter(|(k, _)| {
                            k.starts_with("CARGO") || k == "OUT_DIR" || k.starts_with("PYO3") || k.starts_with("DEP_")
                        })
                        .map(|(k, v)| format!("{}:{}", esc(&k), esc(&v)))
                        .collect::<Vec<_>>()
                        .join(","),
                );
                let _ = write!(
                    o,
                    "}},\"cwd\":{}}}",
                    esc(&std::env::current_dir().unwrap().display().to_string())
                );
                let _ = std::fs::write(format!("{}/{}.cmd", dir, crate_name), o);
            }
            let mut d = Dump { out_dir: dir };
            rustc_driver::compiler_entrypoint(&args, &mut d);
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
