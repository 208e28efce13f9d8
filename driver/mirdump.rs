// mirdump: a rustc_private driver that writes the type-checked MIR of one crate
// (bodies, promoteds, types, ADT layouts, resolved callees) to a JSON file.
//
// It is used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].
// The dump is written to $MIRDUMP_OUT/<crate_name>.json when that crate is
// compiled; for any other crate this behaves exactly as rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_span::source_map::FileLoader as _;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<String, String>,
    env: TypingEnv<'tcx>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }

impl<'tcx> D<'tcx> {
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let name = path(self.tcx, def.did());
        if self.adts.contains_key(&name) { return; }
        self.adts.insert(name.clone(), String::from("null"));
        let krate = self.tcx.crate_name(def.did().krate).to_string();
        let mut vs = vec![];
        // Field types of foreign structs are private; only enums of core and local ADTs are needed.
        if def.did().is_local() || def.is_enum() || krate == "core" {
            for (i, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
                let fs: Vec<String> = v.fields.iter().map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    format!("[{},{}]", esc(f.name.as_str()), ti)
                }).collect();
                vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), esc(&discr), arr(fs)));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let s = format!("{{\"kind\":{},\"local\":{},\"variants\":{}}}", esc(kind), def.did().is_local(), arr(vs));
        self.adts.insert(name, s);
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"name\":{},\"signed\":true,\"bits\":{}", esc(x.name_str()), x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("\"k\":\"int\",\"name\":{},\"signed\":false,\"bits\":{}", esc(x.name_str()), x.bit_width().unwrap_or(64)),
            ty::Float(x) => format!("\"k\":\"float\",\"name\":{}", esc(x.name_str())),
            ty::Ref(_, x, m) => { let j = self.ty(*x); format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", j, m.is_mut()) }
            ty::RawPtr(x, m) => { let j = self.ty(*x); format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", j, m.is_mut()) }
            ty::Slice(x) => { let j = self.ty(*x); format!("\"k\":\"slice\",\"elem\":{}", j) }
            ty::Array(x, n) => {
                let j = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", j, n)
            }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"elems\":{}", arr(v)) }
            ty::Adt(def, args) => {
                self.adt(*def);
                let a = self.gargs(args);
                format!("\"k\":\"adt\",\"name\":{},\"args\":{}", esc(&path(self.tcx, def.did())), a)
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"def\":{},\"upvars\":{}", esc(&self.fkey(*d)), arr(ups))
            }
            ty::FnDef(d, args) => { let a = self.callee(*d, args.skip_binder()); format!("\"k\":\"fndef\",\"fn\":{}", a) }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{},\"idx\":{}", esc(p.name.as_str()), p.index),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{{},\"s\":{}}}", body, esc(&disp));
        i
    }
    fn fkey(&self, d: DefId) -> String { path(self.tcx, d) }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.fkey(d);
        let a = self.gargs(args);
        let mut s = format!("\"path\":{},\"args\":{},\"crate\":{},\"local\":{}", esc(&p), a, esc(tcx.crate_name(d.krate).as_str()), d.is_local());
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{},\"method\":{}", esc(&path(tcx, tr)), esc(tcx.item_name(d).as_str()));
        } else if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
            let _ = write!(s, ",\"method\":{}", esc(tcx.item_name(d).as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, self.env, d, args)));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                let ra = self.gargs(inst.args);
                let _ = write!(s, ",\"resolved\":{},\"rlocal\":{},\"rargs\":{}", esc(&self.fkey(rd)), rd.is_local(), ra);
            }
        }
        if let DefKind::Ctor(_, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, var) = if tcx.def_kind(parent) == DefKind::Variant { (tcx.parent(parent), Some(parent)) } else { (parent, None) };
            let def = tcx.adt_def(adt);
            self.adt(def);
            let vi = match var { Some(v) => def.variant_index_with_id(v).as_usize(), None => 0 };
            let _ = write!(s, ",\"ctor\":[{},{}]", esc(&path(tcx, adt)), vi);
        }
        format!("{{{}}}", s)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), ti) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.skip_binder());
            return format!("[\"fn\",{},{}]", f, ti);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                return format!("[\"promoted\",{},{},{}]", esc(&self.fkey(u.def)), pr.as_usize(), ti);
            }
        }
        // Scalars
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(b) = c.const_.try_eval_bits(tcx, self.env) {
                let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                let s = if t.is_signed() { size.sign_extend(b).to_string() } else { b.to_string() };
                return format!("[\"lit\",{},{}]", esc(&s), ti);
            }
            let nm = with_no_trimmed_paths!(format!("{}", c.const_));
            return format!("[\"const\",{},{}]", esc(&nm), ti);
        }
        // &str / &[u8] literals
        if let ty::Ref(_, inner, _) = t.kind() {
            let is_bytes = match inner.kind() { ty::Str => true, ty::Slice(e) => *e == tcx.types.u8, _ => false };
            if is_bytes {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let s = String::from_utf8_lossy(b).to_string();
                        return format!("[\"str\",{},{}]", esc(&s), ti);
                    }
                }
            }
        }
        if t.is_unit() { return format!("[\"unit\",{}]", ti); }
        // Other constants: try to destructure (enum consts, tuples of scalars...)
        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
            if let Some(s) = self.destr(v, t, 0) { return format!("[\"cval\",{},{}]", s, ti); }
        }
        let nm = with_no_trimmed_paths!(format!("{}", c.const_));
        format!("[\"const\",{},{}]", esc(&nm), ti)
    }
    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 4 { return None; }
        let ti = self.ty(t);
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let ConstValue::Scalar(s) = v {
                let i = s.try_to_scalar_int().ok()?;
                let size = i.size();
                let b = i.to_bits(size);
                let s = if t.is_signed() { size.sign_extend(b).to_string() } else { b.to_string() };
                return Some(format!("[\"lit\",{},{}]", esc(&s), ti));
            }
            return None;
        }
        match t.kind() {
            ty::Adt(..) | ty::Tuple(_) => {
                if let ty::Adt(def, _) = t.kind() { if def.is_union() || (!def.is_enum() && !def.did().is_local()) { return None; } }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() { fs.push(self.destr(*fv, *ft, depth + 1)?); }
                Some(format!("[\"agg\",{},{},{}]", ti, vi, arr(fs)))
            }
            _ => None,
        }
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            _ => "[\"rtcheck\"]".to_string(),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), ti)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(&ops.0), self.op(&ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                match &**k {
                    AggregateKind::Array(t) => { let ti = self.ty(*t); format!("[\"aggarr\",{},{}]", ti, arr(os)) }
                    AggregateKind::Tuple => format!("[\"aggtup\",{}]", arr(os)),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!("[\"aggadt\",{},{},{}]", esc(&path(self.tcx, *d)), v.as_usize(), arr(os))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"aggclo\",{},{}]", esc(&self.fkey(*d)), arr(os)),
                    AggregateKind::RawPtr(..) => format!("[\"aggptr\",{}]", arr(os)),
                    _ => "[\"?\"]".to_string(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            _ => "[\"?\"]".to_string(),
        }
    }
    fn line(&self, s: rustc_span::Span) -> String {
        // the expansion's outermost call site, so that macros report the user's line
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        l.line.to_string()
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(format!("{}:{}", esc(&p.local.as_usize().to_string()), esc(v.name.as_str()))); }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => { let p = self.place(&x.0); let r = self.rv(&x.1); st.push(format!("[\"=\",{},{},{}]", p, r, ln)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), ln)); }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    let ti = { let t = discr.ty(b, self.tcx); self.ty(t) };
                    let tv: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", o, arr(tv), targets.otherwise().as_usize(), ti, ln)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target.as_usize()) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, arr(a), d, tg, ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(cond);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(b, _, _) => format!("overflow:{:?}", b),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, esc(&kind), target.as_usize(), ln)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
                _ => "[\"?\"]".to_string(),
            };
            blocks.push(format!("{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, arr(st), term));
        }
        format!("\"argc\":{},\"locals\":{},\"names\":{{{}}},\"blocks\":{}", b.arg_count, arr(locals), names.join(","), arr(blocks))
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut d = D { tcx, types: vec![], tyidx: HashMap::new(), adts: HashMap::new(), env: TypingEnv::fully_monomorphized() };
    let mut fns = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
    for k in keys {
        let did = k.to_def_id();
        let kind = tcx.def_kind(did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn { continue; }
        d.env = TypingEnv::post_analysis(tcx, did);
        let b = tcx.optimized_mir(did);
        let body = d.body(b);
        let mut proms = vec![];
        for p in tcx.promoted_mir(did).iter() { proms.push(format!("{{{}}}", d.body(p))); }
        let sm = tcx.sess.source_map();
        let sp = sm.lookup_char_pos(tcx.def_span(did).lo());
        let file = format!("{}", sp.file.name.prefer_local_unconditionally());
        let vis = if kind == DefKind::Closure { false } else { tcx.effective_visibilities(()).is_reachable(k) };
        let unsafe_fn = kind != DefKind::Closure && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let tr = if kind == DefKind::AssocFn { tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_id(i)).map(|t| path(tcx, t)) } else { None };
        let gens: Vec<String> = if kind == DefKind::Closure { vec![] } else {
            ty::GenericArgs::identity_for_item(tcx, did).iter().filter_map(|a| a.as_type()).map(|t| d.ty(t).to_string()).collect() };
        fns.push(format!("{}:{{\"file\":{},\"line\":{},\"closure\":{},\"public\":{},\"unsafe\":{},\"trait\":{},\"generics\":{},{},\"promoted\":{}}}",
            esc(&d.fkey(did)), esc(&file), sp.line, kind == DefKind::Closure, vis, unsafe_fn,
            tr.map(|t| esc(&t)).unwrap_or("null".into()), arr(gens), body, arr(proms)));
    }
    let adts: Vec<String> = { let mut v: Vec<_> = d.adts.iter().collect(); v.sort(); v.into_iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect() };
    let s = format!("{{\"types\":{},\n\"adts\":{{{}}},\n\"fns\":{{{}}}}}\n", arr(d.types.clone()), adts.join(",\n"), fns.join(",\n"));
    std::fs::write(out, s).expect("mirdump: cannot write output");
}

// Loads sources from disk as they are, except that the crate root is extended
// with `mod verif_spec` (the file named by $MIRDUMP_SPEC): the reference
// definitions are type-checked in the same crate as the code they describe.
// MIRDUMP_SPEC is `source suffix=module file;...`: each module is added, in memory, as a child of that source file's module
struct SpecLoader { specs: Vec<(String, String)> }
impl rustc_span::source_map::FileLoader for SpecLoader {
    fn file_exists(&self, p: &std::path::Path) -> bool { rustc_span::source_map::RealFileLoader.file_exists(p) }
    fn read_file(&self, p: &std::path::Path) -> std::io::Result<String> {
        let mut s = rustc_span::source_map::RealFileLoader.read_file(p)?;
        for (suffix, file) in &self.specs {
            if p.ends_with(suffix) {
                let stem = std::path::Path::new(file).file_stem().unwrap().to_string_lossy().into_owned();
                let _ = write!(s, "\n#[allow(warnings)] #[path = {:?}] pub mod vs_{};\n", file, stem);
            }
        }
        Ok(s)
    }
    fn read_binary_file(&self, p: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> { rustc_span::source_map::RealFileLoader.read_binary_file(p) }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> { rustc_span::source_map::RealFileLoader.current_directory() }
}

struct CB { out: Option<String> }
impl rustc_driver::Callbacks for CB {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        if self.out.is_some() {
            c.opts.unstable_opts.mir_opt_level = Some(0);
            c.opts.debug_assertions = false;
            c.opts.cg.overflow_checks = Some(true);
            if let Ok(spec) = std::env::var("MIRDUMP_SPEC") {
                let specs = spec.split(';').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
                c.file_loader = Some(Box::new(SpecLoader { specs }));
            }
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out { dump(tcx, o); }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // wrapper itself; args[0] is now the real rustc
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_test = args.iter().any(|a| a == "--test");
    let out = match (std::env::var("MIRDUMP_OUT"), name) {
        (Ok(dir), Some(n)) if !n.starts_with("build_script") && !is_test && n != "___" => Some(format!("{}/{}.json", dir, n)),
        _ => None,
    };
    let mut cb = CB { out };
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
