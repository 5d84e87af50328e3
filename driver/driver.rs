// MIR / item fact extractor.  Used as RUSTC_WRAPPER: argv[1] is the real rustc.
// For every crate whose root source lies below one of the directories in
// $VERIF_ROOTS (colon separated) it dumps one JSON file with the crate's
// type-checked program (drop-elaborated MIR with resolved callees, evaluated
// constants, type definitions, signatures, impls) into $VERIF_FACTS, then lets
// compilation continue unchanged.  Every other crate is handed to rustc as is.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let p = with_no_trimmed_paths!(tcx.def_path_str(d));
        if d.is_local() { format!("{}::{}", tcx.crate_name(d.krate), p) } else { p }
    }
    fn ty(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(format!("{t}")) }
    fn loc(&self, sp: Span) -> (String, usize, usize) {
        // Outermost call site: the user-written line.
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() { return ("".into(), 0, 0); }
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{o:?}"),
        };
        (f, lo.line, hi.line)
    }
    fn macros(&self, sp: Span) -> String {
        let mut v: Vec<String> = vec![];
        let mut c = sp.ctxt();
        let mut n = 0;
        while !c.is_root() && n < 12 {
            let e = c.outer_expn_data();
            if let rustc_span::hygiene::ExpnKind::Macro(k, name) = e.kind {
                let _ = k;
                v.push(name.to_string());
            } else { v.push(format!("#{}", e.kind.descr())); }
            c = e.call_site.ctxt();
            n += 1;
        }
        v.reverse();
        v.join("/")
    }
    fn place(&self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![p.local.as_usize().to_string()];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "*".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() && pt.variant_index.is_none() { None }
                            else { a.variant(vi).fields.get(f).map(|f| f.name.to_string()) }
                        }
                        ty::Closure(d, _) => {
                            d.as_local().and_then(|d| tcx.closure_captures(d).get(f.as_usize()).map(|c| format!("^{}", c.to_symbol())))
                        }
                        _ => None,
                    };
                    match name { Some(n) => format!(".{n}"), None => format!(".{}", f.as_usize()) }
                }
                ProjectionElem::Index(_) => "[]".to_string(),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[{}{}]", if from_end { "-" } else { "" }, offset),
                ProjectionElem::Subslice { .. } => "[..]".to_string(),
                ProjectionElem::Downcast(n, i) => format!("@{}", n.map(|n| n.to_string()).unwrap_or_else(|| i.as_usize().to_string())),
                _ => "?".to_string(),
            };
            v.push(esc(&s));
            pt = pt.projection_ty(tcx, el);
        }
        arr(v)
    }
    fn scalar_or_str(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        // &str / &[u8; N] / byte slices
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return Some(format!("\"s\":{}", esc(&String::from_utf8_lossy(b))));
                }
            }
            if let ty::Slice(e) = inner.kind() && *e == tcx.types.u8 {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return Some(format!("\"s\":{}", esc(&String::from_utf8_lossy(b))));
                }
            }
            if let ty::Array(e, n) = inner.kind() && *e == tcx.types.u8 {
                if let (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), Some(n)) = (v, n.try_to_target_usize(tcx)) {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                        let o = off.bytes() as usize;
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                        return Some(format!("\"b\":{}", esc(&b.iter().map(|b| *b as char).collect::<String>())));
                    }
                }
            }
            return None;
        }
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) = v {
            let bits = i.to_bits_unchecked();
            return Some(match t.kind() {
                ty::Bool => format!("\"v\":{}", if bits != 0 { "true" } else { "false" }),
                ty::Char => format!("\"ch\":{}", esc(&char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default())),
                ty::Int(_) => { let s = i.size(); format!("\"v\":{}", s.sign_extend(bits)) }
                ty::Uint(_) => format!("\"v\":{bits}"),
                // a pre-interned symbol: the index is the same in every process of this compiler
                ty::Adt(a, _) if tcx.item_name(a.did()).as_str() == "Symbol" && tcx.crate_name(a.did().krate).as_str() == "rustc_span" => format!("\"raw\":{}", esc(rustc_span::Symbol::new(bits as u32).as_str())),
                _ => format!("\"raw\":{bits}"),
            });
        }
        None
    }
    fn fn_ref(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"fn\":{}", esc(&self.path(d)));
        let a: Vec<String> = args.iter().filter_map(|g| g.as_type()).map(|t| esc(&self.ty(t))).collect();
        if !a.is_empty() { let _ = write!(o, ",\"ga\":{}", arr(a)); }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args_e) {
                let id = i.def_id();
                if id != d { let _ = write!(o, ",\"rs\":{}", esc(&self.path(id))); }
                if let ty::InstanceKind::Virtual(..) = i.def { o.push_str(",\"virt\":true"); }
            } else { o.push_str(",\"unres\":true"); }
            if let Some(t) = tcx.trait_of_assoc(d) { let _ = write!(o, ",\"tr\":{}", esc(&self.path(t))); }
        }
        o
    }
    fn constant(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        match t.kind() {
            ty::FnDef(d, args) => return format!("{{{}}}", self.fn_ref(env, *d, args.no_bound_vars().expect("bound"))),
            ty::Closure(d, _) => return format!("{{\"clo\":{}}}", esc(&self.path(*d))),
            _ => {}
        }
        let mut o = format!("{{\"ty\":{}", esc(&self.ty(t)));
        let mut prom = false;
        if let Const::Unevaluated(u, _) = c {
            let _ = write!(o, ",\"def\":{}", esc(&self.path(u.def)));
            if let Some(p) = u.promoted { prom = true; let _ = write!(o, ",\"pr\":{}", p.as_usize()); }
        }
        let _ = prom;
        let val = match c {
            Const::Val(v, _) => Some(*v),
            _ => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        if let Some(v) = val {
            if let Some(s) = self.scalar_or_str(v, t) { let _ = write!(o, ",{s}"); }
            else if let ConstValue::ZeroSized = v { o.push_str(",\"zst\":true"); }
            else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                let (prov, _) = p.prov_and_relative_offset();
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
                }
            }
        }
        o.push('}');
        o
    }
    fn op(&self, env: TypingEnv<'tcx>, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(b, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(env, &c.const_)),
            Operand::RuntimeChecks(_) => "{\"rc\":1}".into(),
        }
    }
    fn rvalue(&self, env: TypingEnv<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(env, b, o)),
            Rvalue::Repeat(o, _) => format!("{{\"r\":\"rep\",\"o\":{}}}", self.op(env, b, o)),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(b, p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(b, p)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"def\":{}}}", esc(&self.path(*d))),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"ptr\",\"mut\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(b, p)),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{}}}", esc(&format!("{k:?}")), self.op(env, b, o), esc(&self.ty(*t))),
            Rvalue::BinaryOp(k, ab) => format!("{{\"r\":\"bin\",\"k\":{},\"a\":{},\"b\":{}}}", esc(&format!("{k:?}")), self.op(env, b, &ab.0), self.op(env, b, &ab.1)),
            Rvalue::UnaryOp(k, o) => format!("{{\"r\":\"un\",\"k\":{},\"o\":{}}}", esc(&format!("{k:?}")), self.op(env, b, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, tcx).ty;
                let mut vs = vec![];
                let mut en = String::new();
                if let ty::Adt(a, _) = t.kind() && a.is_enum() {
                    en = self.path(a.did());
                    for (i, d) in a.discriminants(tcx) {
                        vs.push(format!("{}:{}", esc(&d.val.to_string()), esc(a.variant(i).name.as_str())));
                    }
                }
                format!("{{\"r\":\"disc\",\"p\":{},\"en\":{},\"vs\":{{{}}}}}", self.place(b, p), esc(&en), vs.join(","))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| self.op(env, b, o)));
                match &**k {
                    AggregateKind::Adt(d, vi, _, _, uf) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let fs = match uf {
                            Some(f) => vec![esc(v.fields[*f].name.as_str())],
                            None => v.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!("{{\"r\":\"agg\",\"adt\":{},\"var\":{},\"fs\":{},\"os\":{}}}", esc(&self.path(*d)), esc(v.name.as_str()), arr(fs), os)
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let names = d.as_local().map(|d| tcx.closure_captures(d).iter().map(|c| esc(c.to_symbol().as_str())).collect::<Vec<_>>()).unwrap_or_default();
                        format!("{{\"r\":\"agg\",\"clo\":{},\"fs\":{},\"os\":{}}}", esc(&self.path(*d)), arr(names), os)
                    }
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"tup\":1,\"os\":{os}}}"),
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"arr\":1,\"os\":{os}}}"),
                    AggregateKind::RawPtr(..) => format!("{{\"r\":\"agg\",\"rawptr\":1,\"os\":{os}}}"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(b, p)),
            _ => "{\"r\":\"other\"}".into(),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate(_) => "\"term\"".into(),
        }
    }
    fn body(&self, name: &str, kind: &str, def: LocalDefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def.to_def_id());
        let (f, lo, hi) = self.loc(b.span);
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut others: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = Some(v.name.to_string()); }
                else { others.push(format!("[{},{}]", esc(v.name.as_str()), self.place(b, &p))); }
            }
        }
        let locals = arr(b.local_decls.iter_enumerated().map(|(i, d)| {
            match &names[i.as_usize()] { Some(n) => format!("[{},{}]", esc(&self.ty(d.ty)), esc(n)), None => format!("[{}]", esc(&self.ty(d.ty))) }
        }));
        let blocks = arr(b.basic_blocks.iter().map(|bb| {
            let st = arr(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(x) => {
                    let (_, l, _) = self.loc(s.source_info.span);
                    Some(format!("[{},{},{}]", self.place(b, &x.0), self.rvalue(env, b, &x.1), l))
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    Some(format!("[{},{{\"r\":\"setdisc\",\"i\":{}}},0]", self.place(b, place), variant_index.as_usize()))
                }
                StatementKind::StorageDead(l) => Some(format!("[[{}],{{\"r\":\"dead\"}},0]", l.as_usize())),
                StatementKind::StorageLive(l) => Some(format!("[[{}],{{\"r\":\"live\"}},0]", l.as_usize())),
                StatementKind::Intrinsic(i) => Some(format!("[[0],{{\"r\":\"intr\",\"x\":{}}},0]", esc(&format!("{i:?}")))),
                _ => None,
            }));
            let t = bb.terminator();
            let sp = t.source_info.span;
            let (_, line, _) = self.loc(sp);
            let mac = self.macros(sp);
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(b, tcx);
                    let vs = arr(targets.iter().map(|(v, bb)| {
                        let val = match dt.kind() { ty::Int(i) => {
                            let sz = rustc_abi::Size::from_bytes(i.bit_width().unwrap_or(64) / 8); sz.sign_extend(v).to_string() }
                            _ => v.to_string() };
                        format!("[{},{}]", val, bb.as_usize())
                    }));
                    format!("\"t\":\"sw\",\"o\":{},\"ty\":{},\"vs\":{},\"ot\":{}", self.op(env, b, discr), esc(&self.ty(dt)), vs, targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume => "\"t\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "\"t\":\"terminate\"".into(),
                TerminatorKind::Return => "\"t\":\"ret\"".into(),
                TerminatorKind::Unreachable => "\"t\":\"unreach\"".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(b, tcx).ty;
                    format!("\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"uw\":{}", self.place(b, place), esc(&self.ty(t)), target.as_usize(), self.unwind(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let fs = match func {
                        Operand::Constant(c) => self.constant(env, &c.const_),
                        o => format!("{{\"ind\":{},\"ity\":{}}}", self.op(env, b, o), esc(&self.ty(o.ty(b, tcx)))),
                    };
                    format!("\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"uw\":{}", fs,
                        arr(args.iter().map(|a| self.op(env, b, &a.node))), self.place(b, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), self.unwind(unwind))
                }
                TerminatorKind::Assert { cond, expected, target, unwind, msg } => {
                    format!("\"t\":\"assert\",\"o\":{},\"e\":{},\"to\":{},\"uw\":{},\"msg\":{}", self.op(env, b, cond), expected, target.as_usize(), self.unwind(unwind), esc(&format!("{msg:?}").chars().take(40).collect::<String>()))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::Yield { resume, .. } => format!("\"t\":\"goto\",\"to\":{}", resume.as_usize()),
                _ => "\"t\":\"other\"".into(),
            };
            format!("{{\"c\":{},\"s\":{},\"t\":{{{},\"ln\":{}{}}}}}", if bb.is_cleanup { 1 } else { 0 }, st, ts, line,
                if mac.is_empty() { String::new() } else { format!(",\"mac\":{}", esc(&mac)) })
        }));
        let caps = if tcx.is_closure_like(def.to_def_id()) {
            arr(tcx.closure_captures(def).iter().map(|c| esc(c.to_symbol().as_str())))
        } else { "[]".into() };
        format!("{{\"path\":{},\"kind\":{},\"file\":{},\"lo\":{lo},\"hi\":{hi},\"argc\":{},\"locals\":{},\"dbg\":{},\"caps\":{},\"blocks\":{}}}",
            esc(name), esc(kind), esc(&f), b.arg_count, locals, arr(others), caps, blocks)
    }

    fn run(&self) -> String {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| d.local_def_index.as_u32());
        for d in owners {
            let did = d.to_def_id();
            let k = tcx.def_kind(did);
            let (kind, b): (&str, &Body<'tcx>) = match k {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(did)),
                DefKind::Closure => ("closure", tcx.optimized_mir(did)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let g = tcx.generics_of(did);
                    let _ = g;
                    ("const", tcx.mir_for_ctfe(did))
                }
                _ => continue,
            };
            let name = self.path(did);
            bodies.push(self.body(&name, kind, d, b));
            for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                bodies.push(self.body(&format!("{name}::promoted[{}]", i.as_usize()), "promoted", d, p));
            }
        }
        let mut adts = vec![];
        let mut fns = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        let mut foreign = vec![];
        let mut traits = vec![];
        let mut ids: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        ids.sort_by_key(|d| d.local_def_index.as_u32());
        for d in ids {
            let did = d.to_def_id();
            let k = tcx.def_kind(did);
            let (f, lo, _) = self.loc(tcx.def_span(did));
            match k {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let r = a.repr();
                    let vs = arr(a.variants().iter_enumerated().map(|(i, v)| {
                        let disc = if a.is_enum() { a.discriminant_for_variant(tcx, i).val.to_string() } else { "0".into() };
                        let fs = arr(v.fields.iter().map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            format!("[{},{},{}]", esc(f.name.as_str()), esc(&self.ty(t)), esc(&format!("{:?}", f.vis)))
                        }));
                        format!("{{\"name\":{},\"disc\":{},\"fields\":{}}}", esc(v.name.as_str()), disc, fs)
                    }));
                    adts.push(format!("{{\"path\":{},\"kind\":{},\"c\":{},\"transparent\":{},\"repr\":{},\"variants\":{},\"file\":{},\"lo\":{lo},\"nonexh\":{}}}",
                        esc(&self.path(did)), esc(a.descr()), r.c(), r.transparent(), esc(&format!("{:?}", r.int)), vs, esc(&f), a.is_variant_list_non_exhaustive()));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    let parent_foreign = tcx.is_foreign_item(did);
                    let attrs = tcx.codegen_fn_attrs(did);
                    let sk = sig.skip_binder();
                    let s = format!("{{\"path\":{},\"name\":{},\"sig\":{},\"ins\":{},\"out\":{},\"abi\":{},\"unsafe\":{},\"nomangle\":{},\"sym\":{},\"vis\":{},\"file\":{},\"lo\":{lo}}}",
                        esc(&self.path(did)), esc(tcx.item_name(did).as_str()), esc(&with_no_trimmed_paths!(format!("{sig}"))),
                        arr(sk.inputs().iter().map(|t| esc(&self.ty(*t)))), esc(&self.ty(sk.output())),
                        esc(&sk.abi().to_string()), sk.safety().is_unsafe(),
                        attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE),
                        attrs.symbol_name.map(|s| esc(s.as_str())).unwrap_or("null".into()),
                        esc(&format!("{:?}", tcx.visibility(did))), esc(&f));
                    if parent_foreign { foreign.push(s) } else { fns.push(s) }
                }
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let (tr, trargs, neg, un) = if of_trait {
                        let h = tcx.impl_trait_header(did);
                        let tref = h.trait_ref.instantiate_identity().skip_norm_wip();
                        (esc(&self.path(tref.def_id)), esc(&with_no_trimmed_paths!(format!("{}", tref))),
                         matches!(h.polarity, ty::ImplPolarity::Negative), h.safety.is_unsafe())
                    } else { ("null".into(), "null".into(), false, false) };
                    let preds = arr(tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().map(|p| esc(&with_no_trimmed_paths!(format!("{}", p.skip_norm_wip())))));
                    let items = arr(tcx.associated_item_def_ids(did).iter().map(|i| esc(&self.path(*i))));
                    impls.push(format!("{{\"trait\":{tr},\"traitref\":{trargs},\"self\":{},\"neg\":{neg},\"unsafe\":{un},\"preds\":{preds},\"items\":{items},\"file\":{},\"lo\":{lo}}}", esc(&self.ty(self_ty)), esc(&f)));
                }
                DefKind::Trait => {
                    let td = tcx.trait_def(did);
                    let preds = arr(tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().map(|p| esc(&with_no_trimmed_paths!(format!("{}", p.skip_norm_wip())))));
                    let items = arr(tcx.associated_item_def_ids(did).iter().map(|i| esc(&self.path(*i))));
                    traits.push(format!("{{\"path\":{},\"unsafe\":{},\"preds\":{preds},\"items\":{items},\"vis\":{},\"file\":{},\"lo\":{lo}}}", esc(&self.path(did)), td.safety.is_unsafe(), esc(&format!("{:?}", tcx.visibility(did))), esc(&f)));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut v = String::new();
                    if !matches!(k, DefKind::Static { .. }) && !tcx.generics_of(did).requires_monomorphization(tcx) && tcx.hir_maybe_body_owned_by(d).is_some() {
                        if let Ok(cv) = tcx.const_eval_poly(did) { if let Some(s) = self.scalar_or_str(cv, t) { v = format!(",{s}"); } }
                    }
                    consts.push(format!("{{\"path\":{},\"ty\":{},\"static\":{}{v},\"file\":{},\"lo\":{lo}}}", esc(&self.path(did)), esc(&self.ty(t)), matches!(k, DefKind::Static { .. }), esc(&f)));
                }
                _ => {}
            }
        }
        let (rootf, _, _) = self.loc(tcx.def_span(rustc_hir::def_id::CRATE_DEF_ID.to_def_id()));
        format!("{{\"crate\":{},\"root\":{},\"bodies\":{},\n\"adts\":{},\n\"fns\":{},\n\"foreign\":{},\n\"impls\":{},\n\"traits\":{},\n\"consts\":{}}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), esc(&rootf), format!("[{}]", bodies.join(",\n")), arr(adts), arr(fns), arr(foreign), arr(impls), arr(traits), arr(consts))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.incremental = None;
    }
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.dcx().has_errors().is_some() { return rustc_driver::Compilation::Continue; }
        let s = Cx { tcx }.run();
        let dir = std::env::var("VERIF_FACTS").expect("VERIF_FACTS");
        let name = format!("{}/{}.json", dir, tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE));
        let tmp = format!("{name}.{}.tmp", std::process::id());
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &name).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rustc = args[1].clone();
    let rest: Vec<String> = args[1..].to_vec();
    let roots: Vec<String> = std::env::var("VERIF_ROOTS").unwrap_or_default().split(':').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let cname = rest.iter().position(|a| a == "--crate-name").and_then(|i| rest.get(i + 1)).cloned().unwrap_or_default();
    let src = rest.iter().skip(1).find(|a| a.ends_with(".rs")).cloned();
    let hit = match &src {
        Some(s) if !cname.is_empty() && cname != "build_script_build" && cname != "build_script_main" && !rest.iter().any(|a| a == "--test") => {
            let p = std::fs::canonicalize(s).map(|p| p.display().to_string()).unwrap_or(s.clone());
            roots.iter().any(|r| p.starts_with(r.as_str()))
        }
        _ => false,
    };
    if !hit {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&rustc).args(&rest[1..]).exec();
        panic!("exec {rustc}: {e}");
    }
    let early = rustc_session::EarlyDiagCtxt::new(rustc_session::config::ErrorOutputType::default());
    let _ = &early;
    std::process::exit(match rustc_driver::catch_fatal_errors(|| rustc_driver::run_compiler(&rest, &mut Cb)) { Ok(_) => 0, Err(_) => 1 });
}
