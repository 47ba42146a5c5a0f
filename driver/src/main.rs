//! rustc driver that writes the type-checked program of every workspace crate as JSON:
//! monomorphic MIR of every local function/closure/async body (before the coroutine
//! transform), MIR of the std combinators they use, resolved callees, evaluated constants,
//! type layouts (variants/fields), promoteds, drop impls.  It never runs the program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_session;
extern crate rustc_errors;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum Body<'tcx> {
    Inst(DefId, GenericArgsRef<'tcx>),
    Promoted(DefId, GenericArgsRef<'tcx>, usize),
    /// what dropping a suspended async body does
    CoDrop(DefId, GenericArgsRef<'tcx>),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    keys: HashMap<Body<'tcx>, usize>,
    queue: VecDeque<(usize, Body<'tcx>)>,
    fns: Vec<String>,
    adts: HashMap<DefId, String>,
    iter_next: Vec<(usize, String)>,
    iter_seen: std::collections::HashSet<Ty<'tcx>>,
}

/// Functions of the standard library whose real MIR is taken into the dump (pure plumbing:
/// Option/Result/Iterator combinators, comparison, conversion, closures).
fn std_allowed(p: &str) -> bool {
    const ALLOW: &[&str] = &[
        "std::option::", "std::result::", "std::iter::", "std::ops::", "std::cmp::",
        "std::bool::", "std::convert::", "std::tuple::", "std::task::Poll", "std::default::", "std::clone::",
        "core::option::", "core::result::", "core::iter::", "core::ops::", "core::cmp::",
        "core::bool::", "core::convert::", "core::tuple::", "core::task::Poll", "core::default::", "core::clone::",
        "<bool>::", "bool::<impl", "core::bool::<impl", "std::bool::<impl",
    ];
    if p.starts_with("<T as std::convert::") || p.starts_with("<I as std::iter::") || p.starts_with("<F as std::ops::") { return true; }
    let pp = p.trim_start_matches('<');
    ALLOW.iter().any(|a| p.starts_with(a) || pp.starts_with(a))
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn env(&self, b: &Body<'tcx>) -> ty::TypingEnv<'tcx> {
        let (d, a) = match b { Body::Inst(d, a) => (*d, *a), Body::Promoted(d, a, _) | Body::CoDrop(d, a) => (*d, *a) };
        if a.has_param() {
            ty::TypingEnv::post_analysis(self.tcx, d)
        } else {
            ty::TypingEnv::fully_monomorphized()
        }
    }

    fn key(&mut self, b: Body<'tcx>) -> usize {
        if let Some(&k) = self.keys.get(&b) { return k; }
        let k = self.fns.len();
        self.fns.push(String::new());
        self.keys.insert(b.clone(), k);
        self.queue.push_back((k, b));
        k
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, String::new());
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut s = String::from("{\"kind\":");
        s.push_str(if def.is_enum() { "\"enum\"" } else if def.is_union() { "\"union\"" } else { "\"struct\"" });
        let _ = write!(s, ",\"local\":{},\"variants\":[", d.is_local());
        for (i, v) in def.variants().iter_enumerated() {
            if i.as_usize() > 0 { s.push(','); }
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, i).val } else { 0 };
            let _ = write!(s, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[", q(v.name.as_str()), discr as i128);
            for (j, f) in v.fields.iter_enumerated() {
                if j.as_usize() > 0 { s.push(','); }
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let _ = write!(s, "[{},{}]", q(f.name.as_str()), q(&with_no_trimmed_paths!(t.to_string())));
            }
            s.push_str("]}");
        }
        s.push_str("]}");
        self.adts.insert(d, s);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) { return i; }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ids.insert(t, i);
        let s = with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let mut o = format!("{{\"s\":{}", q(&s));
        match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"adt\",\"p\":{},\"a\":[{}]", q(&self.path(def.did())), a.join(","));
                if def.is_box() { o.push_str(",\"box\":1"); }
                if let Some(dt) = tcx.adt_destructor(def.did()) {
                    if def.did().is_local() {
                        let k = self.key(Body::Inst(dt.did, args));
                        let _ = write!(o, ",\"drop\":{}", k);
                    } else {
                        o.push_str(",\"xdrop\":1");
                    }
                }
                if def.did().is_local() && def.is_struct() {
                    let fs: Vec<Ty<'tcx>> = def.non_enum_variant().fields.iter().map(|f| f.ty(tcx, args).skip_norm_wip()).collect();
                    let fs: Vec<String> = fs.into_iter().map(|x| { let x = tcx.erase_and_anonymize_regions(x); self.ty(x).to_string() }).collect();
                    let _ = write!(o, ",\"ft\":[{}]", fs.join(","));
                }
            }
            ty::Ref(_, u, m) => {
                let u = self.ty(u);
                let _ = write!(o, ",\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut() as u8, u);
            }
            ty::RawPtr(u, m) => {
                let u = self.ty(u);
                let _ = write!(o, ",\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut() as u8, u);
            }
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"a\":[{}]", a.join(","));
            }
            ty::Array(u, n) => {
                let u = self.ty(u);
                let _ = write!(o, ",\"k\":\"array\",\"t\":{},\"n\":{}", u, n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into()));
            }
            ty::Slice(u) => { let u = self.ty(u); let _ = write!(o, ",\"k\":\"slice\",\"t\":{}", u); }
            ty::Closure(d, args) => {
                let k = self.key(Body::Inst(d, args));
                let kind = if args.has_param() { format!("{:?}", args.as_closure().kind_ty()) } else { format!("{:?}", args.as_closure().kind()) };
                let _ = write!(o, ",\"k\":\"closure\",\"fn\":{},\"ck\":{}", k, q(&kind));
            }
            ty::Coroutine(d, args) => {
                if d.is_local() {
                    let k = self.key(Body::Inst(d, args));
                    let _ = write!(o, ",\"k\":\"coroutine\",\"fn\":{}", k);
                } else { o.push_str(",\"k\":\"coroutine\""); }
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.no_bound_vars().unwrap_or(GenericArgs::identity_for_item(tcx, d)), ty::TypingEnv::fully_monomorphized());
                let _ = write!(o, ",\"k\":\"fndef\",\"c\":{}", c);
            }
            ty::Int(_) | ty::Uint(_) => o.push_str(",\"k\":\"int\""),
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Param(_) => o.push_str(",\"k\":\"param\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.tys[i] = o;
        i
    }

    /// Is the MIR of `d` available and wanted?
    fn wanted(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return false; }
        if d.is_local() { return tcx.is_mir_available(d); }
        let krate = tcx.crate_name(d.krate);
        let k = krate.as_str();
        if k == "noodle" { return tcx.is_mir_available(d); }
        if k == "core" || k == "alloc" || k == "std" {
            return std_allowed(&self.path(d)) && tcx.is_mir_available(d) && !tcx.intrinsic(d).is_some();
        }
        false
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"p\":{}", q(&self.path(d)));
        let _ = write!(o, ",\"cr\":{}", q(tcx.crate_name(d.krate).as_str()));
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, ",\"a\":[{}]", a.join(","));
        let mut target: Option<(DefId, GenericArgsRef<'tcx>)> = None;
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            match inst.def {
                InstanceKind::Item(rd) => {
                    let _ = write!(o, ",\"rp\":{}", q(&self.path(rd)));
                    target = Some((rd, inst.args));
                    // Provided methods of std's `Iterator`: use the default body, so that
                    // everything reduces to `next`, closures and loops.
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        let tp = self.path(tr);
                        let provided = tcx.associated_item(d).defaultness(tcx).has_value();
                        if provided && !rd.is_local() && (tp.ends_with("iter::Iterator") || tp.ends_with("::DoubleEndedIterator")) {
                            target = Some((d, args));
                        }
                        if tp.ends_with("iter::Iterator") || tp.ends_with("iter::IntoIterator") || tp.ends_with("::DoubleEndedIterator") {
                            self.note_iter(args.type_at(0), env);
                        }
                        if tp.ends_with("iter::FromIterator") || tp.ends_with("iter::Extend") || tp.ends_with("iter::Sum") || tp.ends_with("iter::Product") {
                            for t in args.types().skip(1).collect::<Vec<_>>() { self.note_iter(t, env); }
                        }
                    }
                }
                InstanceKind::Virtual(..) => o.push_str(",\"virtual\":1"),
                InstanceKind::Intrinsic(..) => o.push_str(",\"intrinsic\":1"),
                InstanceKind::Shim(_) => o.push_str(",\"shim\":1"),
                _ => {}
            }
        }
        for t in args.types().collect::<Vec<_>>() { self.note_iter(t, env); }
        if let Some((rd, ra)) = target {
            if self.wanted(rd) {
                let k = self.key(Body::Inst(rd, ra));
                let _ = write!(o, ",\"key\":{}", k);
            }
        }
        o.push('}');
        o
    }

    /// Record how `next` / `into_iter` of an iterator type resolve.
    fn note_iter(&mut self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) {
        let tcx = self.tcx;
        if t.has_param() || t.has_escaping_bound_vars() { return; }
        let t = tcx.erase_and_anonymize_regions(t);
        if !self.iter_seen.insert(t) { return; }
        let Some(it) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator")) else { return };
        let Some(ii) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("IntoIterator")) else { return };
        for (tr, m, is_next) in [(it, "next", true), (ii, "into_iter", false)] {
            let Some(ai) = tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == m).map(|a| a.def_id) else { continue };
            let args = tcx.mk_args(&[t.into()]);
            let trait_ref = ty::TraitRef::new(tcx, tr, [ty::GenericArg::from(t)]);
            if !implements(tcx, env, trait_ref) { continue; }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, ai, args) {
                if let InstanceKind::Item(rd) = inst.def {
                    let mut s = format!("{{\"m\":{},\"rp\":{}", q(if is_next { "next" } else { "into_iter" }), q(&self.path(rd)));
                    if self.wanted(rd) {
                        let k = self.key(Body::Inst(rd, inst.args));
                        let _ = write!(s, ",\"key\":{}", k);
                    }
                    s.push('}');
                    let ti = self.ty(t);
                    self.iter_next.push((ti, s));
                }
            }
        }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        let f = if f.len() > 160 { f[f.len() - 160..].to_string() } else { f };
        format!("{}:{}", f, l.line)
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{},[", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                mir::ProjectionElem::Deref => o.push_str("[\"d\"]"),
                mir::ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        if !def.is_union() || true {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if let Some(fd) = def.variants().get(v).and_then(|v| v.fields.get(f)) {
                                name = fd.name.to_string();
                            }
                        }
                    }
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), q(&name));
                }
                mir::ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, "[\"ci\",{},{}]", offset, from_end); }
                mir::ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end); }
                mir::ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|s| s.to_string()).unwrap_or_default();
                    let _ = write!(o, "[\"dc\",{},{}]", v.as_usize(), q(&name));
                }
                _ => o.push_str("[\"o\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 { return "{\"x\":1}".into(); }
        let ti = self.ty(t);
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                match t.kind() {
                    ty::Bool => return format!("{{\"v\":{},\"t\":{}}}", (i.to_bits_unchecked() != 0), ti),
                    ty::Int(_) => { let sz = i.size(); return format!("{{\"v\":{},\"t\":{}}}", i.to_int(sz), ti); }
                    ty::Uint(_) | ty::Char => { return format!("{{\"v\":{},\"t\":{}}}", i.to_bits_unchecked(), ti); }
                    ty::Pat(b, _) => return self.cval(v, *b, depth + 1),
                    ty::Float(_) => return format!("{{\"fl\":{},\"t\":{}}}", q(&format!("{:?}", i)), ti),
                    _ => {}
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => return format!("{{\"static\":{},\"t\":{}}}", q(&self.path(d)), ti),
                    GlobalAlloc::Function { instance } => {
                        let c = self.callee(instance.def_id(), instance.args, ty::TypingEnv::fully_monomorphized());
                        return format!("{{\"fnptr\":{},\"t\":{}}}", c, ti);
                    }
                    GlobalAlloc::Memory(_) => {
                        if let ty::Ref(_, u, _) = t.kind() {
                            if u.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                                let inner = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let inner = self.cval(inner, *u, depth + 1);
                                return format!("{{\"ref\":{},\"t\":{}}}", inner, ti);
                            }
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => {
                if let ty::FnDef(..) | ty::Closure(..) = t.kind() { return format!("{{\"zst\":1,\"t\":{}}}", ti); }
                if let ty::Tuple(l) = t.kind() { if l.is_empty() { return format!("{{\"unit\":1,\"t\":{}}}", ti); } }
            }
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, u, _) = t.kind() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if u.is_str() {
                            return format!("{{\"str\":{},\"t\":{}}}", q(&String::from_utf8_lossy(b)), ti);
                        }
                        let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        return format!("{{\"bytes\":[{}],\"t\":{}}}", bs.join(","), ti);
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // read scalars and strs out of memory
                if let ty::Ref(_, u, _) = t.kind() {
                    if u.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"str\":{},\"t\":{}}}", q(&String::from_utf8_lossy(b)), ti);
                        }
                    }
                }
                if t.is_integral() || t.is_bool() || t.is_char() || matches!(t.kind(), ty::Pat(..)) {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let sz = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)).unwrap().size;
                        if let Ok(s) = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, sz), false) {
                            return self.cval(ConstValue::Scalar(s), t, depth + 1);
                        }
                    }
                }
            }
        }
        // try to take an aggregate apart
        let ok = match t.kind() { ty::Adt(d, _) => !d.is_union(), ty::Tuple(_) | ty::Array(..) => true, _ => false };
        if ok && !t.has_param() {
            if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.iter().cloned().collect();
                let var = dc.variant.map(|v| v.as_usize() as i64).unwrap_or(-1);
                let fs: Vec<String> = fs.into_iter().map(|(v, t)| self.cval(v, t, depth + 1)).collect();
                return format!("{{\"agg\":[{}],\"var\":{},\"t\":{}}}", fs.join(","), var, ti);
            }
        }
        format!("{{\"x\":1,\"t\":{}}}", ti)
    }

    fn konst(&mut self, env: ty::TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let c = self.callee(d, args.no_bound_vars().unwrap_or(GenericArgs::identity_for_item(tcx, d)), env);
            let ti = self.ty(t);
            return format!("{{\"fn\":{},\"t\":{}}}", c, ti);
        }
        let mut nm = String::new();
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let k = self.key(Body::Promoted(uv.def, uv.args, p.as_usize()));
                let ti = self.ty(t);
                return format!("{{\"promoted\":{},\"t\":{}}}", k, ti);
            }
            nm = self.path(uv.def);
        }
        let mut r = match c.const_.eval(tcx, env, c.span) {
            Ok(v) if !t.has_param() => self.cval(v, t, 0),
            _ => { let ti = self.ty(t); format!("{{\"x\":1,\"t\":{}}}", ti) }
        };
        if !nm.is_empty() {
            r.pop();
            let _ = write!(r, ",\"name\":{}}}", q(&nm));
        }
        r
    }

    fn op(&mut self, env: ty::TypingEnv<'tcx>, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            mir::Operand::Constant(c) => format!("[\"k\",{}]", self.konst(env, c)),
            _ => { "[\"rc\"]".to_string() }
        }
    }

    fn rvalue(&mut self, env: ty::TypingEnv<'tcx>, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => format!("[\"use\",{}]", self.op(env, body, o)),
            Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(env, body, o), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(body, p)),
            Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(body, p)),
            RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, p)),
            Cast(k, o, t) => { let ti = self.ty(*t); format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k).split(['(', ' ']).next().unwrap().to_string()), self.op(env, body, o), ti) }
            BinaryOp(b, ab) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.op(env, body, &ab.0), self.op(env, body, &ab.1)),
            UnaryOp(u, a) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.op(env, body, a)),
            Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let ti = self.ty(t); format!("[\"discr\",{},{}]", self.place(body, p), ti) }
            Aggregate(k, fs) => {
                let fs: Vec<String> = fs.iter().map(|o| self.op(env, body, o)).collect();
                let ks = match **k {
                    mir::AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    mir::AggregateKind::Adt(d, v, args, _, af) => {
                        self.adt(d);
                        let def = self.tcx.adt_def(d);
                        let names: Vec<String> = def.variant(v).fields.iter().map(|f| q(f.name.as_str())).collect();
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        let _ = af;
                        format!("[\"adt\",{},{},{},[{}],{}]", q(&self.path(d)), v.as_usize(), q(def.variant(v).name.as_str()), names.join(","), ti)
                    }
                    mir::AggregateKind::Closure(d, a) | mir::AggregateKind::Coroutine(d, a) | mir::AggregateKind::CoroutineClosure(d, a) => {
                        let key = self.key(Body::Inst(d, a));
                        format!("[\"closure\",{},{}]", key, matches!(**k, mir::AggregateKind::Coroutine(..)))
                    }
                    mir::AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, fs.join(","))
            }
            CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn get_body(&mut self, b: &Body<'tcx>) -> Option<mir::Body<'tcx>> {
        let tcx = self.tcx;
        let env = self.env(b);
        let (raw, args): (mir::Body<'tcx>, GenericArgsRef<'tcx>) = match b {
            Body::Inst(d, args) => {
                if let Some(l) = d.as_local() {
                    let st = tcx.mir_drops_elaborated_and_const_checked(l);
                    if st.is_stolen() { (tcx.optimized_mir(*d).clone(), *args) } else { (st.borrow().clone(), *args) }
                } else {
                    if !tcx.is_mir_available(*d) { return None; }
                    (tcx.optimized_mir(*d).clone(), *args)
                }
            }
            Body::CoDrop(d, args) => {
                let b = tcx.optimized_mir(*d);
                (b.coroutine_drop()?.clone(), *args)
            }
            Body::Promoted(d, args, i) => {
                let pm = tcx.promoted_mir(*d);
                (pm[mir::Promoted::from_usize(*i)].clone(), *args)
            }
        };
        let id = GenericArgs::identity_for_item(tcx, match b { Body::Inst(d, _) | Body::Promoted(d, _, _) | Body::CoDrop(d, _) => *d });
        if args == id && args.has_param() {
            let r = tcx.erase_and_anonymize_regions(raw);
            return Some(r);
        }
        let erased = tcx.erase_and_anonymize_regions(raw);
        match tcx.try_instantiate_mir_and_normalize_erasing_regions_compat(args, env, erased) {
            Some(b) => Some(b),
            None => None,
        }
    }

    fn emit(&mut self, k: usize, b: Body<'tcx>) {
        let tcx = self.tcx;
        let env = self.env(&b);
        let Some(body) = self.get_body(&b) else { self.fns[k] = "null".into(); return };
        let (d, args, prom) = match &b { Body::Inst(d, a) => (*d, *a, -1i64), Body::Promoted(d, a, i) => (*d, *a, *i as i64), Body::CoDrop(d, a) => (*d, *a, -2) };
        let mut o = String::new();
        let _ = write!(o, "{{\"path\":{},\"full\":{}", q(&format!("{}{}", self.path(d), if prom == -2 { "::{drop}" } else { "" })), q(&with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args))));
        let _ = write!(o, ",\"crate\":{},\"local\":{},\"prom\":{},\"span\":{},\"poly\":{}", q(tcx.crate_name(d.krate).as_str()), d.is_local(), prom, q(&self.span(body.span)), args.has_param());
        let _ = write!(o, ",\"kind\":{}", q(&format!("{:?}", tcx.def_kind(d))));
        if let Some(l) = d.as_local() {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && prom < 0 {
                let _ = write!(o, ",\"pub\":{}", tcx.visibility(l.to_def_id()).is_public());
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"self\":{}", q(&with_no_trimmed_paths!(st.to_string())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let _ = write!(o, ",\"trait\":{}", q(&self.path(tr.skip_binder().def_id)));
                    }
                }
                if tcx.is_automatically_derived(tcx.parent(d)) { o.push_str(",\"derived\":1"); }
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) {
                let p = tcx.typeck_root_def_id(d);
                let _ = write!(o, ",\"parent\":{}", q(&self.path(p)));
                if tcx.coroutine_kind(d).is_some() {
                    o.push_str(",\"coroutine\":1");
                    if let Some(l) = body.coroutine_layout_raw() {
                        let tys: Vec<String> = l.field_tys.iter().map(|t| self.ty(t.ty).to_string()).collect();
                        let vars: Vec<String> = l.variant_fields.iter().map(|v| format!("[{}]", v.iter().map(|s| s.as_usize().to_string()).collect::<Vec<_>>().join(","))).collect();
                        let _ = write!(o, ",\"saved\":[[{}],[{}]]", tys.join(","), vars.join(","));
                    }
                    if prom == -1 && !args.has_param() { let k = self.key(Body::CoDrop(d, args)); let _ = write!(o, ",\"codrop\":{}", k); }
                }
                let ups: Vec<String> = tcx.closure_captures(l).iter().map(|c| q(c.to_symbol().as_str())).collect();
                let _ = write!(o, ",\"upvars\":[{}]", ups.join(","));
            }
        }
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        if let Some(s) = body.spread_arg { let _ = write!(o, ",\"spread\":{}", s.as_usize()); }
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
            }
        }
        o.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 { o.push(','); }
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(n) => { let _ = write!(o, "[{},{}]", t, q(n)); }
                None => { let _ = write!(o, "[{}]", t); }
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { o.push(','); }
            let _ = write!(o, "{{\"u\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for st in &bb.statements {
                use mir::StatementKind::*;
                let s = match &st.kind {
                    Assign(pr) => format!("[\"=\",{},{},{}]", self.place(&body, &pr.0), self.rvalue(env, &body, &pr.1), q(&self.span(st.source_info.span))),
                    SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(&body, place), variant_index.as_usize()),
                    StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(op) => format!("[\"assume\",{}]", self.op(env, &body, op)),
                        _ => "[\"copynonoverlapping\"]".to_string(),
                    },
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            use mir::TerminatorKind::*;
            let unw = |u: &mir::UnwindAction| match u { mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".to_string() };
            let ts = match &t.kind {
                Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v as i128, b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{},{}]", self.op(env, &body, discr), v.join(","), targets.otherwise().as_usize(), dti, sp)
                }
                Return => "[\"return\"]".into(),
                Unreachable => "[\"unreachable\"]".into(),
                UnwindResume | UnwindTerminate(_) => "[\"resume\"]".into(),
                Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    format!("[\"drop\",{},{},{},{},{}]", self.place(&body, place), target.as_usize(), ti, unw(unwind), sp)
                }
                Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(env, &body, func);
                    let a: Vec<String> = args.iter().map(|a| self.op(env, &body, &a.node)).collect();
                    let unsafe_call = { let ft = func.ty(&body.local_decls, tcx); if let ty::FnDef(d, _) = *ft.kind() { tcx.fn_sig(d).skip_binder().safety().is_unsafe() } else { false } };
                    format!("[\"call\",{},[{}],{},{},{},{},{}]", f, a.join(","), self.place(&body, destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), unw(unwind), sp, unsafe_call)
                }
                Assert { cond, expected, msg, target, unwind } => {
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(env, &body, len), self.op(env, &body, index)),
                        mir::AssertKind::Overflow(b, x, y) => format!("[\"overflow\",{},{},{}]", q(&format!("{:?}", b)), self.op(env, &body, x), self.op(env, &body, y)),
                        mir::AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(env, &body, x)),
                        mir::AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(env, &body, x)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.op(env, &body, cond), expected, kind, target.as_usize(), unw(unwind), sp)
                }
                Yield { resume, drop, .. } => format!("[\"yield\",{},{},{}]", resume.as_usize(), drop.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp),
                FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                CoroutineDrop => "[\"codrop\"]".into(),
                TailCall { .. } => "[\"tail\"]".into(),
                InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&ts);
            o.push('}');
        }
        o.push_str("]}");
        self.fns[k] = o;
    }
}

trait Compat<'tcx> {
    fn try_instantiate_mir_and_normalize_erasing_regions_compat(self, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>, b: mir::Body<'tcx>) -> Option<mir::Body<'tcx>>;
}
impl<'tcx> Compat<'tcx> for TyCtxt<'tcx> {
    fn try_instantiate_mir_and_normalize_erasing_regions_compat(self, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>, b: mir::Body<'tcx>) -> Option<mir::Body<'tcx>> {
        self.try_instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(self, b)).ok()
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: ty::TypingEnv<'tcx>, tr: ty::TraitRef<'tcx>) -> bool {
    tcx.codegen_select_candidate(env.as_query_input(tr)).is_ok()
}

/// the unsafe blocks of one body, as written (not those a macro of another crate or a desugaring brings along)
struct Unsafes<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<rustc_span::Span> }
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) { self.out.push(b.span); }
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump { tcx, tys: vec![], ty_ids: HashMap::new(), keys: HashMap::new(), queue: VecDeque::new(), fns: vec![], adts: HashMap::new(), iter_next: vec![], iter_seen: Default::default() };
        let mut generic = vec![];
        let mut roots = vec![];
        let mut impls = vec![];
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) { generic.push(did); continue; }
                    let args = GenericArgs::for_item(tcx, did, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => unreachable!() });
                    let k = d.key(Body::Inst(did, args));
                    roots.push(k);
                }
                _ => {}
            }
        }
        macro_rules! drain { () => { while let Some((k, b)) = d.queue.pop_front() { d.emit(k, b); } } }
        drain!();
        for g in generic {
            let seen = d.keys.keys().any(|b| matches!(b, Body::Inst(x, _) if *x == g));
            if !seen {
                let args = GenericArgs::identity_for_item(tcx, g);
                let args = tcx.erase_and_anonymize_regions(args);
                let k = d.key(Body::Inst(g, args));
                roots.push(k);
                drain!();
            }
        }
        // every local type
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) { d.adt(id.to_def_id()); }
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
                let st = with_no_trimmed_paths!(tcx.type_of(id).instantiate_identity().skip_norm_wip().to_string());
                let tr = tcx.impl_trait_ref(id).skip_binder().def_id;
                impls.push(format!("[{},{},{}]", q(&st), q(&d.path(tr)), tcx.is_automatically_derived(id.to_def_id())));
            }
        }
        drain!();
        // values of the statics that cannot change
        let mut stats = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability: rustc_hir::Mutability::Not, nested: false, .. } = tcx.def_kind(id) {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                if !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) { continue; }
                if let Ok(a) = tcx.eval_static_initializer(id.to_def_id()) {
                    let alloc_id = tcx.reserve_and_set_memory_alloc(a);
                    let v = d.cval(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, t, 0);
                    stats.push(format!("{}:{}", q(&d.path(id.to_def_id())), v));
                }
            }
        }
        drain!();
        let mut uns = vec![];
        {
            let lines = |sp: rustc_span::Span| {
                let sp = sp.source_callsite();
                let sm = tcx.sess.source_map();
                format!("{},{}", sm.lookup_char_pos(sp.lo()).line, sm.lookup_char_pos(sp.hi()).line)
            };
            for ldid in tcx.hir_body_owners() {
                let mut sp = vec![];
                let body = tcx.hir_body_owned_by(ldid);
                rustc_hir::intravisit::Visitor::visit_expr(&mut Unsafes { tcx, out: &mut sp }, body.value);
                let p = d.path(ldid.to_def_id());
                for s in sp { uns.push(format!("[\"block\",{},{},{}]", q(&p), q(&d.span(s)), lines(s))); }
                if matches!(tcx.def_kind(ldid), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(ldid).skip_binder().safety().is_unsafe() {
                    let s = tcx.def_span(ldid).with_hi(body.value.span.hi());
                    uns.push(format!("[\"fn\",{},{},{}]", q(&p), q(&d.span(s)), lines(s)));
                }
            }
            for id in tcx.hir_crate_items(()).definitions() {
                let k = match tcx.def_kind(id) {
                    DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. } => "static mut",
                    DefKind::ForeignMod => "extern block",
                    DefKind::Union => "union",
                    _ => continue,
                };
                let s = tcx.def_span(id);
                uns.push(format!("[{},{},{},{}]", q(k), q(&d.path(id.to_def_id())), q(&d.span(s)), lines(s)));
            }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"unsafe\":[{}],\"statics\":{{{}}},", uns.join(","), stats.join(","));
        let _ = write!(o, "\"crate\":{},\"roots\":{:?},\"adts\":{{", q(&name), roots);
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", q(&d.path(*k)), v)).collect();
        o.push_str(&adts.join(",\n"));
        let _ = write!(o, "}},\n\"impls\":[{}],\n\"tys\":[", impls.join(","));
        o.push_str(&d.tys.join(",\n"));
        o.push_str("],\n\"iters\":[");
        let it: Vec<String> = d.iter_next.iter().map(|(t, s)| format!("[{},{}]", t, s)).collect();
        o.push_str(&it.join(",\n"));
        o.push_str("],\n\"fns\":[");
        o.push_str(&d.fns.join(",\n"));
        o.push_str("]}\n");
        let kind = if tcx.sess.opts.test { "-test" } else { "" };
        let ctype = format!("{:?}", tcx.crate_types().first());
        let ctype = if ctype.contains("Executable") { "-bin" } else { "" };
        let p = format!("{}/{}{}{}.json", out, name, ctype, kind);
        std::fs::write(format!("{}.tmp", p), o).unwrap();
        std::fs::rename(format!("{}.tmp", p), &p).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let early = rustc_session::EarlyDiagCtxt::new(rustc_session::config::ErrorOutputType::default());
    let _ = &early;
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    let code: std::process::ExitCode = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
