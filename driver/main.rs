// MIR extraction driver.
//
// Runs as RUSTC_WRAPPER.  For the crate named in OMV_CRATE it collects every
// function whose name starts with `omv_` ("entries"), walks the resolved call
// graph from there over the compiler's own (drop-elaborated, instantiated,
// normalised) MIR and writes it as JSON to OMV_OUT.  Nothing is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv, Unnormalized};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Item<'tcx> {
    Inst(Instance<'tcx>),
    Const(DefId, GenericArgsRef<'tcx>),
    Promoted(Instance<'tcx>, u32),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<(TypingEnv<'tcx>, Ty<'tcx>), usize>,
    // types that do not depend on a function of this program: by display
    tys_by_name: HashMap<String, usize>,
    ty_json: Vec<String>,
    items: HashMap<(TypingEnv<'tcx>, Item<'tcx>), usize>,
    bodies: Vec<String>,
    queue: VecDeque<(usize, TypingEnv<'tcx>, Item<'tcx>)>,
    stop: Vec<String>,
    models: HashMap<String, DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = {
            // checks inside a macro of ours are located in the macro's text
            let e = s.ctxt().outer_expn_data();
            match e.kind {
                rustc_span::ExpnKind::Macro(_, n) if n.as_str() == "check" || n.as_str() == "assume" => e.call_site,
                _ => s.source_callsite(),
            }
        };
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T) -> T {
        match self.tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                let t = self.norm(t);
                v.push(format!("{}", self.ty(t)));
            } else if let Some(c) = g.as_const() {
                v.push(self.tyconst(c));
            }
        }
        format!("[{}]", v.join(","))
    }

    // A type-level constant, as a constant operand.
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> String {
        let c = self.norm(c);
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", v);
        }
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", esc(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    let size = s.size();
                    return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", s.to_bits(size));
                }
                format!("{{\"k\":\"opaque\",\"d\":{}}}", esc(&format!("{:?}", c)))
            }
            _ => format!("{{\"k\":\"opaque\",\"d\":{}}}", esc(&with_no_trimmed_paths!(format!("{}", c)))),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(i) = self.tys.get(&(self.env, t)) {
            return *i;
        }
        let disp = with_no_trimmed_paths!(format!("{}", t));
        if !disp.contains('{') && !t.has_aliases() {
            if let Some(i) = self.tys_by_name.get(&disp) {
                self.tys.insert((self.env, t), *i);
                return *i;
            }
        }
        let id = self.ty_json.len();
        self.tys.insert((self.env, t), id);
        if !disp.contains('{') && !t.has_aliases() {
            self.tys_by_name.insert(disp.clone(), id);
        }
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let disp = esc(&disp);
        let size = match tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) => format!("{}", l.size.bytes()),
            Err(_) => "null".to_string(),
        };
        let needs_drop = t.needs_drop(tcx, self.env);
        let b = match *t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".to_string(),
            TyKind::Char => "\"k\":\"char\"".to_string(),
            TyKind::Int(_) | TyKind::Uint(_) => {
                let (bits, signed) = match t.kind() {
                    TyKind::Int(i) => (i.bit_width().unwrap_or(64), true),
                    TyKind::Uint(i) => (i.bit_width().unwrap_or(64), false),
                    _ => unreachable!(),
                };
                format!("\"k\":\"int\",\"bits\":{},\"signed\":{}", bits, signed)
            }
            TyKind::Float(_) => "\"k\":\"float\"".to_string(),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            TyKind::Alias(..) => "\"k\":\"alias\"".to_string(),
            TyKind::Slice(e) => format!("\"k\":\"slice\",\"ty\":{}", self.ty(e)),
            TyKind::Array(e, n) => {
                let e = self.ty(e);
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", e, self.tyconst(n))
            }
            TyKind::RawPtr(e, m) => format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), self.ty(e)),
            TyKind::Ref(_, e, m) => format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), self.ty(e)),
            TyKind::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":[{}]", v.join(","))
            }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let callee = self.callee(d.into(), a);
                format!("\"k\":\"fndef\",\"callee\":{}", callee)
            }
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            TyKind::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let d: DefId = d.into();
                format!("\"k\":\"closure\",\"name\":{},\"tys\":[{}]", esc(&path(tcx, d)), ups.join(","))
            }
            TyKind::Adt(def, a) => {
                let name = path(tcx, def.did());
                let args = self.args(a);
                let local = !matches!(tcx.crate_name(def.did().krate).as_str(), "core" | "alloc" | "std");
                let drop = if local && tcx.adt_destructor(def.did()).is_some() {
                    let drop_trait = tcx.lang_items().drop_trait().unwrap();
                    let m = tcx.associated_item_def_ids(drop_trait)[0];
                    let args = tcx.mk_args(&[t.into()]);
                    match Instance::try_resolve(tcx, self.env, m, args) {
                        Ok(Some(i)) => self.item(Item::Inst(i)).to_string(),
                        _ => "null".to_string(),
                    }
                } else {
                    "null".to_string()
                };
                let mut vs = vec![];
                if !def.is_union() || true {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            // sign-correct value
                            let (sz, signed) = match d.ty.kind() {
                                TyKind::Int(i) => (i.bit_width().unwrap_or(64), true),
                                TyKind::Uint(i) => (i.bit_width().unwrap_or(64), false),
                                _ => (64, false),
                            };
                            if signed && sz < 128 && (d.val >> (sz - 1)) & 1 == 1 {
                                format!("{}", d.val as i128 - (1i128 << sz))
                            } else {
                                format!("{}", d.val)
                            }
                        } else {
                            "0".to_string()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, a).skip_norm_wip();
                            let fid = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), fid));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(v.name.as_str()), esc(&disc), fs.join(",")));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"name\":{},\"args\":{},\"ak\":\"{}\",\"box\":{},\"drop\":{},\"variants\":[{}]",
                    esc(&name),
                    args,
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
                    t.is_box(),
                    drop,
                    vs.join(",")
                )
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[id] = format!("{{{},\"s\":{},\"size\":{},\"nd\":{}}}", b, disp, size, needs_drop);
        id
    }

    fn stopped(&self, p: &str) -> bool {
        self.stop.iter().any(|s| {
            if let Some(x) = s.strip_prefix('=') { p == x } else { p.contains(s.as_str()) }
        })
    }

    fn item(&mut self, it: Item<'tcx>) -> usize {
        if let Some(i) = self.items.get(&(self.env, it)) {
            return *i;
        }
        let id = self.bodies.len();
        self.bodies.push("null".to_string());
        self.items.insert((self.env, it), id);
        self.queue.push_back((id, self.env, it));
        id
    }

    fn sanitize(p: &str) -> String {
        p.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect()
    }

    // JSON describing the callee of (def, args).
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let name = path(tcx, d);
        let a = self.norm(a);
        let trait_ = tcx.trait_of_assoc(d);
        let args = self.args(a);
        let mut o = format!("\"name\":{},\"args\":{}", esc(&name), args);
        if let Some(t) = trait_ {
            let _ = write!(o, ",\"trait\":{}", esc(&path(tcx, t)));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(o, ",\"ctor\":true");
        }
        if tcx.intrinsic(d).is_some() {
            let _ = write!(o, ",\"intrinsic\":{}", esc(tcx.item_name(d).as_str()));
            return format!("{{{}}}", o);
        }
        // models by unresolved name
        if let Some(m) = self.models.get(&Self::sanitize(&name)).copied() {
            let i = self.item(Item::Inst(Instance::new_raw(m, a)));
            let _ = write!(o, ",\"b\":{},\"model\":true", i);
            return format!("{{{}}}", o);
        }
        let res = Instance::try_resolve(tcx, self.env, d, a);
        match res {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                let rname = path(tcx, rd);
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                let _ = write!(o, ",\"r\":{},\"rk\":\"{}\"", esc(&rname), kind);
                let ra = self.args(inst.args);
                let _ = write!(o, ",\"rargs\":{}", ra);
                if let InstanceKind::Item(_) = inst.def {
                    if let Some(m) = self.models.get(&Self::sanitize(&rname)).copied() {
                        let i = self.item(Item::Inst(Instance::new_raw(m, inst.args)));
                        let _ = write!(o, ",\"b\":{},\"model\":true", i);
                        return format!("{{{}}}", o);
                    }
                }
                if kind == "item" || kind == "shim" {
                    let cr = tcx.crate_name(rd.krate).to_string();
                    let is_std = matches!(cr.as_str(), "core" | "alloc" | "std");
                    // default body of iterator methods specialised inside std
                    if let Some(t) = trait_ {
                        let tn = path(tcx, t);
                        let iter_like = tn.ends_with("iter::Iterator") || tn.ends_with("iter::DoubleEndedIterator") || tn.ends_with("iter::ExactSizeIterator");
                        if iter_like && is_std && tcx.defaultness(d).has_value() && rd != d {
                            let i = self.item(Item::Inst(Instance::new_raw(d, a)));
                            let _ = write!(o, ",\"db\":{}", i);
                        }
                    }
                    let stopped = is_std && self.stopped(&rname);
                    let avail = kind == "shim" || tcx.is_mir_available(rd) ;
                    if !stopped && avail {
                        let i = self.item(Item::Inst(inst));
                        let _ = write!(o, ",\"b\":{}", i);
                    }
                }
            }
            _ => {
                let _ = write!(o, ",\"rk\":\"unresolved\"");
                // default body (for iterator methods over opaque iterators)
                if trait_.is_some() && tcx.defaultness(d).has_value() {
                    let i = self.item(Item::Inst(Instance::new_raw(d, a)));
                    let _ = write!(o, ",\"db\":{}", i);
                }
            }
        }
        format!("{{{}}}", o)
    }

    fn scalar_json(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let t = self.norm(t);
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    let sz = s.size().bits();
                    if let TyKind::Int(_) = t.kind() {
                        if sz < 128 && (bits >> (sz - 1)) & 1 == 1 {
                            return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", bits as i128 - (1i128 << sz));
                        }
                        return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", bits as i128);
                    }
                    return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", bits);
                }
                "{\"k\":\"opaque\",\"d\":\"scalar\"}".to_string()
            }
            TyKind::FnDef(..) => "{\"k\":\"zst\"}".to_string(),
            TyKind::Ref(_, inner, _) => {
                if inner.is_str() {
                    return "{\"k\":\"strref\"}".to_string();
                }
                if t.has_param() { return "{\"k\":\"opaque\",\"d\":\"ref\"}".to_string(); }
                let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{}", Const::Val(v, t)))).unwrap_or_default();
                format!("{{\"k\":\"refval\",\"d\":{}}}", esc(&g))
            }
            TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..) => {
                if let ConstValue::ZeroSized = v {
                    return "{\"k\":\"zst\"}".to_string();
                }
                if t.has_param() {
                    // the null niche of an optional reference
                    if let TyKind::Adt(a, ga) = t.kind() {
                        if path(tcx, a.did()) == "std::option::Option" && ga.type_at(0).is_ref() {
                            if let Some(s) = v.try_to_scalar_int() {
                                if s.is_null() {
                                    return "{\"k\":\"agg\",\"variant\":0,\"fields\":[]}".to_string();
                                }
                            }
                        }
                    }
                    return "{\"k\":\"opaque\",\"d\":\"generic aggregate\"}".to_string();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<String> = d.fields.iter().map(|(v, t)| {
                            let j = self.scalar_json(*v, *t);
                            let tid = self.ty(*t);
                            format!("[{},{}]", j, tid)
                        }).collect();
                        format!("{{\"k\":\"agg\",\"variant\":{},\"fields\":[{}]}}", d.variant.map(|v| v.as_u32() as i64).unwrap_or(0), fs.join(","))
                    }
                    None => "{\"k\":\"opaque\",\"d\":\"aggregate\"}".to_string(),
                }
            }
            _ => {
                if let ConstValue::ZeroSized = v {
                    return "{\"k\":\"zst\"}".to_string();
                }
                "{\"k\":\"opaque\",\"d\":\"value\"}".to_string()
            }
        }
    }

    fn konst(&mut self, inst: Option<Instance<'tcx>>, c: Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let j = match c {
            Const::Ty(_, c) => self.tyconst(c),
            Const::Val(v, t) => self.scalar_json(v, t),
            Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    let _ = inst;
                    let pi = Instance::new_raw(u.def, u.args);
                    let b = self.item(Item::Promoted(pi, p.as_u32()));
                    format!("{{\"k\":\"promoted\",\"b\":{}}}", b)
                } else {
                    let args = self.norm(u.args);
                    let name = path(tcx, u.def);
                    let res = Instance::try_resolve(tcx, self.env, u.def, args);
                    match res {
                        Ok(Some(i)) => {
                            let generic = i.args.has_param() || i.args.has_aliases();
                            let is_local_like = !matches!(tcx.crate_name(i.def_id().krate).as_str(), "core" | "alloc" | "std");
                            let mut done = None;
                            if !generic {
                                let uu = mir::UnevaluatedConst { def: i.def_id(), args: i.args, promoted: None };
                                if !is_local_like || is_prim(t) {
                                    match tcx.const_eval_resolve(self.env, uu, rustc_span::DUMMY_SP) {
                                        Ok(v) => done = Some(self.scalar_json(v, t)),
                                        Err(_) => done = Some("{\"k\":\"const_error\"}".to_string()),
                                    }
                                }
                            }
                            match done {
                                Some(d) if !d.contains("\"opaque\"") => d.replacen("{", &format!("{{\"cname\":{},", esc(&path(tcx, i.def_id()))), 1),
                                _ => {
                                    let b = self.item(Item::Const(i.def_id(), i.args));
                                    format!("{{\"k\":\"body\",\"b\":{},\"name\":{}}}", b, esc(&path(tcx, i.def_id())))
                                }
                            }
                        }
                        _ => {
                            let a = self.args(args);
                            format!("{{\"k\":\"traitconst\",\"name\":{},\"args\":{}}}", esc(&name), a)
                        }
                    }
                }
            }
        };
        j.replacen("{", &format!("{{\"ty\":{},", tid), 1)
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_u32(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_u32()),
                other => format!("[\"x\",{}]", esc(&format!("{:?}", other))),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn operand(&mut self, inst: Option<Instance<'tcx>>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(inst, c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, inst: Option<Instance<'tcx>>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(inst, o)),
            Rvalue::Repeat(o, n) => { let o = self.operand(inst, o); format!("[\"repeat\",{},{}]", o, self.tyconst(*n)) }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(*p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(*p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(inst, o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(inst, &ab.0);
                let b = self.operand(inst, &ab.1);
                format!("[\"bin\",\"{:?}\",{},{}]", op, a, b)
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(inst, a)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(inst, o)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|f| self.operand(inst, f)).collect();
                let k = match &**k {
                    mir::AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    mir::AggregateKind::Adt(_, vi, _, _, af) => format!("[\"adt\",{},{}]", vi.as_u32(), af.map(|f| f.as_u32() as i64).unwrap_or(-1)),
                    mir::AggregateKind::Closure(..) => "[\"closure\"]".to_string(),
                    mir::AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
        }
    }

    fn body(&mut self, id: usize, it: Item<'tcx>) {
        let tcx = self.tcx;
        let (body, name, inst, kind): (mir::Body<'tcx>, String, Option<Instance<'tcx>>, &str) = match it {
            Item::Inst(i) => {
                let b = tcx.instance_mir(i.def).clone();
                let r = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b));
                match r {
                    Ok(b) => (b, path(tcx, i.def_id()), Some(i), if matches!(i.def, InstanceKind::Shim(_)) { "shim" } else { "fn" }),
                    Err(_) => { self.bodies[id] = format!("{{\"name\":{},\"error\":true}}", esc(&path(tcx, i.def_id()))); return; }
                }
            }
            Item::Const(d, a) => {
                let b = tcx.mir_for_ctfe(d).clone();
                let i = Instance::new_raw(d, a);
                match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b)) {
                    Ok(b) => (b, path(tcx, d), Some(i), "const"),
                    Err(_) => { self.bodies[id] = "{\"error\":true}".into(); return; }
                }
            }
            Item::Promoted(i, p) => {
                let ps = tcx.promoted_mir(i.def_id());
                let b = ps[mir::Promoted::from_u32(p)].clone();
                match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b)) {
                    Ok(b) => (b, format!("{}::promoted", path(tcx, i.def_id())), Some(i), "promoted"),
                    Err(_) => { self.bodies[id] = "{\"error\":true}".into(); return; }
                }
            }
        };
        let mut o = String::new();
        let did = inst.unwrap().def_id();
        let _ = write!(o, "{{\"name\":{},\"kind\":\"{}\",\"crate\":{},\"span\":{}", esc(&name), kind, esc(tcx.crate_name(did.krate).as_str()), esc(&self.span(body.span)));
        let a = self.args(inst.unwrap().args);
        let _ = write!(o, ",\"args\":{}", a);
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        if let Some(sp) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sp.as_u32());
        }
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}]", locals.join(","));
        let mut req = vec![];
        if let Some(rc) = body.required_consts.as_ref() {
            for c in rc.iter() {
                req.push(self.konst(inst, c.const_));
            }
        }
        let _ = write!(o, ",\"required\":[{}]", req.join(","));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(x.0);
                        let r = self.rvalue(inst, &x.1);
                        ss.push(format!("[\"a\",{},{},{}]", p, r, esc(&line)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(**place);
                        ss.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(op) => { let op = self.operand(inst, op); ss.push(format!("[\"assume\",{}]", op)); }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(inst, &c.src); let b = self.operand(inst, &c.dst); let n = self.operand(inst, &c.count);
                            ss.push(format!("[\"copy_nonoverlapping\",{},{},{}]", a, b, n));
                        }
                    },
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = esc(&self.span(term.source_info.span));
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => format!("{}", b.as_u32()),
                mir::UnwindAction::Continue => "-1".to_string(),
                mir::UnwindAction::Unreachable => "-2".to_string(),
                mir::UnwindAction::Terminate(_) => "-3".to_string(),
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(inst, discr);
                    format!("[\"switch\",{},[{}],{},{}]", d, ts.join(","), targets.otherwise().as_u32(), dt)
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(*place);
                    format!("[\"drop\",{},{},{},{},{}]", p, target.as_u32(), uw(unwind), pt, line)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let ft = self.norm(ft);
                    let callee = match *ft.kind() {
                        TyKind::FnDef(d, a) => {
                            let a = a.skip_binder();
                            self.callee(d.into(), a)
                        }
                        _ => { let f = self.operand(inst, func); format!("{{\"name\":\"<fnptr>\",\"args\":[],\"op\":{}}}", f) }
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(inst, &a.node)).collect();
                    let d = self.place(*destination);
                    format!("[\"call\",{},[{}],{},{},{},{}]", callee, av.join(","), d, target.map(|t| t.as_u32() as i64).unwrap_or(-1), uw(unwind), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(inst, cond);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        other => format!("{:?}", other).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", c, expected, esc(&m), target.as_u32(), uw(unwind), line)
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            bbs.push(format!("[[{}],{},{}]", ss.join(","), t, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":[{}]}}", bbs.join(",\n  "));
        self.bodies[id] = o;
    }
}

fn is_prim(t: Ty<'_>) -> bool {
    matches!(t.kind(), TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_)) || t.is_unit()
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let stop: Vec<String> = std::env::var("OMV_STOP")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect();
        let mut models = HashMap::new();
        let mut entries = vec![];
        for did in tcx.hir_body_owners() {
            let d = did.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let name = tcx.item_name(d).to_string();
            if let Some(rest) = name.strip_prefix("model_") {
                models.insert(rest.to_string(), d);
            } else if name.starts_with("omv_") {
                entries.push(d);
            }
        }
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            tys_by_name: HashMap::new(),
            ty_json: vec![],
            items: HashMap::new(),
            bodies: vec![],
            queue: VecDeque::new(),
            stop,
            models,
        };
        let mut roots = vec![];
        for d in entries {
            cx.env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let id = cx.item(Item::Inst(inst));
            roots.push(format!("[{},{}]", esc(&path(tcx, d)), id));
        }
        while let Some((id, env, it)) = cx.queue.pop_front() {
            cx.env = env;
            cx.body(id, it);
        }
        // public ADTs of the subject crates are reached through the entries
        let out = std::env::var("OMV_OUT").unwrap();
        let s = format!("{{\"roots\":[{}],\n\"tys\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n", roots.join(","), cx.ty_json.join(",\n"), cx.bodies.join(",\n"));
        std::fs::write(out, s).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc.
    let rustc = args.remove(1);
    let want = std::env::var("OMV_CRATE").unwrap_or_default();
    let mut is = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            if let Some(n) = it.next() {
                is = *n == want;
            }
        }
    }
    if is {
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(rustc).args(&args[1..]).exec();
        panic!("{}", e);
    }
}
