//! mirdump: a rustc driver which compiles a crate normally (check) and, after
//! analysis, writes the type-checked program as JSON: MIR of every function of
//! the crate (monomorphic instances where possible), closures, the library
//! functions they reach, evaluated constants, types and ADT definitions.
//! It never runs the program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::U(x as u128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::U(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- dumper
struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<(Ty<'tcx>, usize)>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize, usize)>, // inst, env, id, depth
    depth: usize,
    max_depth: usize,
    allow: Vec<String>,
    deny: Vec<String>,
}

fn span_str(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let loc = sm.lookup_char_pos(sp.lo());
    let f = format!("{}", loc.file.name.prefer_local_unconditionally());
    J::S(format!("{}:{}", f, loc.line))
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        self.ty_queue.push_back((t, i));
        i
    }

    fn const_usize(&self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => J::U(n as u128),
            None => J::S(format!("{c:?}")),
        }
    }

    fn gen_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(u(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                let cc = self.const_usize(c);
                v.push(J::O(vec![("c", cc)]));
            }
        }
        J::A(v)
    }

    fn flush_types(&mut self) {
        while let Some((t, i)) = self.ty_queue.pop_front() {
            let j = self.ty_def(t);
            self.ty_out[i] = j;
        }
    }

    fn ty_def(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let name = with_no_trimmed_paths!(t.to_string());
        let mut o = vec![("n", s(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                o.push(("e", u(self.ty(e))));
                o.push(("len", self.const_usize(n)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("e", u(self.ty(e))));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("e", u(self.ty(e))));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("e", u(self.ty(e))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| u(self.ty(x))).collect();
                o.push(("es", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("def", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("args", self.gen_args(args)));
                self.adts.insert(def.did(), ());
                o.push(("enum", J::B(def.is_enum())));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args);
                        let ft = if t.has_param() || t.has_aliases() {
                            ft.skip_norm_wip()
                        } else {
                            match tcx.try_normalize_erasing_regions(env, ft) {
                                Ok(x) => x,
                                Err(_) => ft.skip_norm_wip(),
                            }
                        };
                        let fid = self.ty(ft);
                        fs.push(J::A(vec![s(f.name.to_string()), u(fid)]));
                    }
                    let d = if def.is_enum() {
                        let bits = def.discriminant_for_variant(tcx, vi).val;
                        J::U(bits)
                    } else {
                        J::U(0)
                    };
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", d), ("fields", J::A(fs))]));
                }
                o.push(("vs", J::A(vs)));
                if !t.has_param() && !t.has_aliases() {
                    o.push(("freeze", J::B(t.is_freeze(tcx, env))));
                }
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                o.push(("k", s("fndef")));
                let did: DefId = did.into();
                o.push(("path", s(self.path(did))));
                let r = self.resolve(did, args);
                o.push(("args", self.gen_args(args)));
                for x in r {
                    o.push(x);
                }
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                let did: DefId = did.into();
                o.push(("path", s(self.path(did))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| u(self.ty(x))).collect();
                o.push(("ups", J::A(ups)));
                let inst = Instance::new_raw(did, args);
                let cenv = if args.has_param() || args.has_aliases() {
                    TypingEnv::post_analysis(tcx, did)
                } else {
                    env
                };
                let (id, _) = self.want(inst, cenv);
                o.push(("inst", id));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn wanted_external(&self, d: DefId) -> bool {
        let p = self.path(d);
        let cname = self.tcx.crate_name(d.krate).to_string();
        if !self.allow.iter().any(|x| *x == cname) {
            return false;
        }
        !self.deny.iter().any(|x| p.contains(x.as_str()))
    }

    /// Register an instance; returns its id (or null if its body is not dumped).
    fn want(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> (J, bool) {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        let env = if !(inst.args.has_param() || inst.args.has_aliases()) {
            TypingEnv::fully_monomorphized()
        } else {
            env
        };
        if inst.args.has_aliases() {
            return (J::Null, false);
        }
        if inst.args.has_param() {
            // polymorphic bodies are dumped only under their own generic parameters
            let d = inst.def_id();
            let own = if matches!(self.tcx.def_kind(d), DefKind::Closure) {
                match *self.tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
                    ty::Closure(_, a) => self.tcx.erase_and_anonymize_regions(a),
                    _ => return (J::Null, false),
                }
            } else {
                self.tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(self.tcx, d))
            };
            if own != inst.args {
                return (J::Null, false);
            }
        }
        if let Some(i) = self.insts.get(&inst) {
            return (u(*i), true);
        }
        let did = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return (J::Null, false),
        };
        if !did.is_local() && !self.tcx.is_closure_like(did) {
            if self.depth + 1 > self.max_depth || !self.wanted_external(did) {
                return (J::Null, false);
            }
        }
        if !matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) | DefKind::Static { .. }) {
            return (J::Null, false);
        }
        if !matches!(self.tcx.def_kind(did), DefKind::Static { .. }) && !self.tcx.is_mir_available(did) {
            return (J::Null, false);
        }
        let id = self.inst_out.len();
        self.inst_out.push(J::Null);
        self.insts.insert(inst, id);
        let d = if did.is_local() { 0 } else { self.depth + 1 };
        self.queue.push_back((inst, env, id, d));
        (u(id), true)
    }

    fn resolve(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        self.resolve_in(did, args, TypingEnv::fully_monomorphized())
    }

    fn resolve_in(
        &mut self,
        did: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![];
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if let DefKind::Ctor(..) = tcx.def_kind(did) {
                o.push(("ctor", J::B(true)));
            }
            return o;
        }
        let poly = args.has_param() || args.has_aliases();
        if poly && env == TypingEnv::fully_monomorphized() {
            return o;
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let env = if poly { env } else { TypingEnv::fully_monomorphized() };
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, args) {
            let kind = match inst.def {
                InstanceKind::Item(_) => "item".to_string(),
                InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                k => {
                    let t = format!("{k:?}");
                    t
                }
            };
            o.push(("rkind", s(kind)));
            o.push(("rpath", s(self.path(inst.def_id()))));
            o.push(("rlocal", J::B(inst.def_id().is_local())));
            let (id, ok) = self.want(inst, env);
            if ok {
                o.push(("inst", id));
            }
        }
        o
    }

    // ------------------------------------------------------------ consts
    fn scalar_json(&mut self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Bool => J::O(vec![("k", s("bool")), ("v", J::B(bits != 0))]),
                    ty::Int(_) => J::O(vec![("k", s("int")), ("v", J::I(size.sign_extend(bits)))]),
                    ty::Uint(_) => J::O(vec![("k", s("int")), ("v", J::U(bits))]),
                    ty::Char => J::O(vec![("k", s("char")), ("v", J::U(bits))]),
                    ty::Float(ty::FloatTy::F64) => J::O(vec![("k", s("f64")), ("v", s(format!("{:e}", f64::from_bits(bits as u64))))]),
                    ty::Float(ty::FloatTy::F32) => J::O(vec![("k", s("f64")), ("v", s(format!("{:e}", f32::from_bits(bits as u32) as f64)))]),
                    _ => J::O(vec![("k", s("bits")), ("v", J::U(bits))]),
                }
            }
            Scalar::Ptr(..) => J::O(vec![("k", s("ptr"))]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("k", s("deep"))]);
        }
        match *t.kind() {
            ty::FnDef(..) | ty::Closure(..) => J::O(vec![("k", s("zst")), ("ty", u(self.ty(t)))]),
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => match v {
                ConstValue::Scalar(sc) => self.scalar_json(sc, t),
                ConstValue::Indirect { .. } => match v.try_to_bits_with(tcx, t) {
                    Some(sc) => self.scalar_json(sc, t),
                    None => J::O(vec![("k", s("unk"))]),
                },
                _ => J::O(vec![("k", s("unk"))]),
            },
            ty::Ref(_, e, _) => {
                if e.is_str() || matches!(e.kind(), ty::Slice(x) if *x == tcx.types.u8) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if e.is_str() {
                            return J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                        }
                        return J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::U(*x as u128)).collect()))]);
                    }
                }
                // pointer to a constant
                let (ptr, meta) = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => (Some(p), None),
                    ConstValue::Slice { alloc_id, meta } => {
                        (Some(rustc_middle::mir::interpret::Pointer::from(rustc_middle::mir::interpret::CtfeProvenance::from(alloc_id))), Some(meta))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        // read pointer out of memory
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let a = m.inner();
                            let psz = tcx.data_layout.pointer_size();
                            let r = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, psz), true);
                            match r {
                                Ok(Scalar::Ptr(p, _)) => {
                                    let meta = if matches!(e.kind(), ty::Slice(_) | ty::Str) {
                                        let r2 = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + psz, psz), false);
                                        match r2 {
                                            Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                            _ => None,
                                        }
                                    } else {
                                        None
                                    };
                                    (Some(p), meta)
                                }
                                _ => (None, None),
                            }
                        } else {
                            (None, None)
                        }
                    }
                    _ => (None, None),
                };
                if let Some(p) = ptr {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    match tcx.global_alloc(aid) {
                        GlobalAlloc::Memory(m) => {
                            match *e.kind() {
                                ty::Slice(el) => {
                                    if let Some(n) = meta {
                                        let arr = Ty::new_array(tcx, el, n);
                                        let inner = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, arr, depth + 1);
                                        return J::O(vec![("k", s("ref")), ("v", inner)]);
                                    }
                                }
                                ty::Str => {
                                    if let Some(n) = meta {
                                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            off.bytes() as usize..(off.bytes() + n) as usize,
                                        );
                                        return J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                                    }
                                }
                                _ => {
                                    if e.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                        let inner = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, e, depth + 1);
                                        return J::O(vec![("k", s("ref")), ("v", inner)]);
                                    }
                                }
                            }
                        }
                        GlobalAlloc::Static(d) => {
                            return J::O(vec![("k", s("static")), ("path", s(self.path(d)))]);
                        }
                        _ => {}
                    }
                }
                J::O(vec![("k", s("unk")), ("ty", u(self.ty(t)))])
            }
            ty::Tuple(ts) if ts.is_empty() => J::O(vec![("k", s("tuple")), ("es", J::A(vec![]))]),
            ty::Array(..) | ty::Tuple(..) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).map_or(true, |x| x > 4096) {
                        return J::O(vec![("k", s("unk"))]);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let es: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        J::O(vec![("k", s(if t.is_array() { "array" } else { "tuple" })), ("es", J::A(es))])
                    }
                    None => J::O(vec![("k", s("unk"))]),
                }
            }
            ty::Adt(def, _) if !def.is_union() => {
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        let es: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        J::O(vec![("k", s("adt")), ("ty", u(self.ty(t))), ("variant", u(vi)), ("es", J::A(es))])
                    }
                    None => J::O(vec![("k", s("unk")), ("ty", u(self.ty(t)))]),
                }
            }
            _ => J::O(vec![("k", s("unk")), ("ty", u(self.ty(t)))]),
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = *t.kind() {
            let did: DefId = did.into();
            let args = args.skip_binder();
            let mut o = vec![("k", s("fn")), ("path", s(self.path(did)))];
            o.push(("ty", u(self.ty(t))));
            o.push(("args", self.gen_args(args)));
            for x in self.resolve_in(did, args, env) {
                o.push(x);
            }
            if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("trait", s(self.path(tr))));
            }
            return J::O(o);
        }
        let mut name = None;
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            name = Some((self.path(uv.def), uv.promoted.is_some()));
        }
        let mut env = env;
        let mut c = *c;
        if let mir::Const::Unevaluated(uv, ut) = c.const_ {
            // a promoted constant that does not depend on the generic parameters around it
            if let Some(p) = uv.promoted {
                if uv.args.has_param()
                    && !t.has_param()
                    && uv.args.consts().next().is_none()
                    && !tcx.promoted_mir(uv.def)[p].has_param()
                {
                    let args = tcx.mk_args_from_iter(uv.args.iter().map(|a| match a.kind() {
                        ty::GenericArgKind::Type(x) if x.has_param() => tcx.types.unit.into(),
                        _ => a,
                    }));
                    c.const_ = mir::Const::Unevaluated(mir::UnevaluatedConst { args, ..uv }, ut);
                    env = TypingEnv::fully_monomorphized();
                }
            }
        }
        let c = &c;
        if c.const_.has_param() || t.has_param() {
            return J::O(vec![("k", s("unk")), ("dbg", s(format!("{:?}", c.const_)))]);
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                if let (J::O(mut o), Some((n, p))) = (j.clone(), name) {
                    if !p {
                        o.push(("name", s(n)));
                    }
                    return J::O(o);
                }
                j
            }
            Err(_) => J::O(vec![("k", s("unk")), ("dbg", s(format!("{:?}", c.const_)))]),
        }
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        for e in p.projection.iter() {
            use mir::ProjectionElem as P;
            v.push(match e {
                P::Deref => s("*"),
                P::Field(f, t) => J::O(vec![("f", u(f.as_usize())), ("t", u(self.ty(t)))]),
                P::Index(l) => J::O(vec![("i", u(l.as_usize()))]),
                P::ConstantIndex { offset, min_length, from_end } => J::O(vec![
                    ("ci", J::U(offset as u128)),
                    ("min", J::U(min_length as u128)),
                    ("end", J::B(from_end)),
                ]),
                P::Subslice { from, to, from_end } => {
                    J::O(vec![("sub", J::U(from as u128)), ("to", J::U(to as u128)), ("end", J::B(from_end))])
                }
                P::Downcast(_, vi) => J::O(vec![("v", u(vi.as_usize()))]),
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("c", self.constant(c, env))]),
            Operand::RuntimeChecks(_) => J::O(vec![("c", J::O(vec![("k", s("bool")), ("v", J::B(false))]))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("r", s("use")), ("o", self.operand(o, env))]),
            Rvalue::Repeat(o, n) => {
                let n = self.const_usize(*n);
                J::O(vec![("r", s("repeat")), ("o", self.operand(o, env)), ("n", n)])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::O(vec![("r", s("ref")), ("mut", J::B(m)), ("p", self.place(p))])
            }
            Rvalue::RawPtr(_, p) => J::O(vec![("r", s("ref")), ("raw", J::B(true)), ("p", self.place(p))]),
            Rvalue::Reborrow(_, _, p) => J::O(vec![("r", s("use")), ("o", J::O(vec![("cp", self.place(p))]))]),
            Rvalue::CopyForDeref(p) => J::O(vec![("r", s("use")), ("o", J::O(vec![("cp", self.place(p))]))]),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{k:?}");
                J::O(vec![("r", s("cast")), ("kind", s(kk)), ("o", self.operand(o, env)), ("t", u(self.ty(*t)))])
            }
            Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{b:?}"))),
                ("a", self.operand(&ops.0, env)),
                ("b", self.operand(&ops.1, env)),
            ]),
            Rvalue::UnaryOp(x, o) => {
                J::O(vec![("r", s("un")), ("op", s(format!("{x:?}"))), ("o", self.operand(o, env))])
            }
            Rvalue::Discriminant(p) => J::O(vec![("r", s("discr")), ("p", self.place(p))]),
            Rvalue::Aggregate(k, ops) => {
                let es: Vec<J> = ops.iter().map(|o| self.operand(o, env)).collect();
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("k", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    mir::AggregateKind::Adt(d, v, args, _, f) => {
                        o.push(("k", s("adt")));
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        o.push(("ty", u(self.ty(t))));
                        o.push(("variant", u(v.as_usize())));
                        if let Some(f) = f {
                            o.push(("union_field", u(f.as_usize())));
                        }
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        o.push(("k", s("closure")));
                        let t = Ty::new_closure(self.tcx, (*d).try_into().unwrap(), args);
                        o.push(("ty", u(self.ty(t))));
                    }
                    _ => o.push(("k", s("other"))),
                }
                o.push(("es", J::A(es)));
                J::O(o)
            }
            other => J::O(vec![("r", s("unk")), ("dbg", s(format!("{other:?}")))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let body = tcx.instance_mir(inst.def);
        let poly = inst.args.has_param() || inst.args.has_aliases();
        let body: mir::Body<'tcx> = if poly {
            body.clone()
        } else {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            ) {
                Ok(b) => b,
                Err(_) => body.clone(),
            }
        };
        let mut o = vec![("path", s(self.path(did)))];
        let name = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, inst.args));
        o.push(("name", s(name)));
        o.push(("local", J::B(did.is_local())));
        o.push(("poly", J::B(poly)));
        o.push(("args", self.gen_args(inst.args)));
        o.push(("kind", s(format!("{:?}", tcx.def_kind(did)))));
        o.push(("span", span_str(tcx, tcx.def_span(did))));
        let mut parent = None;
        let mut cur = did;
        if matches!(tcx.def_kind(did), DefKind::Closure) {
            cur = tcx.typeck_root_def_id(did);
            parent = Some(self.path(cur));
        }
        if let Some(p) = parent {
            o.push(("parent", s(p)));
        }
        if let Some(imp) = tcx.impl_of_assoc(cur) {
            o.push(("impl_self", {
                let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                s(with_no_trimmed_paths!(t.to_string()))
            }));
            if tcx.impl_opt_trait_id(imp).is_some() {
                let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(with_no_trimmed_paths!(tr.to_string()))));
            }
            o.push(("derived", J::B(tcx.is_builtin_derived(imp) || tcx.is_automatically_derived(imp))));
        }
        o.push(("argc", u(body.arg_count)));
        let locals: Vec<J> = body.local_decls.iter().map(|d| u(self.ty(d.ty))).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![u(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        o.push(("names", J::A(names)));
        if body.spread_arg.is_some() {
            o.push(("spread", u(body.spread_arg.unwrap().as_usize())));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, env);
                        st.push(J::A(vec![pj, rj, span_str(tcx, x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![
                            pj,
                            J::O(vec![("r", s("setdiscr")), ("v", u(variant_index.as_usize()))]),
                            span_str(tcx, x.source_info.span),
                        ]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("t", s("goto")), ("to", u(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), u(b.as_usize())])).collect();
                    J::O(vec![
                        ("t", s("switch")),
                        ("o", self.operand(discr, env)),
                        ("cases", J::A(v)),
                        ("else", u(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable"))]),
                TerminatorKind::Drop { target, place, .. } => {
                    J::O(vec![("t", s("drop")), ("p", self.place(place)), ("to", u(target.as_usize()))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let d = self.place(destination);
                    J::O(vec![
                        ("t", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("d", d),
                        ("to", target.map_or(J::Null, |x| u(x.as_usize()))),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    J::O(vec![
                        ("t", s("assert")),
                        ("o", self.operand(cond, env)),
                        ("exp", J::B(*expected)),
                        ("msg", s(m.chars().take(80).collect::<String>())),
                        ("to", u(target.as_usize())),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", u(real_target.as_usize()))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", u(real_target.as_usize()))])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("resume"))]),
                other => J::O(vec![("t", s("unk")), ("dbg", s(format!("{other:?}")))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", span_str(tcx, term.source_info.span)),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        // roots: every local function without generic parameters
        let mut statics = vec![];
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => fns.push(did),
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let fr = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                    let ti = self.ty(t);
                    self.depth = 0;
                    let (init, _) = self.want(Instance::mono(tcx, did), TypingEnv::fully_monomorphized());
                    statics.push(J::O(vec![
                        ("ty", u(ti)),
                        ("init", init),
                        ("path", s(self.path(did))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(fr)),
                        ("span", span_str(tcx, tcx.def_span(did))),
                    ]));
                }
                // closures of initialisers
                DefKind::Closure
                    if matches!(
                        tcx.def_kind(tcx.typeck_root_def_id(did)),
                        DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }
                    ) =>
                {
                    if let ty::Closure(_, a) = *tcx.type_of(did).instantiate_identity().skip_norm_wip().kind() {
                        self.depth = 0;
                        self.want(Instance::new_raw(did, a), TypingEnv::fully_monomorphized());
                    }
                }
                _ => {}
            }
        }
        for did in &fns {
            let g = tcx.generics_of(*did);
            let env;
            let inst;
            if g.requires_monomorphization(tcx) {
                let args = ty::GenericArgs::identity_for_item(tcx, *did);
                inst = Instance::new_raw(*did, args);
                env = TypingEnv::post_analysis(tcx, *did);
            } else {
                inst = Instance::mono(tcx, *did);
                env = TypingEnv::fully_monomorphized();
            }
            self.depth = 0;
            self.want(inst, env);
        }
        // local ADTs
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                adts.push(id.to_def_id());
            }
        }
        let mut adt_ids = vec![];
        for d in adts {
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = self.ty(t);
            let vis = if tcx.visibility(d).is_public() { "pub" } else { "restricted" };
            adt_ids.push(J::O(vec![
                ("path", s(self.path(d))),
                ("ty", u(ti)),
                ("vis", s(vis)),
                ("span", span_str(tcx, tcx.def_span(d))),
            ]));
        }
        loop {
            self.flush_types();
            if let Some((inst, env, id, depth)) = self.queue.pop_front() {
                self.depth = depth;
                let b = self.body(inst, env);
                self.inst_out[id] = b;
                self.flush_types();
            } else if self.ty_queue.is_empty() {
                break;
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("statics", J::A(statics)),
            ("adts", J::A(adt_ids)),
            ("types", J::A(std::mem::take(&mut self.ty_out))),
            ("insts", J::A(std::mem::take(&mut self.inst_out))),
        ])
    }
}

trait TryBits {
    fn try_to_bits_with<'tcx>(&self, tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<Scalar>;
}
impl TryBits for ConstValue {
    fn try_to_bits_with<'tcx>(&self, tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<Scalar> {
        if let ConstValue::Indirect { alloc_id, offset } = *self {
            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                let l = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
                return m
                    .inner()
                    .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, l.size), false)
                    .ok();
            }
        }
        None
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name == "build_script_build" {
            return Compilation::Continue;
        }
        let list = |k: &str| -> Vec<String> {
            std::env::var(k).unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
        };
        let mut d = Dumper {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            ty_queue: VecDeque::new(),
            adts: HashMap::new(),
            adt_out: vec![],
            insts: HashMap::new(),
            inst_out: vec![],
            queue: VecDeque::new(),
            depth: 0,
            max_depth: std::env::var("MIRDUMP_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(4),
            allow: list("MIRDUMP_ALLOW"),
            deny: list("MIRDUMP_DENY"),
        };
        let j = d.run();
        let _ = &d.adt_out;
        let mut o = String::new();
        j.write(&mut o);
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        std::fs::write(format!("{dir}/{name}.{kind}.json"), o).expect("cannot write MIR dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let dump = std::env::var("MIRDUMP_OUT").is_ok();
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
