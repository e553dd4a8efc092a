//! mirdump: a rustc wrapper that writes the resolved, monomorphised program
//! of the crate under analysis as JSON. It contains no rule: it only exports
//! the compiler's own intermediate representation.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. When MIRDUMP_CRATE names the crate being
//! compiled and MIRDUMP_OUT a file, the dump is written there.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod json;
use json::J;

use rustc_hir as hir;
use rustc_hir::intravisit;
use rustc_middle::ty::{self as ity, TyCtxt};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeSet, HashMap, VecDeque};
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_public_bridge::IndexedVal;
use std::ops::ControlFlow;

#[allow(unused_imports)]
use rustc_middle as _rm;
fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // args[0] is the path of the real rustc (cargo wrapper protocol)
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if crate_name != want || is_test || args.iter().any(|a| a == "-vV") {
        let status = std::process::Command::new(&args[0])
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push(format!("-Cdebug-assertions={}", if std::env::var("MIRDUMP_DEBUG").is_ok() { "on" } else { "off" }));
    args.push("-Cdebuginfo=0".into());
    args.push("-Zub-checks=no".into());
    args.push("-Awarnings".into());
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let r = run_with_tcx!(&args, |tcx| {
        let j = dump(tcx);
        std::fs::write(&out, j.to_string()).expect("write dump");
        ControlFlow::<()>::Continue(())
    });
    if let Err(e) = r {
        eprintln!("mirdump: compilation failed: {e:?}");
        std::process::exit(1);
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<J>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Option<J>>,
    queue: VecDeque<Instance>,
    seen_defs: BTreeSet<String>,
    local: Crate,
    ext_cache: HashMap<Instance, Vec<Instance>>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    match x.try_into() {
        Ok(v) => J::N(v),
        Err(_) => J::Null,
    }
}
fn arr(v: Vec<J>) -> J {
    J::A(v)
}
macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) } }

impl<'tcx> Dumper<'tcx> {
    fn is_local(&self, i: &Instance) -> bool {
        i.def.krate() == self.local
    }

    fn span(&self, sp: &rustc_public::ty::Span) -> J {
        let l = sp.get_lines();
        // resolve macro expansions to the outermost call site
        let isp = rustc_internal::internal(self.tcx, *sp);
        let root = isp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(root.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let _ = l;
        arr(vec![s(file), n(lo.line as i64)])
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(J::Null);
        let it = rustc_internal::internal(self.tcx, t);
        let text = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{it}"));
        let mut o = vec![("s", s(text))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(i.num_bytes() as i64 * 8)));
                    o.push(("signed", J::B(true)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(i.num_bytes() as i64 * 8)));
                    o.push(("signed", J::B(false)));
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    o.push(("k", s("slice")));
                    o.push(("elem", n(e as i64)));
                }
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    o.push(("k", s("array")));
                    o.push(("elem", n(e as i64)));
                    o.push(("len", c.eval_target_usize().map(|x| n(x)).unwrap_or(J::Null)));
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    o.push(("k", s("ref")));
                    o.push(("elem", n(e as i64)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    o.push(("k", s("ptr")));
                    o.push(("elem", n(e as i64)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Tuple(v) => {
                    let v = v.into_iter().map(|t| n(self.ty(t) as i64)).collect();
                    o.push(("k", s("tuple")));
                    o.push(("args", arr(v)));
                }
                RigidTy::Adt(d, args) => {
                    o.push(("k", s("adt")));
                    o.push(("adt", s(d.name())));
                    o.push(("local", J::B(d.krate() == self.local)));
                    o.push(("kind", s(format!("{:?}", d.kind()))));
                    let av = self.args(&args);
                    o.push(("args", av));
                    let mut vs = vec![];
                    let deep = d.krate() == self.local || d.kind() == AdtKind::Enum;
                    for v in d.variants() {
                        let fs: Vec<J> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let mut fo = vec![("name", s(f.name.clone()))];
                                if deep {
                                    let ft = f.ty_with_args(&args);
                                    fo.push(("ty", n(self.ty(ft) as i64)));
                                }
                                J::O(fo)
                            })
                            .collect();
                        let disc = if d.kind() == AdtKind::Enum {
                            n(d.discriminant_for_variant(v.idx()).val as i128)
                        } else {
                            n(0)
                        };
                        vs.push(obj! {"name" => s(v.name()), "discr" => disc, "fields" => arr(fs)});
                    }
                    o.push(("variants", arr(vs)));
                }
                RigidTy::FnDef(d, args) => {
                    o.push(("k", s("fndef")));
                    o.push(("def", s(d.name())));
                    if let Ok(i) = Instance::resolve(d, &args) {
                        let c = self.callee(i, d, &args);
                        o.push(("fn", c));
                    }
                }
                RigidTy::Closure(d, args) => {
                    o.push(("k", s("closure")));
                    o.push(("def", s(d.name())));
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                        // the direct body, not the FnOnce shim
                        let inst = self.closure_instance(t).unwrap_or(i);
                        let c = self.inst_id(inst);
                        o.push(("body", n(c as i64)));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Never => o.push(("k", s("never"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("alias"))),
        }
        self.ty_json[id] = J::O(o);
        id
    }

    fn closure_instance(&self, t: Ty) -> Option<Instance> {
        let it = rustc_internal::internal(self.tcx, t);
        if let ity::TyKind::Closure(d, args) = it.kind() {
            let i = ity::Instance::new_raw(*d, args);
            return Some(rustc_internal::stable(i));
        }
        None
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(n(self.ty(*t) as i64)),
                GenericArgKind::Const(c) => {
                    v.push(obj! {"const" => c.eval_target_usize().map(|x| n(x)).unwrap_or(J::Null)})
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn inst_id(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.inst_ids.insert(i, id);
        self.insts.push(None);
        self.queue.push_back(i);
        id
    }

    /// A resolved callee. `d`/`args`: as written (the trait method for trait calls).
    fn callee(&mut self, i: Instance, d: FnDef, args: &GenericArgs) -> J {
        let mut o = vec![];
        o.push(("path", s(i.def.name())));
        o.push(("name", s(self.full_name(&i))));
        o.push(("via", s(d.name())));
        let av = self.args(args);
        o.push(("args", av));
        let iav = self.args(&i.args());
        o.push(("iargs", iav));
        o.push(("crate", s(i.def.krate().name.to_string())));
        match i.kind {
            InstanceKind::Virtual { .. } => o.push(("virtual", J::B(true))),
            InstanceKind::Intrinsic => o.push(("intrinsic", J::B(true))),
            _ => {}
        }
        if (self.is_local(&i) || is_combinator(&i.def.name())) && i.has_body() {
            let shim = matches!(i.kind, InstanceKind::Shim);
            let id = self.inst_id(i);
            o.push(("id", n(id as i64)));
            o.push(("shim", J::B(shim)));
        } else {
            let reach = self.reach_local(i, 0, &mut BTreeSet::new());
            let ids: BTreeSet<usize> = reach.into_iter().map(|r| self.inst_id(r)).collect();
            o.push((
                "reach",
                arr(ids.into_iter().map(|x| n(x as i64)).collect()),
            ));
        }
        J::O(o)
    }

    fn full_name(&self, i: &Instance) -> String {
        let ii = rustc_internal::internal(self.tcx, *i);
        rustc_middle::ty::print::with_no_trimmed_paths!(self
            .tcx
            .def_path_str_with_args(ii.def_id(), ii.args))
    }

    /// Local instances an external generic instance can call back into.
    fn reach_local(
        &mut self,
        i: Instance,
        depth: usize,
        stack: &mut BTreeSet<String>,
    ) -> Vec<Instance> {
        if let Some(v) = self.ext_cache.get(&i) {
            return v.clone();
        }
        let ii = rustc_internal::internal(self.tcx, i);
        // only instances whose generic arguments mention the local crate can call back
        let text = format!("{:?}", ii.args);
        let lname = self.local.name.to_string();
        if !text.contains(&lname) && !text.contains("DefId(0:") {
            return vec![];
        }
        let mut out: Vec<Instance> = vec![];
        let key = i.mangled_name();
        if depth > 40 || !stack.insert(key.clone()) {
            return vec![];
        }
        let mut add = |x: Instance, out: &mut Vec<Instance>| {
            if !out.contains(&x) {
                out.push(x)
            }
        };
        if i.has_body() && !matches!(i.kind, InstanceKind::Virtual { .. }) {
            if let Some(b) = i.body() {
                for bb in &b.blocks {
                    let f = match &bb.terminator.kind {
                        TerminatorKind::Call { func, .. } => func.ty(b.locals()).ok(),
                        TerminatorKind::Drop { .. } => None,
                        _ => None,
                    };
                    let Some(ft) = f else { continue };
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
                        if let Ok(c) = Instance::resolve(d, &a) {
                            if matches!(c.kind, InstanceKind::Virtual { .. }) {
                                continue;
                            }
                            if self.is_local(&c) {
                                if c.has_body() {
                                    add(c, &mut out);
                                }
                            } else {
                                for r in self.reach_local(c, depth + 1, stack) {
                                    add(r, &mut out);
                                }
                            }
                        }
                    }
                }
            }
        }
        stack.remove(&key);
        if depth == 0 {
            self.ext_cache.insert(i, out.clone());
        }
        out
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local as i64)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => {
                    obj! {"f" => n(*i as i64), "ty" => n(self.ty(*t) as i64)}
                }
                ProjectionElem::Index(l) => obj! {"ix" => n(*l as i64)},
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    obj! {"ci" => n(*offset as i64), "min" => n(*min_length as i64), "end" => J::B(*from_end)}
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"sub" => arr(vec![n(*from as i64), n(*to as i64), J::B(*from_end)])}
                }
                ProjectionElem::Downcast(v) => {
                    let v: VariantIdx = *v;
                    obj! {"v" => n(v.to_index() as i64)}
                }
                _ => s("?"),
            });
        }
        arr(v)
    }

    /// a constant allocation with what it points to
    fn ralloc(&self, a: &rustc_public::ty::Allocation, depth: usize) -> J {
        use rustc_public::mir::alloc::GlobalAlloc;
        let b: Vec<J> = if a.bytes.len() > 4096 { vec![] } else { a.bytes.iter().map(|x| n(x.unwrap_or(0) as i64)).collect() };
        let mut ps = vec![];
        for (off, p) in &a.provenance.ptrs {
            let tgt = match GlobalAlloc::from(p.0) {
                GlobalAlloc::Function(i) => obj! {"fn" => s(i.name())},
                GlobalAlloc::Static(d) => obj! {"static" => s(d.name())},
                GlobalAlloc::Memory(m) if depth > 0 => obj! {"m" => self.ralloc(&m, depth - 1)},
                _ => s("?"),
            };
            ps.push(arr(vec![n(*off as i64), tgt]));
        }
        obj! {"b" => J::A(b), "p" => J::A(ps)}
    }

    fn konst(&mut self, c: &ConstOperand) -> J {
        let m = &c.const_;
        let t = m.ty();
        let tid = self.ty(t);
        let mut o = vec![("ty", n(tid as i64))];
        // the path of a named constant, if any
        if let ConstantKind::Unevaluated(u) = m.kind() {
            o.push(("path", s(u.def.name())));
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p as i64)));
            }
        }
        let ic = rustc_internal::internal(self.tcx, m.clone());
        let tenv = ity::TypingEnv::fully_monomorphized();
        let it = rustc_internal::internal(self.tcx, t);
        if it.is_integral() || it.is_bool() || it.is_char() {
            if let Some(b) = ic.try_eval_bits(self.tcx, tenv) {
                let v: i128 = if it.is_signed() {
                    let size = self
                        .tcx
                        .layout_of(tenv.as_query_input(it))
                        .map(|l| l.size)
                        .unwrap();
                    size.sign_extend(b) as i128
                } else {
                    b as i128
                };
                o.push(("v", J::N(v)));
            }
        } else if let Ok(val) = ic.eval(self.tcx, tenv, rustc_span::DUMMY_SP) {
            if it.is_adt() || it.is_array() || matches!(it.kind(), ity::TyKind::Tuple(l) if !l.is_empty()) {
                use rustc_middle::mir::ConstValue;
                let size = self.tcx.layout_of(tenv.as_query_input(it)).map(|l| l.size).ok();
                let mem: Option<Vec<u8>> = match (val, size) {
                    (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)), Some(sz)) => {
                        let b = i.to_bits_unchecked();
                        Some(b.to_le_bytes()[..sz.bytes() as usize].to_vec())
                    }
                    (ConstValue::Indirect { alloc_id, offset }, Some(sz)) if sz.bytes() <= 1024 => {
                        match self.tcx.global_alloc(alloc_id) {
                            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                                let a = a.inner();
                                let r = offset.bytes() as usize..(offset + sz).bytes() as usize;
                                if a.provenance().ptrs().is_empty() {
                                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(m) = mem {
                    if !m.is_empty() {
                        o.push(("mem", arr(m.iter().map(|x| n(*x as i64)).collect())));
                    }
                }
            }
            if let ity::TyKind::Ref(_, inner, _) = it.kind() {
                if inner.is_str() {
                    if let Some(bytes) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        o.push(("str", s(String::from_utf8_lossy(bytes).to_string())));
                    }
                } else {
                    // raw bytes of a reference to a static/promoted allocation
                    let _ = inner;
                }
            }
        }
        if let ConstantKind::Allocated(a) = m.kind() {
            if !a.provenance.ptrs.is_empty() && !o.iter().any(|(k, _)| *k == "str") {
                o.push(("ralloc", self.ralloc(a, 5)));
            }
        }
        if let TyKind::RigidTy(RigidTy::Ref(_, inner, _)) = t.kind() {
            if let ConstantKind::Allocated(a) = m.kind() {
                if let Some((_, p)) = a.provenance.ptrs.first() {
                    use rustc_public::mir::alloc::GlobalAlloc;
                    match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Static(d) => o.push(("static", s(d.name()))),
                        GlobalAlloc::Memory(al) => {
                            if let Ok(b) = al.raw_bytes() {
                                if b.len() <= 512 && al.provenance.ptrs.is_empty() {
                                    o.push((
                                        "bytes",
                                        arr(b.iter().map(|x| n(*x as i64)).collect()),
                                    ));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            let _ = inner;
        }
        J::O(vec![("const", J::O(o))])
    }

    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => obj! {"copy" => self.place(p)},
            Operand::Move(p) => obj! {"move" => self.place(p)},
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            other => obj! {"opother" => s(format!("{other:?}"))},
        }
    }

    fn ops(&mut self, v: &[Operand]) -> J {
        arr(v.iter().map(|x| self.op(x)).collect())
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, ..) => obj! {"k" => s("use"), "op" => self.op(o)},
            Rvalue::Ref(_, b, p) => {
                let m = matches!(b, BorrowKind::Mut { .. });
                obj! {"k" => s("ref"), "mut" => J::B(m), "p" => self.place(p)}
            }
            Rvalue::AddressOf(m, p) => {
                obj! {"k" => s("addr"), "mut" => J::B(!matches!(m, RawPtrKind::Const)), "p" => self.place(p)}
            }
            Rvalue::CopyForDeref(p) => {
                obj! {"k" => s("use"), "op" => obj!{"copy" => self.place(p)}}
            }
            Rvalue::Len(p) => obj! {"k" => s("len"), "p" => self.place(p)},
            Rvalue::Discriminant(p) => obj! {"k" => s("discr"), "p" => self.place(p)},
            Rvalue::Cast(k, o, t) => {
                obj! {"k" => s("cast"), "ck" => s(format!("{k:?}")), "op" => self.op(o), "ty" => n(self.ty(*t) as i64)}
            }
            Rvalue::BinaryOp(b, l, r2) => {
                obj! {"k" => s("bin"), "op" => s(format!("{b:?}")), "l" => self.op(l), "r" => self.op(r2)}
            }
            Rvalue::CheckedBinaryOp(b, l, r2) => {
                obj! {"k" => s("cbin"), "op" => s(format!("{b:?}")), "l" => self.op(l), "r" => self.op(r2)}
            }
            Rvalue::UnaryOp(u, o) => {
                obj! {"k" => s("un"), "op" => s(format!("{u:?}")), "o" => self.op(o)}
            }
            Rvalue::Repeat(o, c) => {
                obj! {"k" => s("repeat"), "op" => self.op(o), "n" => c.eval_target_usize().map(|x| n(x)).unwrap_or(J::Null)}
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", s("agg"))];
                match k {
                    AggregateKind::Array(t) => {
                        o.push(("a", s("array")));
                        o.push(("ty", n(self.ty(*t) as i64)));
                    }
                    AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        o.push(("a", s("adt")));
                        o.push(("adt", s(d.name())));
                        o.push(("variant", n(v.to_index() as i64)));
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, args.clone()));
                        o.push(("ty", n(self.ty(t) as i64)));
                        if let Some(f) = fi {
                            o.push(("union_field", n(*f as i64)));
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("a", s("closure")));
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, args.clone()));
                        o.push(("ty", n(self.ty(t) as i64)));
                    }
                    AggregateKind::RawPtr(t, _) => {
                        o.push(("a", s("rawptr")));
                        o.push(("ty", n(self.ty(*t) as i64)));
                    }
                    _ => o.push(("a", s("other"))),
                }
                o.push(("ops", self.ops(ops)));
                J::O(o)
            }
            Rvalue::ThreadLocalRef(i) => obj! {"k" => s("tls"), "def" => s(i.name())},
            #[allow(unreachable_patterns)]
            other => obj! {"k" => s("other"), "dbg" => s(format!("{other:?}"))},
        }
    }

    fn body(&mut self, i: Instance, id: usize) {
        let Some(b) = i.body() else { return };
        let locals: Vec<J> = b.locals().to_vec().iter().map(|l| n(self.ty(l.ty) as i64)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                names.push(obj! {"name" => s(v.name.to_string()), "p" => pl});
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(obj! {"k" => s("="), "p" => p, "r" => r, "sp" => self.span(&x.source_info.span)})
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(obj! {"k" => s("setdiscr"), "p" => p, "v" => n(variant_index.to_index() as i64)})
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(obj! {"k" => s("intrinsic"), "dbg" => s(format!("{i:?}")), "sp" => self.span(&x.source_info.span)})
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(obj! {"k" => s("dead"), "l" => n(*l as i64)})
                    }
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => obj! {"k" => s("goto"), "t" => n(*target as i64)},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br = targets
                        .branches()
                        .map(|(v, t)| arr(vec![n(v as i128), n(t as i64)]))
                        .collect();
                    obj! {"k" => s("switch"), "d" => d, "br" => arr(br), "else" => n(targets.otherwise() as i64)}
                }
                TerminatorKind::Resume => obj! {"k" => s("resume")},
                TerminatorKind::Abort => obj! {"k" => s("abort")},
                TerminatorKind::Return => obj! {"k" => s("return")},
                TerminatorKind::Unreachable => obj! {"k" => s("unreachable")},
                TerminatorKind::Drop { place, target, .. } => {
                    let mut dty = place.ty(b.locals()).map(|t| self.ty(t)).ok();
                    let p = self.place(place);
                    obj! {"k" => s("drop"), "p" => p, "t" => n(*target as i64), "ty" => dty.take().map(|x| n(x as i64)).unwrap_or(J::Null)}
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fop = self.op(func);
                    let a = self.ops(args);
                    let d = self.place(destination);
                    obj! {"k" => s("call"), "f" => fop, "args" => a, "dest" => d,
                    "t" => target.map(|x| n(x as i64)).unwrap_or(J::Null)}
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let (mk, mops): (String, Vec<J>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.op(len), self.op(index)])
                        }
                        AssertMessage::Overflow(b, l, r) => {
                            (format!("overflow:{b:?}"), vec![self.op(l), self.op(r)])
                        }
                        AssertMessage::OverflowNeg(o) => ("overflow:Neg".into(), vec![self.op(o)]),
                        AssertMessage::DivisionByZero(o) => ("divzero".into(), vec![self.op(o)]),
                        AssertMessage::RemainderByZero(o) => ("remzero".into(), vec![self.op(o)]),
                        other => (format!("other:{other:?}"), vec![]),
                    };
                    obj! {"k" => s("assert"), "c" => c, "exp" => J::B(*expected), "m" => s(mk), "mops" => arr(mops), "t" => n(*target as i64)}
                }
                other => obj! {"k" => s("other"), "dbg" => s(format!("{other:?}"))},
            };
            let mut t = t;
            if let J::O(v) = &mut t {
                v.push(("sp", sp));
            }
            blocks.push(obj! {"s" => arr(st), "t" => t});
        }
        let def = i.def;
        let name = self.full_name(&i);
        let iargs = self.args(&i.args());
        let idef = rustc_internal::internal(self.tcx, def.def_id());
        let parent = self.tcx.opt_parent(idef).map(|p| self.tcx.def_path_str(p)).unwrap_or_default();
        let unsafe_fn = matches!(self.tcx.def_kind(idef), hir::def::DefKind::Fn | hir::def::DefKind::AssocFn)
            && self.tcx.fn_sig(idef).skip_binder().safety().is_unsafe();
        self.seen_defs.insert(def.name());
        let sp = self.span(&b.span);
        let captures = self.captures(i);
        let j = obj! {
            "id" => n(id as i64),
            "path" => s(def.name()),
            "name" => s(name),
            "parent" => s(parent),
            "crate" => s(def.krate().name.to_string()),
            "args" => iargs,
            "kind" => s(format!("{:?}", i.kind)),
            "unsafe" => J::B(unsafe_fn),
            "argc" => n(b.arg_locals().len() as i64),
            "locals" => arr(locals),
            "names" => arr(names),
            "spread" => b.spread_arg().map(|x| n(x as i64)).unwrap_or(J::Null),
            "captures" => captures,
            "blocks" => arr(blocks),
            "sp" => sp,
        };
        self.insts[id] = Some(j);
    }

    fn captures(&self, i: Instance) -> J {
        let ii = rustc_internal::internal(self.tcx, i);
        let did = ii.def_id();
        if !self.tcx.is_closure_like(did) {
            return J::Null;
        }
        let Some(l) = did.as_local() else { return J::Null };
        let v = self
            .tcx
            .closure_captures(l)
            .iter()
            .map(|c| s(c.to_string(self.tcx)))
            .collect();
        arr(v)
    }

    /// Generic local fns that nothing reachable instantiates: try candidate types.
    fn instantiate_unreached(&mut self) -> Vec<J> {
        let tcx = self.tcx;
        let mut missing = vec![];
        // candidates: types named in the table of already seen concrete types + fixed ones
        let mut cands: Vec<ity::Ty<'tcx>> = vec![];
        let mut push = |t: ity::Ty<'tcx>| {
            if !cands.contains(&t) {
                cands.push(t)
            }
        };
        let mut all: Vec<(Ty, usize)> = self.tys.iter().map(|(a, b)| (*a, *b)).collect();
        all.sort_by_key(|x| x.1);
        for (t, _) in &all {
            let it = rustc_internal::internal(tcx, *t);
            if let ity::TyKind::Adt(d, _) = it.kind() {
                let name = tcx.def_path_str(d.did());
                let krate = tcx.crate_name(d.did().krate).to_string();
                if d.did().is_local()
                    || krate == "cosmian_bls12_381"
                    || name.contains("Aes256GcmCrypto")
                    || name.contains("Hc128Rng")
                    || name.contains("CsRng")
                {
                    push(it);
                }
            }
        }
        push(tcx.types.i32);
        push(tcx.types.u32);
        let keys: Vec<_> = tcx
            .mir_keys(())
            .iter()
            .copied()
            .collect();
        for l in keys {
            let did = l.to_def_id();
            let dk = tcx.def_kind(did);
            if !matches!(dk, hir::def::DefKind::Fn | hir::def::DefKind::AssocFn) {
                continue;
            }
            let name = tcx.def_path_str(did);
            let sname = rustc_internal::stable(did);
            let pname = {
                let d: DefId = sname;
                d.name()
            };
            let g = tcx.generics_of(did);
            if !g.requires_monomorphization(tcx) {
                continue;
            }
            if self.seen_defs.contains(&pname) {
                continue;
            }
            if tcx.hir_maybe_body_owned_by(l).is_none() {
                continue;
            }
            // enumerate
            let ident = ity::GenericArgs::identity_for_item(tcx, did);
            let mut slots: Vec<Vec<ity::GenericArg<'tcx>>> = vec![];
            for a in ident.iter() {
                let k = a.kind();
                match k {
                    ity::GenericArgKind::Lifetime(_) => {
                        slots.push(vec![tcx.lifetimes.re_erased.into()])
                    }
                    ity::GenericArgKind::Type(_) => {
                        slots.push(cands.iter().map(|t| (*t).into()).collect())
                    }
                    ity::GenericArgKind::Const(_) => slots.push(vec![ity::Const::from_target_usize(
                        tcx,
                        1 << 30,
                    )
                    .into()]),
                }
            }
            let mut found = None;
            let total: usize = slots.iter().map(|x| x.len()).product();
            if total > 0 && total < 200_000 {
                'o: for k in 0..total {
                    let mut r = k;
                    let mut v = vec![];
                    for sl in &slots {
                        v.push(sl[r % sl.len()]);
                        r /= sl.len();
                    }
                    let ga = tcx.mk_args(&v);
                    if !tcx.instantiate_and_check_impossible_clauses((did, ga)) {
                        found = Some(ga);
                        break 'o;
                    }
                }
            }
            if let Some(ga) = found {
                let tenv = ity::TypingEnv::fully_monomorphized();
                match ity::Instance::try_resolve(tcx, tenv, did, ga) {
                    Ok(Some(i)) => {
                        let st: Instance = rustc_internal::stable(i);
                        if st.has_body() {
                            self.inst_id(st);
                            continue;
                        }
                    }
                    _ => {}
                }
            }
            missing.push(s(name));
        }
        missing
    }

    fn drain(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let id = self.inst_ids[&i];
            if i.has_body() {
                self.body(i, id);
            }
        }
    }
}

/// Small value combinators of the standard library whose real body is exported
/// so that it can be analysed like local code.
fn is_combinator(p: &str) -> bool {
    if p.contains("fmt") || p.contains("hash::") || p.contains("Error") {
        return false;
    }
    const PRE: &[&str] = &[
        "std::option::Option::",
        "<std::option::Option<",
        "std::result::Result::",
        "<std::result::Result<",
        "std::ops::ControlFlow::",
        "<std::ops::ControlFlow<",
        "core::bool::",
        "<T as std::convert::Into<",
        "<T as std::convert::TryInto<",
        "<T as std::convert::TryFrom<",
        "<T as std::convert::From<T>>",
        "std::convert::identity",
        "std::ops::function::impls::",
        "std::ops::FnOnce::",
        "std::ops::FnMut::",
        "std::ops::Fn::",
    ];
    if !PRE.iter().any(|x| p.starts_with(x)) {
        return false;
    }
    !(p.contains("Iter") || p.contains("as_mut") && p.contains("Pin") || p.contains("as_slice"))
}

/// The code at `sp` was written by a macro of another crate (not by hand, nor by a macro of this crate).
fn ext_macro(sp: rustc_span::Span) -> bool {
    sp.from_expansion()
        && match sp.ctxt().outer_expn_data().macro_def_id {
            Some(d) => !d.is_local(),
            None => false,
        }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, String, usize)>,
    owner: String,
}
impl<'tcx> intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            let sm = self.tcx.sess.source_map();
            let lo = sm.lookup_char_pos(b.span.source_callsite().lo());
            let from_exp = ext_macro(b.span);
            self.out.push((
                format!("{}{}", self.owner, if from_exp { " (macro)" } else { "" }),
                format!("{}", lo.file.name.prefer_local_unconditionally()),
                lo.line,
            ));
        }
        intravisit::walk_block(self, b);
    }
}

/// Literals, named fields and paths of a constant's initialiser, in source order.
struct LitVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    ck: &'tcx ity::TypeckResults<'tcx>,
    out: Vec<J>,
}
impl<'tcx> intravisit::Visitor<'tcx> for LitVisitor<'tcx> {
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        match e.kind {
            hir::ExprKind::Lit(l) => match l.node {
                rustc_ast::LitKind::Str(x, _) => self.out.push(obj! {"str" => s(x.to_string())}),
                rustc_ast::LitKind::Int(x, _) => self.out.push(obj! {"int" => J::N(x.get() as i128)}),
                rustc_ast::LitKind::Bool(x) => self.out.push(obj! {"bool" => J::B(x)}),
                _ => {}
            },
            hir::ExprKind::Path(ref q) => {
                if let Some(d) = self.ck.qpath_res(q, e.hir_id).opt_def_id() {
                    self.out.push(obj! {"path" => s(rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)))});
                }
            }
            _ => {}
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_expr_field(&mut self, f: &'tcx hir::ExprField<'tcx>) {
        self.out.push(obj! {"field" => s(f.ident.to_string())});
        intravisit::walk_expr_field(self, f);
    }
}

fn dump(tcx: TyCtxt<'_>) -> J {
    let mut d = Dumper {
        tcx,
        tys: HashMap::new(),
        ty_json: vec![],
        inst_ids: HashMap::new(),
        insts: vec![],
        queue: VecDeque::new(),
        seen_defs: BTreeSet::new(),
        local: local_crate(),
        ext_cache: HashMap::new(),
    };
    for it in all_local_items() {
        if it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            if i.has_body() {
                d.inst_id(i);
            }
        }
    }
    d.drain();
    let mut missing = d.instantiate_unreached();
    d.drain();
    // types discovered on the way may allow more
    if !missing.is_empty() {
        missing = d.instantiate_unreached();
        d.drain();
    }

    // item facts
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let dk = tcx.def_kind(did);
        use hir::def::DefKind as K;
        if matches!(
            dk,
            K::Fn | K::AssocFn | K::Struct | K::Enum | K::Static { .. } | K::Const { .. } | K::AssocConst { .. } | K::Mod | K::Trait | K::Impl { .. } | K::Field
        ) {
            let vis = match dk {
                K::Impl { .. } => "".to_string(),
                _ => format!("{:?}", tcx.visibility(did)),
            };
            let reach = tcx.effective_visibilities(()).is_reachable(id);
            let mut o = vec![
                ("path", s(rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(did)))),
                ("kind", s(format!("{dk:?}"))),
                ("vis", s(if vis == "Public" { "pub".to_string() } else { vis })),
                ("reachable", J::B(reach)),
            ];
            if matches!(dk, K::Fn | K::AssocFn) {
                let attrs = tcx.codegen_fn_attrs(did);
                o.push(("export", J::B(attrs.contains_extern_indicator())));
                let sig = tcx.fn_sig(did).skip_binder();
                o.push(("sig", s(format!("{sig}"))));
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("abi", s(format!("{:?}", sig.abi()))));
                if attrs.contains_extern_indicator() {
                    let sym = match attrs.symbol_name {
                        Some(x) => x.to_string(),
                        None => tcx.item_name(did).to_string(),
                    };
                    o.push(("symbol", s(sym)));
                }
            }
            if let K::Impl { of_trait } = dk {
                let st = tcx.type_of(did).skip_binder();
                o.push(("self", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{st}")))));
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    o.push(("trait", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path())))));
                }
            }
            if matches!(dk, K::Impl { of_trait: true }) {
                o.push(("unsafe", J::B(tcx.impl_trait_header(did).safety.is_unsafe())));
            }
            if matches!(dk, K::Trait) {
                o.push(("unsafe", J::B(tcx.trait_def(did).safety.is_unsafe())));
            }
            if matches!(dk, K::Const { .. } | K::AssocConst { .. }) && tcx.hir_maybe_body_owned_by(id).is_some() {
                let mut lv = LitVisitor { tcx, ck: tcx.typeck(id), out: vec![] };
                intravisit::Visitor::visit_expr(&mut lv, tcx.hir_body_owned_by(id).value);
                o.push(("lits", J::A(lv.out)));
            }
            if matches!(dk, K::Struct) {
                let fs = tcx.adt_def(did).non_enum_variant().fields.iter().map(|f| {
                    let v = format!("{:?}", tcx.visibility(f.did));
                    obj! {"name" => s(f.name.to_string()), "vis" => s(if v == "Public" { "pub".to_string() } else { v }),
                          "ty" => s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tcx.type_of(f.did).skip_binder())))}
                }).collect();
                o.push(("fields", J::A(fs)));
            }
            o.push(("ext", J::B(ext_macro(tcx.def_span(did)))));
            let sm = tcx.sess.source_map();
            let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
            o.push(("sp", arr(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), n(lo.line as i64)])));
            items.push(J::O(o));
        }
    }
    let mut uv = UnsafeVisitor { tcx, out: vec![], owner: String::new() };
    for id in tcx.hir_body_owners() {
        uv.owner = tcx.def_path_str(id);
        let body = tcx.hir_body_owned_by(id);
        intravisit::Visitor::visit_expr(&mut uv, body.value);
    }
    let uns = uv
        .out
        .iter()
        .map(|(o, f, l)| obj! {"owner" => s(o.clone()), "file" => s(f.clone()), "line" => n(*l as i64)})
        .collect();
    let cfgs: Vec<J> = {
        let mut v: Vec<String> = tcx.sess.config.iter().filter_map(|(a, b)| b.map(|b| format!("{a}={b}"))).collect();
        v.sort();
        v.into_iter().map(s).collect()
    };
    obj! {
        "crate" => s(d.local.name.to_string()),
        "missing" => arr(missing),
        "types" => arr(std::mem::take(&mut d.ty_json)),
        "instances" => arr(std::mem::take(&mut d.insts).into_iter().map(|x| x.unwrap_or(J::Null)).collect()),
        "items" => arr(items),
        "unsafe_blocks" => arr(uns),
        "cfg" => arr(cfgs),
    }
}
