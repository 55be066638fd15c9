//! rustc driver that dumps the resolved program (MIR, ADTs, impls) of each
//! workspace crate as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_ast::attr::AttributeExt;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt};
use std::collections::BTreeSet;

struct Cb;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    ext: BTreeSet<String>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn docs(&self, d: DefId) -> J {
        let Some(ld) = d.as_local() else { return J::A(vec![]) };
        let h = self.tcx.local_def_id_to_hir_id(ld);
        J::A(self.tcx.hir_attrs(h).iter().filter_map(|a| a.doc_str()).map(|x| s(x.to_string())).collect())
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a
            .iter()
            .filter_map(|x| match x.kind() {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(t)),
                GenericArgKind::Const(c) => Some(self.tyconst(c)),
                #[allow(unreachable_patterns)]
                _ => None,
            })
            .collect())
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => {
                J::o(vec![("k", s("cparam")), ("n", s(p.name.to_string()))])
            }
            ty::ConstKind::Value(v) => {
                let t = v.ty;
                if let Some(l) = c.try_to_leaf() {
                    J::o(vec![
                        ("k", s("cval")),
                        ("t", s(format!("{t}"))),
                        ("v", s(format!("{}", self.leaf(l, t)))),
                    ])
                } else {
                    J::o(vec![("k", s("cval")), ("t", s(format!("{t}"))), ("v", s(format!("{c}")))])
                }
            }
            _ => {
                let env = ty::TypingEnv::fully_monomorphized();
                if let Ok(n) = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(c)) {
                    if n != c {
                        return self.tyconst(n);
                    }
                }
                J::o(vec![("k", s("cother")), ("v", s(format!("{c:?}")))])
            }
        }
    }
    fn leaf(&self, l: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let size = l.size();
        let bits = l.to_bits(size);
        match t.kind() {
            ty::Int(_) => format!("{}", size.sign_extend(bits)),
            _ => format!("{bits}"),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::o(vec![("k", s("prim")), ("n", s(format!("{t}")))])
            }
            ty::Adt(d, a) => {
                let a = self.args(a);
                J::o(vec![("k", s("adt")), ("p", s(self.id(d.did()))), ("a", a)])
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                J::o(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                J::o(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                J::o(vec![("k", s("slice")), ("t", t)])
            }
            ty::Array(t, n) => {
                let t = self.ty(*t);
                let n = self.tyconst(*n);
                J::o(vec![("k", s("array")), ("t", t), ("n", n)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::o(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Param(p) => J::o(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            ty::FnDef(d, a) => {
                let a = self.args(a.skip_binder());
                J::o(vec![("k", s("fndef")), ("p", s(self.id(*d))), ("a", a)])
            }
            ty::Closure(d, a) => {
                let a = self.args(a);
                J::o(vec![("k", s("closure")), ("p", s(self.id(*d))), ("a", a)])
            }
            ty::Alias(_, al) => {
                let d: DefId = match al.kind { ty::AliasTyKind::Projection{def_id}=>def_id.into(), ty::AliasTyKind::Inherent{def_id}=>def_id.into(), ty::AliasTyKind::Opaque{def_id}=>def_id.into(), ty::AliasTyKind::Free{def_id}=>def_id.into() };
                let a = self.args(al.args);
                J::o(vec![("k", s("proj")), ("p", s(self.id(d))), ("a", a)])
            }
            ty::FnPtr(..) => J::o(vec![("k", s("fnptr")), ("v", s(format!("{t}")))]),
            ty::Dynamic(..) => J::o(vec![("k", s("dyn")), ("v", s(format!("{t}")))]),
            _ => J::o(vec![("k", s("other")), ("v", s(format!("{t}")))]),
        }
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => s("*"),
                Field(i, _) => J::o(vec![("f", J::I(i.as_usize() as i128))]),
                Index(l) => J::o(vec![("i", J::I(l.as_usize() as i128))]),
                ConstantIndex { offset, from_end, .. } => J::o(vec![
                    ("ci", J::I(offset as i128)),
                    ("fe", J::B(from_end)),
                ]),
                Subslice { from, to, from_end } => J::o(vec![
                    ("ss", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("fe", J::B(from_end)),
                ]),
                Downcast(_, v) => J::o(vec![("d", J::I(v.as_usize() as i128))]),
                _ => J::o(vec![("x", s(format!("{e:?}")))]),
            });
        }
        J::o(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(v))])
    }
    fn alloc_ref(&mut self, id: mir::interpret::AllocId, off: u64, meta: Option<u64>, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let len = a.size().bytes();
                match t.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(len - off);
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            off as usize..(off + n) as usize,
                        );
                        J::o(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b)))])
                    }
                    ty::Slice(e) | ty::Array(e, _) if *e == tcx.types.u8 => {
                        let n = meta.unwrap_or(len - off);
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            off as usize..(off + n) as usize,
                        );
                        J::o(vec![("k", s("bytes")), ("v", s(String::from_utf8_lossy(b)))])
                    }
                    _ => {
                        // collect strings reachable from the allocation (e.g. &[&str])
                        let mut v = vec![];
                        for (_o, p) in a.provenance().ptrs().iter() {
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(p.alloc_id()) {
                                let m = m.inner();
                                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(
                                    0..m.size().bytes() as usize,
                                );
                                v.push(s(String::from_utf8_lossy(b)));
                            }
                        }
                        J::o(vec![("k", s("mem")), ("t", s(format!("{t}"))), ("strs", J::A(v))])
                    }
                }
            }
            GlobalAlloc::Static(d) => J::o(vec![("k", s("static")), ("p", s(self.id(d)))]),
            GlobalAlloc::Function { instance } => {
                J::o(vec![("k", s("fnp")), ("p", s(self.id(instance.def_id())))])
            }
            _ => J::o(vec![("k", s("opaque"))]),
        }
    }
    fn cval(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> J {
        use mir::interpret::Scalar;
        match v {
            mir::ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(..) | ty::Closure(..) => {
                    let t = self.ty(t);
                    J::o(vec![("k", s("zst")), ("t", t)])
                }
                _ => {
                    let t = self.ty(t);
                    J::o(vec![("k", s("zst")), ("t", t)])
                }
            },
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                let v = self.leaf(i, t);
                let t = self.ty(t);
                J::o(vec![("k", s("int")), ("v", s(v)), ("t", t)])
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let inner = t.builtin_deref(true).unwrap_or(t);
                let r = self.alloc_ref(prov.alloc_id(), off.bytes(), None, inner);
                J::o(vec![("k", s("ref")), ("v", r)])
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let inner = t.builtin_deref(true).unwrap_or(t);
                self.alloc_ref(alloc_id, 0, Some(meta), inner)
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                // maybe a &str constant held in memory
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                        let m = m.inner();
                        let o = offset.bytes() as usize;
                        if let Some((_, p)) =
                            m.provenance().ptrs().iter().find(|(q, _)| q.bytes() as usize == o)
                        {
                            let id = p.alloc_id();
                            let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(
                                o..m.size().bytes() as usize,
                            );
                            let meta = if raw.len() >= 16 {
                                let mut b = [0u8; 8];
                                b.copy_from_slice(&raw[8..16]);
                                Some(u64::from_le_bytes(b))
                            } else {
                                None
                            };
                            if inner.is_str() {
                                return self.alloc_ref(id, 0, meta, *inner);
                            }
                        }
                    }
                }
                let t2 = self.ty(t);
                let r = self.alloc_ref(alloc_id, offset.bytes(), None, t);
                J::o(vec![("k", s("ind")), ("v", r), ("t", t2)])
            }
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>) -> J {
        match c {
            mir::Const::Val(v, t) => self.cval(*v, *t),
            mir::Const::Ty(t, c) => {
                if let Some(l) = c.try_to_leaf() {
                    let v = self.leaf(l, *t);
                    let t = self.ty(*t);
                    J::o(vec![("k", s("int")), ("v", s(v)), ("t", t)])
                } else {
                    self.tyconst(*c)
                }
            }
            mir::Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    // still try to evaluate non generic promoteds
                    let a = self.args(u.args);
                    let mut o = vec![
                        ("k", s("promoted")),
                        ("d", s(self.id(u.def))),
                        ("i", J::I(p.as_usize() as i128)),
                        ("a", a),
                    ];
                    let t = self.ty(*t);
                    o.push(("t", t));
                    J::o(o)
                } else {
                    let val = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP).ok();
                    let a = self.args(u.args);
                    let mut o =
                        vec![("k", s("uneval")), ("d", s(self.id(u.def))), ("a", a)];
                    if let Some(v) = val {
                        let v = self.cval(v, *t);
                        o.push(("v", v));
                    }
                    J::o(o)
                }
            }
        }
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let p = self.place(p);
                J::o(vec![("c", p)])
            }
            mir::Operand::Move(p) => {
                let p = self.place(p);
                J::o(vec![("m", p)])
            }
            mir::Operand::Constant(c) => {
                let k = self.konst(&c.const_);
                J::o(vec![("k", k)])
            }
            #[allow(unreachable_patterns)]
            _ => J::o(vec![("rt", s(format!("{o:?}")))]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => {
                let o = self.operand(o);
                J::o(vec![("r", s("use")), ("o", o)])
            }
            Repeat(o, n) => {
                let o = self.operand(o);
                let n = self.tyconst(*n);
                J::o(vec![("r", s("repeat")), ("o", o), ("n", n)])
            }
            Ref(_, bk, p) => {
                let p = self.place(p);
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::o(vec![("r", s("ref")), ("m", J::B(m)), ("p", p)])
            }
            RawPtr(_, p) => {
                let p = self.place(p);
                J::o(vec![("r", s("rawptr")), ("p", p)])
            }
            Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                J::o(vec![("r", s("cast")), ("ck", s(format!("{k:?}"))), ("o", o), ("t", t)])
            }
            BinaryOp(b, ops) => {
                let x = self.operand(&ops.0);
                let y = self.operand(&ops.1);
                J::o(vec![("r", s("bin")), ("op", s(format!("{b:?}"))), ("x", x), ("y", y)])
            }
            UnaryOp(u, o) => {
                let o = self.operand(o);
                J::o(vec![("r", s("un")), ("op", s(format!("{u:?}"))), ("o", o)])
            }
            Discriminant(p) => {
                let p = self.place(p);
                J::o(vec![("r", s("discr")), ("p", p)])
            }
            Aggregate(k, fs) => {
                let fs: Vec<J> = fs.iter().map(|o| self.operand(o)).collect();
                let mut o = vec![("r", s("agg")), ("fs", J::A(fs))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("k", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    mir::AggregateKind::Adt(d, v, a, _, af) => {
                        o.push(("k", s("adt")));
                        o.push(("p", s(self.id(*d))));
                        o.push(("v", J::I(v.as_usize() as i128)));
                        let a = self.args(a);
                        o.push(("a", a));
                        if let Some(f) = af {
                            o.push(("uf", J::I(f.as_usize() as i128)));
                        }
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        o.push(("k", s("closure")));
                        o.push(("p", s(self.id(*d))));
                        let a = self.args(a);
                        o.push(("a", a));
                    }
                    x => o.push(("k", s(format!("{x:?}")))),
                }
                J::o(o)
            }
            CopyForDeref(p) => {
                let p = self.place(p);
                J::o(vec![("r", s("use")), ("o", J::o(vec![("c", p)]))])
            }
            Reborrow(_, _, p) => {
                let p = self.place(p);
                J::o(vec![("r", s("use")), ("o", J::o(vec![("c", p)]))])
            }
            ThreadLocalRef(d) => J::o(vec![("r", s("tls")), ("p", s(self.id(*d)))]),
            #[allow(unreachable_patterns)]
            _ => J::o(vec![("r", s("other")), ("v", s(format!("{r:?}")))]),
        }
    }
    fn loc(&self, sp: rustc_span::Span) -> J {
        let root = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }
    fn body(&mut self, b: &mir::Body<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::o(vec![("n", s(v.name.to_string())), ("p", p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        let l = self.loc(x.source_info.span);
                        st.push(J::o(vec![("p", p), ("r", r), ("l", l)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::o(vec![
                            ("sd", p),
                            ("v", J::I(variant_index.as_usize() as i128)),
                        ]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        st.push(J::o(vec![("intr", s(format!("{i:?}")))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let mut o: Vec<(&str, J)> = vec![];
            use mir::TerminatorKind::*;
            match &t.kind {
                Goto { target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", J::I(target.as_usize() as i128)));
                }
                SwitchInt { discr, targets } => {
                    o.push(("t", s("switch")));
                    let tyy = discr.ty(&b.local_decls, self.tcx);
                    let d = self.operand(discr);
                    o.push(("d", d));
                    let dt = self.ty(tyy);
                    o.push(("dt", dt));
                    let mut cs = vec![];
                    for (v, bb) in targets.iter() {
                        let v: i128 = match tyy.kind() {
                            ty::Int(_) => {
                                let size = rustc_abi::Size::from_bytes(match tyy.kind() {
                                    ty::Int(ty::IntTy::I8) => 1,
                                    ty::Int(ty::IntTy::I16) => 2,
                                    ty::Int(ty::IntTy::I32) => 4,
                                    ty::Int(ty::IntTy::I128) => 16,
                                    _ => 8,
                                });
                                size.sign_extend(v)
                            }
                            _ => v as i128,
                        };
                        cs.push(J::A(vec![J::I(v), J::I(bb.as_usize() as i128)]));
                    }
                    o.push(("cs", J::A(cs)));
                    o.push(("el", J::I(targets.otherwise().as_usize() as i128)));
                }
                Return => o.push(("t", s("return"))),
                Unreachable => o.push(("t", s("unreachable"))),
                UnwindResume => o.push(("t", s("resume"))),
                UnwindTerminate(_) => o.push(("t", s("abort"))),
                Drop { place, target, .. } => {
                    o.push(("t", s("drop")));
                    let p = self.place(place);
                    o.push(("p", p));
                    o.push(("to", J::I(target.as_usize() as i128)));
                }
                Assert { cond, expected, target, msg, .. } => {
                    o.push(("t", s("assert")));
                    let c = self.operand(cond);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    let k = format!("{msg:?}");
                    o.push(("msg", s(k.chars().take(60).collect::<String>())));
                    o.push(("to", J::I(target.as_usize() as i128)));
                }
                Call { func, args, destination, target, .. } => {
                    o.push(("t", s("call")));
                    let f = self.operand(func);
                    o.push(("f", f));
                    let av: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                    o.push(("a", J::A(av)));
                    let dp = self.place(destination);
                    o.push(("p", dp));
                    if let Some(t) = target {
                        o.push(("to", J::I(t.as_usize() as i128)));
                    }
                    let fty = func.ty(&b.local_decls, self.tcx);
                    if let ty::FnDef(d, a) = fty.kind() {
                        let a = a.skip_binder();
                        o.push(("cp", s(self.id(*d))));
                        o.push(("cpp", s(self.tcx.def_path_str(*d))));
                        let ja = self.args(a);
                        o.push(("ca", ja));
                        if self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe() {
                            o.push(("us", J::B(true)));
                        }
                        if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                            o.push(("tr", s(self.id(tr))));
                        }
                        if let Ok(Some(inst)) =
                            ty::Instance::try_resolve(self.tcx, self.env, *d, a)
                        {
                            let rd = inst.def_id();
                            if rd != *d {
                                o.push(("rp", s(self.id(rd))));
                                let ja = self.args(inst.args);
                                o.push(("ra", ja));
                            }
                        }
                        self.ext.insert(self.id(*d));
                    }
                }
                x => {
                    o.push(("t", s("other")));
                    o.push(("v", s(format!("{x:?}"))));
                }
            }
            let l = self.loc(t.source_info.span);
            o.push(("l", l));
            let mut bo = vec![("s", J::A(st)), ("t", J::o(o))];
            if bb.is_cleanup {
                bo.push(("cl", J::B(true)));
            }
            blocks.push(J::o(bo));
        }
        J::o(vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn generics(&self, d: DefId) -> J {
        let mut out = vec![];
        let mut chain = vec![];
        let mut g = Some(self.tcx.generics_of(d));
        while let Some(x) = g {
            chain.push(x);
            g = x.parent.map(|p| self.tcx.generics_of(p));
        }
        for g in chain.iter().rev() {
            for p in &g.own_params {
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => continue,
                    ty::GenericParamDefKind::Type { .. } => "type",
                    ty::GenericParamDefKind::Const { .. } => "const",
                };
                out.push(J::o(vec![("n", s(p.name.to_string())), ("k", s(k))]));
            }
        }
        J::A(out)
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut fns = vec![];
    let mut cx = Cx { tcx, env: ty::TypingEnv::fully_monomorphized(), ext: BTreeSet::new() };
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        let kind = match dk {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Closure => "closure",
            _ => continue,
        };
        if tcx.is_coroutine(d) {
            continue;
        }
        cx.env = ty::TypingEnv::post_analysis(tcx, d);
        let mut o = vec![
            ("id", s(cx.id(d))),
            ("path", s(tcx.def_path_str(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("kind", s(kind)),
        ];
        let sp = tcx.def_span(d);
        o.push(("loc", cx.loc(sp)));
        if sp.from_expansion() {
            let ec = sp.ctxt().outer_expn_data();
            o.push(("mac", s(format!("{:?}", ec.kind))));
        }
        if tcx.is_automatically_derived(tcx.parent(d)) {
            o.push(("derived", J::B(true)));
        }
        o.push(("gen", cx.generics(d)));
        if kind != "closure" {
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                o.push(("unsafe", J::B(true)));
            }
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(*ld))));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            let par = tcx.parent(d);
            match tcx.def_kind(par) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let j = cx.ty(st);
                    o.push(("self", j));
                    o.push(("impl", s(cx.id(par))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.id(tr.def_id))));
                        let a = cx.args(tr.args);
                        o.push(("targs", a));
                    }
                }
                DefKind::Trait => {
                    o.push(("in_trait", s(cx.id(par))));
                }
                _ => {}
            }
        } else {
            o.push(("parent", s(cx.id(tcx.typeck_root_def_id(d)))));
        }
        let b = tcx.optimized_mir(d);
        let j = cx.body(b);
        o.push(("body", j));
        let pm = tcx.promoted_mir(d);
        let v: Vec<J> = pm.iter().map(|b| cx.body(b)).collect();
        if !v.is_empty() {
            o.push(("promoted", J::A(v)));
        }
        fns.push(J::o(o));
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut aliases = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let mut mods = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        fs.push(J::o(vec![
                            ("n", s(f.name.to_string())),
                            ("t", t),
                            ("vis", s(format!("{:?}", f.vis))),
                        ]));
                    }
                    let docs = cx.docs(v.def_id);
                    vs.push(J::o(vec![("n", s(v.name.to_string())), ("f", J::A(fs)), ("docs", docs)]));
                }
                let docs = cx.docs(d);
                adts.push(J::o(vec![
                    ("docs", docs),
                    ("id", s(cx.id(d))),
                    ("path", s(tcx.def_path_str(d))),
                    ("gen", cx.generics(d)),
                    ("v", J::A(vs)),
                    ("loc", cx.loc(tcx.def_span(d))),
                    ("vis", s(format!("{:?}", tcx.visibility(d)))),
                ]));
            }
            DefKind::TyAlias => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                aliases.push(J::o(vec![
                    ("id", s(cx.id(d))),
                    ("gen", cx.generics(d)),
                    ("t", t),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::o(vec![
                    ("id", s(cx.id(d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("t", s(format!("{t}"))),
                    ("freeze", J::B(t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))),
                    ("loc", cx.loc(tcx.def_span(d))),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let par = tcx.parent(d);
                let mut o = vec![("id", s(cx.id(d))), ("t", s(format!("{t}")))];
                if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let j = cx.ty(st);
                    o.push(("self", j));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.id(tr.def_id))));
                    }
                }
                o.push(("name", s(tcx.item_name(d).to_string())));
                if tcx.generics_of(d).count() == 0 && tcx.def_kind(par) != DefKind::Trait {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let j = cx.cval(v, t);
                        o.push(("v", j));
                        if t.is_enum() {
                            // the scalar of an enum with a niche is no variant index
                            cx.env = ty::TypingEnv::post_analysis(tcx, d);
                            let b = tcx.mir_for_ctfe(d);
                            let j = cx.body(b);
                            o.push(("body", j));
                        }
                    }
                } else if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                    // generic associated constant: dump its body
                    cx.env = ty::TypingEnv::post_analysis(tcx, d);
                    let b = tcx.mir_for_ctfe(d);
                    let j = cx.body(b);
                    o.push(("body", j));
                }
                consts.push(J::o(o));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let j = cx.ty(st);
                let mut o = vec![
                    ("id", s(cx.id(d))),
                    ("self", j),
                    ("gen", cx.generics(d)),
                    ("loc", cx.loc(tcx.def_span(d))),
                ];
                if tcx.is_automatically_derived(d) {
                    o.push(("derived", J::B(true)));
                }
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.id(tr.def_id))));
                    let a = cx.args(tr.args);
                    o.push(("targs", a));
                }
                let items: Vec<J> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|x| {
                        let mut v = vec![
                            ("n", s(tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default())),
                            ("id", s(cx.id(*x))),
                        ];
                        if tcx.def_kind(*x) == DefKind::AssocTy {
                            let t = tcx.type_of(*x).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            v.push(("t", t));
                        }
                        J::o(v)
                    })
                    .collect();
                o.push(("items", J::A(items)));
                impls.push(J::o(o));
            }
            DefKind::Trait => {
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|x| {
                        J::o(vec![
                            ("n", s(tcx.opt_item_name(x.def_id).map(|n| n.to_string()).unwrap_or_default())),
                            ("id", s(cx.id(x.def_id))),
                            ("def", J::B(x.defaultness(tcx).has_value())),
                        ])
                    })
                    .collect();
                mods.push(J::o(vec![("trait", s(cx.id(d))), ("items", J::A(items))]));
            }
            DefKind::Mod => {
                let mut v = vec![];
                for c in tcx.module_children_local(ld) {
                    let target = c.res.opt_def_id().map(|x| cx.id(x)).unwrap_or_default();
                    v.push(J::o(vec![
                        ("n", s(c.ident.name.to_string())),
                        ("vis", s(format!("{:?}", c.vis))),
                        ("to", s(target)),
                    ]));
                }
                mods.push(J::o(vec![("mod", s(cx.id(d))), ("items", J::A(v))]));
            }
            _ => {}
        }
    }
    // external generic combinators whose MIR is available
    let o = J::o(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("aliases", J::A(aliases)),
        ("statics", J::A(statics)),
        ("consts", J::A(consts)),
        ("mods", J::A(mods)),
    ]);
    let mut st = String::new();
    o.write(&mut st);
    let tmp = format!("{out}.tmp{}", std::process::id());
    std::fs::write(&tmp, st).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let test = if tcx.sess.opts.test { "-test" } else { "" };
            let kind = if tcx.crate_types().iter().any(|c| format!("{c:?}").contains("Exec")) {
                "-bin"
            } else {
                ""
            };
            dump(tcx, &format!("{dir}/{name}{kind}{test}.json"));
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    args.remove(0);
    rustc_driver::catch_with_exit_code(move || {
        let mut cb = Cb;
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    })
}
