use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::TypeVisitableExt;
use rustc_span::Span;
use std::collections::HashMap;

/// External functions whose bodies are exported (and so interpreted) rather than modelled by name.
const DESCEND: &[&str] = &[
    "core::option::Option", "core::result::Result", "core::ops::try_trait", "core::ops::control_flow",
    "core::convert", "core::ops::function", "core::mem::", "core::cmp::", "core::bool::", "core::ops::range", "std::ops::range", "std::ops::Range", "core::num::<impl std::convert", "core::tuple",
    "std::option::Option", "std::result::Result", "std::ops::try_trait", "std::ops::control_flow",
    "std::ops::ControlFlow", "std::ops::Try", "std::ops::FromResidual",
    "std::convert", "std::ops::function", "std::cmp::", "std::bool::",
    "serde::ser", "serde::de", "serde::__private", "serde::private", "serde_core::",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adts_out: Vec<(String, J)>,
    inst: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    queue: Vec<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    bodies: Vec<J>,
    ws: Vec<String>,
}

pub fn export(tcx: TyCtxt<'_>, dir: &str) {
    let ws: Vec<String> = std::env::var("MIRX_CRATES")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let cname = tcx.crate_name(LOCAL_CRATE).to_string();
    if !ws.contains(&cname) {
        return;
    }
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        types_out: vec![],
        adts: HashMap::new(),
        adts_out: vec![],
        inst: HashMap::new(),
        queue: vec![],
        bodies: vec![],
        ws,
    };
    let mut roots = vec![];
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(did, args);
        let b = cx.body_id(inst, env);
        let mut o = vec![
            ("path", J::s(cx.path(did))),
            ("name", J::s(tcx.item_name(did).to_string())),
            ("body", J::u(b)),
            ("loc", cx.loc(tcx.def_span(did))),
            ("from_macro", J::B(tcx.def_span(did).from_expansion())),
            ("pub", J::B(tcx.visibility(did).is_public())),
        ];
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = tcx.erase_and_anonymize_regions(st);
            o.push(("self_ty", J::u(cx.ty(st))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let tr = tcx.erase_and_anonymize_regions(tr);
                o.push(("trait", J::s(cx.path(tr.def_id))));
                o.push(("trait_args", cx.args(tr.args)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("in_trait", J::s(cx.path(tr))));
        }
        let mut par = tcx.parent(did);
        while matches!(tcx.def_kind(par), DefKind::Impl { .. } | DefKind::Trait) {
            par = tcx.parent(par);
        }
        o.push(("module", J::s(cx.path(par))));
        roots.push(J::O(o));
    }
    while let Some((id, inst, env)) = cx.queue.pop() {
        let j = cx.body(inst, env);
        cx.bodies[id] = j;
    }
    let out = J::O(vec![
        ("crate", J::s(cname.clone())),
        ("roots", J::A(roots)),
        ("bodies", J::A(std::mem::take(&mut cx.bodies))),
        ("types", J::A(std::mem::take(&mut cx.types_out))),
        ("adts", J::M(std::mem::take(&mut cx.adts_out))),
    ]);
    let mut s = String::new();
    out.write(&mut s);
    let kind = if tcx.sess.is_test_crate() { "test" } else { "main" };
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(format!("{dir}/{cname}.{kind}.json"), s).unwrap();
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s)
        } else {
            s
        }
    }
    fn loc(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", name, lo.line))
    }

    fn ws_crate(&self, d: DefId) -> bool {
        d.is_local() || self.ws.contains(&self.tcx.crate_name(d.krate).to_string())
    }

    fn descend(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_constructor(d) {
                    return false;
                }
                if !tcx.is_mir_available(d) {
                    return false;
                }
                if self.ws_crate(d) {
                    return true;
                }
                if matches!(tcx.crate_name(d.krate).as_str(), "serde" | "serde_core") {
                    return true;
                }
                if matches!(tcx.def_kind(d), DefKind::Closure) {
                    // closures defined inside descended std functions
                    return true;
                }
                let p = self.path(d);
                let p2 = p.trim_start_matches('<');
                let mut hit = DESCEND.iter().any(|x| p2.starts_with(x));
                if !hit && p.starts_with('<') {
                    // trait impls: decide by the module that holds the impl
                    let m = {
                        let mut par = tcx.parent(d);
                        while matches!(tcx.def_kind(par), DefKind::Impl { .. } | DefKind::Trait) {
                            par = tcx.parent(par);
                        }
                        with_no_trimmed_paths!(tcx.def_path_str(par))
                    };
                    let m = m + "::";
                    hit = DESCEND.iter().any(|x| m.starts_with(x))
                        || m.starts_with("std::option::")
                        || m.starts_with("std::result::")
                        || m.starts_with("core::option::")
                        || m.starts_with("core::result::")
                        || m.starts_with("std::ops::control_flow::");
                }
                hit
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        }
    }

    fn body_id(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&i) = self.inst.get(&(inst, env)) {
            return i;
        }
        let id = self.bodies.len();
        self.bodies.push(J::Null);
        self.inst.insert((inst, env), id);
        self.queue.push((id, inst, env));
        id
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(J::u(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                v.push(J::s(format!("{c}")));
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.types_out.len();
        self.types.insert(t, id);
        self.types_out.push(J::Null);
        let tcx = self.tcx;
        let text = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(text))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("w", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("sg", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("int")));
                o.push(("w", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("sg", J::B(false)));
            }
            ty::Float(f) => {
                o.push(("k", J::s("float")));
                o.push(("w", J::I(f.bit_width() as i128)));
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(d, args) => {
                o.push(("k", J::s("adt")));
                let p = self.path(d.did());
                o.push(("path", J::s(p.clone())));
                let a = self.args(args);
                o.push(("args", a));
                if self.adts.insert(d.did(), ()).is_none() {
                    let idx = self.adts_out.len();
                    self.adts_out.push((p, J::Null));
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter_enumerated() {
                        let discr = if d.is_enum() {
                            d.discriminant_for_variant(tcx, vi).val as i128
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        let show_ty = self.ws_crate(d.did());
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ft = tcx.erase_and_anonymize_regions(ft);
                            let tj = if show_ty { J::u(self.ty(ft)) } else { J::Null };
                            fs.push(J::A(vec![J::s(f.name.to_string()), tj]));
                        }
                        vs.push(J::O(vec![
                            ("name", J::s(v.name.to_string())),
                            ("discr", J::I(discr)),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    let k = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                    self.adts_out[idx].1 = J::O(vec![("k", J::s(k)), ("variants", J::A(vs))]);
                }
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("e", J::u(self.ty(*e))));
                let n = n.try_to_target_usize(tcx);
                o.push(("n", J::opt(n, |x| J::I(x as i128))));
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("e", J::u(self.ty(*e))));
            }
            ty::RawPtr(e, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("e", J::u(self.ty(*e))));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("e", J::u(self.ty(*e))));
            }
            ty::FnDef(..) => o.push(("k", J::s("fndef"))),
            ty::Closure(d, _) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.path(*d))));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| J::u(self.ty(t))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types_out[id] = J::O(o);
        id
    }

    fn fndef(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("path", J::s(self.path(d)))];
        let a = self.args(args);
        o.push(("args", a));
        if tcx.is_constructor(d) {
            // tuple struct / variant constructor used as a function
            let (adt, vi) = match tcx.def_kind(d) {
                DefKind::Ctor(rustc_hir::def::CtorOf::Variant, _) => {
                    let v = tcx.parent(d);
                    let e = tcx.parent(v);
                    let ad = tcx.adt_def(e);
                    (e, ad.variant_index_with_id(v).as_usize())
                }
                _ => (tcx.parent(d), 0),
            };
            let ap = self.path(adt);
            o.push(("ctor", J::A(vec![J::s(ap), J::u(vi)])));
            // make sure the ADT is described
            let t = tcx.type_of(adt).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            self.ty(t);
            return J::O(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(tr))));
            o.push(("method", J::s(tcx.item_name(d).to_string())));
        }
        if tcx.intrinsic(d).is_some() {
            o.push(("intrinsic", J::s(tcx.item_name(d).to_string())));
        }
        let mut resolved = Instance::try_resolve(tcx, env, d, args).ok().flatten();
        if resolved.is_none() {
            // Provided method of a workspace trait that no impl overrides (e.g. a blanket extension
            // trait): generic resolution stays open for specialisation, but the body is known.
            if let Some(tr) = tcx.trait_of_assoc(d) {
                if self.ws_crate(tr) && tcx.defaultness(d).has_value() {
                    let overridden = tcx.all_impls(tr).any(|im| {
                        tcx.associated_items(im)
                            .in_definition_order()
                            .any(|it| it.trait_item_def_id() == Some(d))
                    });
                    if !overridden {
                        resolved = Some(Instance::new_raw(d, args));
                    }
                }
            }
        }
        if let Some(inst) = resolved {
            if let InstanceKind::Item(rd) = inst.def {
                if rd != d {
                    o.push(("rpath", J::s(self.path(rd))));
                    let ra = self.args(inst.args);
                    o.push(("rargs", ra));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let st = tcx.erase_and_anonymize_regions(st);
                        o.push(("impl_self", J::u(self.ty(st))));
                    }
                }
            }
            if self.descend(inst) {
                let id = self.body_id(inst, env);
                o.push(("body", J::u(id)));
                if matches!(inst.def, InstanceKind::Shim(_)) {
                    o.push(("shim", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("ty", J::u(self.ty(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().expect("fndef args");
            let f = self.fndef(*d, args, env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                o.push(("promoted", J::u(p.as_usize())));
                return J::O(o);
            }
            o.push(("cpath", J::s(self.path(uv.def))));
        }
        if let Const::Ty(_, k) = c {
            o.push(("cparam", J::s(format!("{k}"))));
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                o.push(("bits", J::I(b as i128)));
                return J::O(o);
            }
        }
        if let ty::Float(_) = t.kind() {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                o.push(("bits", J::I(b as i128)));
                return J::O(o);
            }
        }
        if let (Const::Unevaluated(uv, _), ty::Ref(..)) = (c, t.kind()) {
            // references to slices and arrays of decodable values (lists of names)
            if !uv.args.has_param() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, uv.def, uv.args) {
                    let gid = rustc_middle::mir::interpret::GlobalId { instance: inst, promoted: None };
                    if let Ok(Ok(vt)) = tcx.const_eval_global_id_for_typeck(env, gid, rustc_span::DUMMY_SP) {
                        if let Some(j) = self.vtree(vt, t, 0) {
                            o.push(("val", j));
                            return J::O(o);
                        }
                    }
                }
            }
        }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            if let Some(j) = self.cval(v, t, env, 0) {
                o.push(("val", j));
            }
        }
        J::O(o)
    }

    fn vtree(&mut self, v: ty::ValTree<'tcx>, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                let b = ty::Value { ty: t, valtree: v }.try_to_raw_bytes(tcx)?;
                Some(J::O(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))]))
            }
            ty::Ref(_, inner, _) => {
                let j = self.vtree(v, *inner, depth + 1)?;
                Some(J::O(vec![("refto", j)]))
            }
            ty::Slice(e) | ty::Array(e, _) => {
                let mut fs = vec![];
                for c in v.try_to_branch()?.iter() {
                    let x = c.try_to_value()?;
                    fs.push(self.vtree(x.valtree, *e, depth + 1)?);
                }
                Some(J::O(vec![("agg", J::u(self.ty(t))), ("variant", J::Null), ("fields", J::A(fs))]))
            }
            _ if t.is_integral() || t.is_bool() || t.is_char() => {
                let b = v.try_to_leaf()?.to_bits_unchecked();
                Some(J::O(vec![("int", J::I(b as i128)), ("ty", J::u(self.ty(t)))]))
            }
            _ => None,
        }
    }

    /// Decode a constant value: strings, byte strings, arrays/tuples/ADTs of decodable values.
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                return Some(J::O(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))]));
            }
            if let ty::Slice(e) = inner.kind() {
                if *e == tcx.types.u8 {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]));
                }
            }
            if let ty::Array(e, n) = inner.kind() {
                // a reference to a byte array, such as the template of a format string
                if *e == tcx.types.u8 {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let n = n.try_to_target_usize(tcx)? as usize;
                        let (prov, off) = p.prov_and_relative_offset();
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(al)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            let off = off.bytes() as usize;
                            if off + n <= al.inner().len() {
                                let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                                return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]));
                            }
                        }
                    }
                }
            }
            if let ty::Adt(ad, _) = inner.kind() {
                // a cell that is filled once: which one it is
                let path = tcx.def_path_str(ad.did());
                if path.ends_with("OnceLock") || path.ends_with("OnceCell") {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, _) = p.prov_and_relative_offset();
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(def)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            return Some(J::O(vec![("static", J::s(tcx.def_path_str(def)))]));
                        }
                    }
                }
            }
            return None;
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            let b = v.try_to_bits_for_ty(tcx, env, t)?;
            return Some(J::O(vec![("int", J::I(b as i128)), ("ty", J::u(self.ty(t)))]));
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            if matches!(v, ConstValue::ZeroSized) {
                return Some(J::O(vec![("zst", J::u(self.ty(t)))]));
            }
            let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let mut fs = vec![];
            for (fv, ft) in d.fields.iter() {
                fs.push(self.cval(*fv, *ft, env, depth + 1).unwrap_or(J::Null));
            }
            return Some(J::O(vec![
                ("agg", J::u(self.ty(t))),
                ("variant", J::opt(d.variant, |x| J::u(x.as_usize()))),
                ("fields", J::A(fs)),
            ]));
        }
        if matches!(v, ConstValue::ZeroSized) {
            return Some(J::O(vec![("zst", J::u(self.ty(t)))]));
        }
        None
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::u(f.as_usize()), J::u(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::A(vec![J::s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![J::s("d"), J::u(vi.as_usize())]),
                _ => J::A(vec![J::s("o")]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(&c.const_, env))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rt", J::s(format!("{r:?}")))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return J::O(vec![("failed", J::B(true))]),
        };
        let mut o = self.body_json(&body, env);
        let key = with_no_trimmed_paths!(format!("{inst}"));
        o.push(("key", J::s(key)));
        let d = inst.def_id();
        o.push(("path", J::s(self.path(d))));
        o.push(("krate", J::s(tcx.crate_name(d.krate).to_string())));
        o.push(("loc", self.loc(tcx.def_span(d))));
        o.push(("closure", J::B(matches!(tcx.def_kind(d), DefKind::Closure))));
        o.push(("shim", J::B(!matches!(inst.def, InstanceKind::Item(_)))));
        // promoted constants of this body
        let mut proms = vec![];
        if let InstanceKind::Item(d) = inst.def {
            if !tcx.is_constructor(d) {
                for p in tcx.promoted_mir(d).iter() {
                    let pb: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        env,
                        ty::EarlyBinder::bind(tcx, p.clone()),
                    ) {
                        Ok(b) => b,
                        Err(_) => {
                            proms.push(J::Null);
                            continue;
                        }
                    };
                    proms.push(J::O(self.body_json(&pb, env)));
                }
            }
        }
        o.push(("promoted", J::A(proms)));
        J::O(o)
    }

    fn body_json(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| J::u(self.ty(l.ty))).collect();
        let mut names: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![J::s(v.name.to_string()), self.place(p)]));
            }
        }
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(rv, body, env);
                        ss.push(J::A(vec![J::s("="), pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        ss.push(J::A(vec![J::s("sd"), pj, J::u(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(J::A(vec![J::s("dead"), J::u(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", J::s("goto")), ("to", J::u(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let vals: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), J::u(b.as_usize())]))
                        .collect();
                    vec![
                        ("t", J::s("switch")),
                        ("op", self.operand(discr, env)),
                        ("ty", J::u(self.ty(dt))),
                        ("vals", J::A(vals)),
                        ("else", J::u(targets.otherwise().as_usize())),
                    ]
                }
                TerminatorKind::Return => vec![("t", J::s("ret"))],
                TerminatorKind::Unreachable => vec![("t", J::s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    vec![
                        ("t", J::s("drop")),
                        ("p", self.place(place)),
                        ("ty", J::u(self.ty(dt))),
                        ("to", J::u(target.as_usize())),
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(&body.local_decls, tcx).kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().expect("fndef args");
                            self.fndef(*d, a, env)
                        }
                        _ => J::O(vec![("indirect", self.operand(func, env))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    vec![
                        ("t", J::s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("dest", self.place(destination)),
                        ("to", J::opt(*target, |x| J::u(x.as_usize()))),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let mut extra = vec![];
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            extra.push(self.operand(len, env));
                            extra.push(self.operand(index, env));
                        }
                        AssertKind::Overflow(_, a, b) => {
                            extra.push(self.operand(a, env));
                            extra.push(self.operand(b, env));
                        }
                        AssertKind::OverflowNeg(a) | AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => {
                            extra.push(self.operand(a, env));
                        }
                        _ => {}
                    }
                    vec![
                        ("t", J::s("assert")),
                        ("cond", self.operand(cond, env)),
                        ("exp", J::B(*expected)),
                        ("kind", J::s(kind)),
                        ("ops", J::A(extra)),
                        ("to", J::u(target.as_usize())),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("t", J::s("goto")), ("to", J::u(real_target.as_usize()))]
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("t", J::s("unwind"))],
                _ => vec![("t", J::s("other"))],
            };
            let mut tj = tj;
            tj.push(("sp", sp));
            bbs.push(J::O(vec![("s", J::A(ss)), ("t", J::O(tj)), ("cl", J::B(bb.is_cleanup))]));
        }
        vec![
            ("argc", J::u(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("bbs", J::A(bbs)),
            ("spread", J::opt(body.spread_arg, |l| J::u(l.as_usize()))),
        ]
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, ..) => J::A(vec![J::s("use"), self.operand(op, env)]),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(tcx);
                J::A(vec![J::s("repeat"), self.operand(op, env), J::opt(n, |x| J::I(x as i128))])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                J::s("ref"),
                self.place(p),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("ref"), self.place(p), J::B(m.is_mut())]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, tcx);
                J::A(vec![
                    J::s("cast"),
                    J::s(format!("{k:?}")),
                    self.operand(op, env),
                    J::u(self.ty(from)),
                    J::u(self.ty(*t)),
                ])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                J::A(vec![
                    J::s("bin"),
                    J::s(format!("{op:?}")),
                    self.operand(&b.0, env),
                    self.operand(&b.1, env),
                    J::u(self.ty(t)),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                J::A(vec![J::s("un"), J::s(format!("{op:?}")), self.operand(a, env), J::u(self.ty(t))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![J::s("discr"), self.place(p), J::u(self.ty(t))])
            }
            Rvalue::Aggregate(k, fs) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                        let t = tcx.erase_and_anonymize_regions(t);
                        J::A(vec![
                            J::s("adt"),
                            J::s(self.path(*d)),
                            J::u(vi.as_usize()),
                            J::u(self.ty(t)),
                            J::opt(*uf, |x| J::u(x.as_usize())),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = tcx.erase_and_anonymize_regions(*args);
                        let inst = Instance::new_raw(*d, args);
                        let id = self.body_id(inst, env);
                        J::A(vec![J::s("closure"), J::s(self.path(*d)), J::u(id)])
                    }
                    _ => J::A(vec![J::s("other")]),
                };
                let v: Vec<J> = fs.iter().map(|x| self.operand(x, env)).collect();
                J::A(vec![J::s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![J::s("other")]),
            Rvalue::WrapUnsafeBinder(op, _) => J::A(vec![J::s("use"), self.operand(op, env)]),
        }
    }
}
