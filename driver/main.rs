// MIR dumper: a rustc driver that compiles a crate exactly as cargo asks and,
// for workspace crates, writes the type-checked program (MIR of every body,
// resolved callees, ADT layout by name, impls, statics, unsafe blocks) as JSON.
// It decides nothing; the rules in /verif/vsa read the JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let mut macros = vec![];
        let mut s = sp;
        let mut n = 0;
        while s.from_expansion() && n < 12 {
            let d = s.ctxt().outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, name) = d.kind {
                macros.push(esc(name.as_str()));
            } else if let rustc_span::ExpnKind::Desugaring(k) = d.kind {
                macros.push(esc(&format!("desugar:{:?}", k)));
            }
            s = d.call_site;
            n += 1;
        }
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(&f), lo.line, list(macros))
    }

    fn fn_ref(&self, def: DefId, args: ty::GenericArgsRef<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"path\":{}", esc(&self.path(def)));
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(def, args));
        let _ = write!(o, ",\"full\":{}", esc(&full));
        let _ = write!(
            o,
            ",\"args\":{}",
            list(
                args.iter()
                    .filter(|a| a.as_region().is_none())
                    .map(|a| esc(&with_no_trimmed_paths!(format!("{}", a))))
                    .collect()
            )
        );
        let _ = write!(o, ",\"local\":{}", def.is_local());
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let _ = write!(o, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(tcx.item_name(def).as_str()));
            if args.len() > 0 && args[0].as_type().is_some() {
                let _ = write!(o, ",\"self_ty\":{}", esc(&self.ty(args.type_at(0))));
            }
        } else if let Some(imp) = tcx.impl_of_assoc(def) {
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(def).as_str()));
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl_self\":{}", esc(&self.ty(st)));
        }
        let kind = tcx.def_kind(def);
        if matches!(kind, DefKind::Ctor(..)) {
            o.push_str(",\"ctor\":true");
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
            if sig.safety().is_unsafe() {
                o.push_str(",\"unsafe\":true");
            }
            let _ = write!(o, ",\"ret\":{}", esc(&self.ty(sig.output())));
            // resolve to the concrete impl when types are known
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, tenv, def, args) {
                let d = inst.def_id();
                if d != def {
                    let _ = write!(o, ",\"resolved\":{},\"resolved_local\":{}", esc(&self.path(d)), d.is_local());
                }
            }
        }
        o.push('}');
        o
    }

    fn read_mem(&self, ty: Ty<'tcx>, alloc_id: rustc_middle::mir::interpret::AllocId, off: u64, meta: Option<u64>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        let alloc = match tcx.global_alloc(alloc_id) {
            GlobalAlloc::Memory(a) => a,
            _ => return None,
        };
        let alloc = alloc.inner();
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> {
            if o + n > alloc.size().bytes() {
                return None;
            }
            Some(alloc.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize).to_vec())
        };
        let tenv = TypingEnv::fully_monomorphized();
        match ty.kind() {
            ty::Str => {
                let n = meta?;
                let b = bytes(off, n)?;
                Some(format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b))))
            }
            ty::Slice(el) => {
                let n = meta?;
                self.read_arr(*el, alloc_id, off, n, depth)
            }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(tcx)?;
                self.read_arr(*el, alloc_id, off, n, depth)
            }
            ty::Uint(_) | ty::Int(_) | ty::Bool | ty::Char => {
                let sz = tcx.layout_of(tenv.as_query_input(ty)).ok()?.size.bytes();
                let b = bytes(off, sz)?;
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                Some(format!("{{\"int\":{}}}", v))
            }
            ty::Ref(_, inner, _) => {
                let ptrs = alloc.provenance().ptrs();
                let (_, prov) = ptrs.iter().find(|(o, _)| o.bytes() == off)?;
                let id = prov.alloc_id();
                let b = bytes(off, 8)?;
                let inner_off = u64::from_le_bytes(b.try_into().ok()?);
                let m = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                    let b = bytes(off + 8, 8)?;
                    Some(u64::from_le_bytes(b.try_into().ok()?))
                } else {
                    None
                };
                let v = self.read_mem(*inner, id, inner_off, m, depth + 1)?;
                Some(format!("{{\"ref\":{}}}", v))
            }
            ty::Adt(def, args) => {
                // fieldless enums and plain structs only
                let layout = tcx.layout_of(tenv.as_query_input(ty)).ok()?;
                if def.is_struct() {
                    let mut fs = vec![];
                    for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fo = layout.fields.offset(i).bytes();
                        fs.push(self.read_mem(fty, alloc_id, off + fo, None, depth + 1)?);
                    }
                    return Some(format!("{{\"adt\":{},\"variant\":0,\"fields\":{}}}", esc(&self.path(def.did())), list(fs)));
                }
                if def.is_enum() && def.is_payloadfree() {
                    let sz = layout.size.bytes();
                    let b = bytes(off, sz)?;
                    let mut v: u128 = 0;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    for (vi, d) in def.discriminants(tcx) {
                        if d.val == v {
                            return Some(format!("{{\"adt\":{},\"variant\":{},\"fields\":[]}}", esc(&self.path(def.did())), vi.as_u32()));
                        }
                    }
                }
                None
            }
            ty::Tuple(tys) => {
                let layout = tcx.layout_of(tenv.as_query_input(ty)).ok()?;
                let mut fs = vec![];
                for (i, t) in tys.iter().enumerate() {
                    fs.push(self.read_mem(t, alloc_id, off + layout.fields.offset(i).bytes(), None, depth + 1)?);
                }
                Some(format!("{{\"tuple\":{}}}", list(fs)))
            }
            _ => None,
        }
    }
    fn read_arr(&self, el: Ty<'tcx>, id: rustc_middle::mir::interpret::AllocId, off: u64, n: u64, depth: u32) -> Option<String> {
        let tenv = TypingEnv::fully_monomorphized();
        let sz = self.tcx.layout_of(tenv.as_query_input(el)).ok()?.size.bytes();
        if n > 4096 {
            return None;
        }
        let mut v = vec![];
        for i in 0..n {
            v.push(self.read_mem(el, id, off + i * sz, None, depth + 1)?);
        }
        Some(format!("{{\"arr\":{}}}", list(v)))
    }

    fn constant(&self, c: &ConstOperand<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = format!("{{\"ty\":{}", esc(&self.ty(ty)));
        if let ty::FnDef(d, args) = ty.kind() {
            let _ = write!(o, ",\"fn\":{}", self.fn_ref(*d, args.skip_binder(), tenv));
            o.push('}');
            return o;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_u32());
            } else {
                let _ = write!(o, ",\"named\":{}", esc(&self.path(u.def)));
            }
        }
        if let Ok(v) = c.const_.eval(tcx, tenv, rustc_span::DUMMY_SP) {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    let _ = write!(o, ",\"int\":{}", bits);
                    if let ty::Adt(def, _) = ty.kind() {
                        if def.is_enum() {
                            for (vi, d) in def.discriminants(tcx) {
                                if d.val == bits {
                                    let _ = write!(o, ",\"adt\":{},\"variant\":{}", esc(&self.path(def.did())), vi.as_u32());
                                }
                            }
                        }
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if let Some(v) = self.read_mem(*inner, prov.alloc_id(), off.bytes(), None, 0) {
                            let _ = write!(o, ",\"val\":{{\"ref\":{}}}", v);
                        }
                    }
                }
                ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                ConstValue::Slice { alloc_id, meta } => {
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if let Some(v) = self.read_mem(*inner, alloc_id, 0, Some(meta), 0) {
                            let _ = write!(o, ",\"val\":{{\"ref\":{}}}", v);
                        }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(v) = self.read_mem(ty, alloc_id, offset.bytes(), None, 0) {
                        let _ = write!(o, ",\"val\":{}", v);
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![format!("{}", p.local.as_u32())];
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    let raw = pt.ty.is_raw_ptr();
                    if raw { "[\"d\",\"raw\"]".to_string() } else { "[\"d\"]".to_string() }
                }
                ProjectionElem::Field(i, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if def.is_union() {
                                def.non_enum_variant().fields[i].name.to_string()
                            } else {
                                def.variant(vi).fields[i].name.to_string()
                            }
                        }
                        _ => format!("{}", i.as_u32()),
                    };
                    format!("[\"f\",{},{},{}]", i.as_u32(), esc(&name), esc(&self.ty(t)))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, vi) => {
                    format!("[\"v\",{},{}]", vi.as_u32(), esc(&n.map(|x| x.to_string()).unwrap_or_default()))
                }
                _ => "[\"o\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        list(v)
    }
    fn operand(&self, op: &Operand<'tcx>, body: &Body<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, tenv)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, tenv)),
            Rvalue::Repeat(o, n) => {
                let c = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, body, tenv), c)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p, body), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(o, body, tenv),
                    esc(&self.ty(*t)),
                    esc(&self.ty(from))
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{},{}]",
                esc(&format!("{:?}", b)),
                self.operand(&ops.0, body, tenv),
                self.operand(&ops.1, body, tenv),
                esc(&self.ty(ops.0.ty(&body.local_decls, tcx)))
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "[\"un\",{},{},{}]",
                esc(&format!("{:?}", u)),
                self.operand(o, body, tenv),
                esc(&self.ty(o.ty(&body.local_decls, tcx)))
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let a = match t.kind() {
                    ty::Adt(d, _) => esc(&self.path(d.did())),
                    _ => "null".into(),
                };
                format!("[\"discr\",{},{}]", self.place(p, body), a)
            }
            Rvalue::Aggregate(k, fields) => {
                let fs = list(fields.iter().map(|f| self.operand(f, body, tenv)).collect());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,0,{}]", fs),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", fs),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let vn = def.variant(*vi).name.to_string();
                        format!("[\"agg\",\"adt\",{},{},{},{}]", esc(&self.path(*d)), vi.as_u32(), fs, esc(&vn))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"agg\",\"closure\",{},0,{}]", esc(&self.path(*d)), fs),
                    _ => format!("[\"agg\",\"other\",null,0,{}]", fs),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&self, body: &Body<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"argc\":{}", body.arg_count);
        // locals
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !p.projection.is_empty() {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p, body)));
                }
            }
        }
        let _ = write!(o, ",\"vars\":{}", list(upv));
        let ls = body
            .local_decls
            .iter_enumerated()
            .map(|(i, d)| {
                let adt = match d.ty.peel_refs().kind() {
                    ty::Adt(a, _) => esc(&self.path(a.did())),
                    _ => "null".into(),
                };
                format!(
                    "[{},{},{}]",
                    esc(&self.ty(d.ty)),
                    names[i.as_usize()].as_ref().map(|n| esc(n)).unwrap_or("null".into()),
                    adt
                )
            })
            .collect();
        let _ = write!(o, ",\"locals\":{}", list(ls));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            self.place(&b.0, body),
                            self.rvalue(&b.1, body, tenv),
                            self.span(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place, body), variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let un = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => format!("{}", b.as_u32()),
                _ => "null".into(),
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(discr, body, tenv),
                        list(vs),
                        targets.otherwise().as_u32(),
                        sp,
                        esc(&self.ty(discr.ty(&body.local_decls, tcx)))
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    format!("[\"drop\",{},{},{}]", self.place(place, body), target.as_u32(), un(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a = args.iter().map(|x| self.operand(&x.node, body, tenv)).collect();
                    let at = args.iter().map(|x| esc(&self.ty(x.node.ty(&body.local_decls, tcx)))).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        self.operand(func, body, tenv),
                        list(a),
                        self.place(destination, body),
                        target.map(|b| b.as_u32().to_string()).unwrap_or("null".into()),
                        un(unwind),
                        sp,
                        list(at)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".to_string(),
                            vec![self.operand(len, body, tenv), self.operand(index, body, tenv)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(a, body, tenv), self.operand(b, body, tenv)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a, body, tenv)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a, body, tenv)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a, body, tenv)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(cond, body, tenv),
                        expected,
                        esc(&k),
                        list(ops),
                        target.as_u32(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                other => format!("[\"otherterm\",{}]", esc(&format!("{:?}", other))),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"cleanup\":{},\"sp\":{}}}", list(st), term, bb.is_cleanup, sp));
        }
        let _ = write!(o, ",\"bbs\":{}}}", list(bbs));
        o
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let cx = Cx { tcx };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    let mut adts: Vec<DefId> = vec![];
    let mut bodies: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    bodies.sort_by_key(|d| d.local_def_index.as_u32());
    for def in bodies {
        let d = def.to_def_id();
        let kind = tcx.def_kind(d);
        let (is_fn, is_closure) = match kind {
            DefKind::Fn | DefKind::AssocFn => (true, false),
            DefKind::Closure => (true, true),
            _ => (false, false),
        };
        if !is_fn {
            continue;
        }
        if tcx.is_constructor(d) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let tenv = TypingEnv::post_analysis(tcx, d);
        for l in body.local_decls.iter() {
            for a in l.ty.walk() {
                if let Some(t) = a.as_type() {
                    if let ty::Adt(ad, _) = t.kind() {
                        if !adts.contains(&ad.did()) { adts.push(ad.did()); }
                    }
                }
            }
        }
        let mut o = String::from("{");
        let _ = write!(o, "\"path\":{}", esc(&cx.path(d)));
        let _ = write!(o, ",\"closure\":{}", is_closure);
        let _ = write!(o, ",\"span\":{}", cx.span(tcx.def_span(d)));
        let _ = write!(o, ",\"pub\":{}", ev.is_reachable(def));
        let _ = write!(o, ",\"derived\":{}", tcx.is_automatically_derived(tcx.parent(d)));
        if is_closure {
            let _ = write!(o, ",\"parent\":{}", esc(&cx.path(tcx.typeck_root_def_id(d))));
        } else {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            let _ = write!(o, ",\"ret\":{}", esc(&cx.ty(sig.output())));
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"impl_self\":{}", esc(&cx.ty(st)));
                if let ty::Adt(a, _) = st.kind() {
                    let _ = write!(o, ",\"impl_adt\":{}", esc(&cx.path(a.did())));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"impl_trait\":{}", esc(&cx.path(tr.def_id)));
                    let _ = write!(o, ",\"impl_trait_full\":{}", esc(&with_no_trimmed_paths!(format!("{}", tr))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait_default\":{}", esc(&cx.path(tr)));
            }
        }
        let _ = write!(o, ",\"body\":{}", cx.body(body, tenv));
        let proms = tcx.promoted_mir(d);
        let _ = write!(o, ",\"promoted\":{}", list(proms.iter().map(|b| cx.body(b, tenv)).collect()));
        o.push('}');
        fns.push(o);
    }
    // statics, impls, ADTs defined locally
    let mut statics = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                statics.push(format!(
                    "{{\"path\":{},\"mut\":{},\"ty\":{},\"freeze\":{},\"span\":{}}}",
                    esc(&cx.path(d)),
                    mutability.is_mut(),
                    esc(&cx.ty(t)),
                    freeze,
                    cx.span(tcx.def_span(d))
                ));
            }
            DefKind::Struct | DefKind::Enum => {
                if !adts.contains(&d) { adts.push(d); }
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    format!(
                        "{},\"trait_full\":{}",
                        esc(&cx.path(t.def_id)),
                        esc(&with_no_trimmed_paths!(format!("{}", t)))
                    )
                } else {
                    "null,\"trait_full\":null".into()
                };
                let items: Vec<String> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|i| esc(&cx.path(*i)))
                    .collect();
                let safety = if of_trait { tcx.impl_trait_header(d).safety.is_unsafe() } else { false };
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"items\":{},\"unsafe\":{},\"derived\":{},\"span\":{}}}",
                    esc(&cx.ty(st)),
                    tr,
                    list(items),
                    safety,
                    tcx.is_automatically_derived(d),
                    cx.span(tcx.def_span(d))
                ));
            }
            _ => {}
        }
    }
    let mut ad = vec![];
    for d in adts {
        let def = tcx.adt_def(d);
        if def.is_union() {
            continue;
        }
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![0] };
        for (i, v) in def.variants().iter().enumerate() {
            let fs = v
                .fields
                .iter()
                .map(|f| {
                    format!(
                        "[{},{}]",
                        esc(f.name.as_str()),
                        esc(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                    )
                })
                .collect();
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), discrs[i], list(fs)));
        }
        ad.push(format!(
            "{{\"path\":{},\"kind\":{},\"local\":{},\"variants\":{}}}",
            esc(&cx.path(d)),
            if def.is_enum() { "\"enum\"" } else { "\"struct\"" },
            d.is_local(),
            list(vs)
        ));
    }
    // trait default methods & required list for local traits
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if tcx.def_kind(d) == DefKind::Trait {
            let items: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .map(|i| format!("[{},{}]", esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), tcx.defaultness(i.def_id).has_value()))
                .collect();
            traits.push(format!("{{\"path\":{},\"items\":{}}}", esc(&cx.path(d)), list(items)));
        }
    }
    let s = format!(
        "{{\"crate\":{},\"fns\":[\n{}\n],\"statics\":{},\"impls\":{},\"adts\":{},\"traits\":{}}}\n",
        esc(&krate),
        fns.join(",\n"),
        list(statics),
        list(impls),
        list(ad),
        list(traits)
    );
    std::fs::write(out, s).expect("write dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("VSA_OUT") {
            let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let _ = std::fs::create_dir_all(&dir);
            dump(tcx, &format!("{}/{}.json", dir, krate));
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
