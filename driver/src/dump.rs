//! Dumps the MIR of every function/closure of the crate being compiled as JSON lines.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv, GenericArgsRef};
use rustc_span::Span;
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}
fn opt(s: Option<String>) -> String { s.unwrap_or_else(|| "null".to_string()) }

struct D<'tcx> { tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, def: DefId }

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate);
    let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)));
    if d.is_local() { format!("{}::{}", krate, p) } else { p }
}
/// unique id for local bodies
fn id(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> D<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        js(&format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0 + 1))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(i) => format!("[\"int\",{}]", js(i.name_str())),
            ty::Uint(i) => format!("[\"int\",{}]", js(i.name_str())),
            ty::Float(f) => format!("[\"float\",{}]", js(f.name_str())),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Adt(def, args) => format!("[\"adt\",{},{}]", js(&path(tcx, def.did())), self.args(args)),
            ty::Ref(_, t, m) => format!("[\"ref\",{},{}]", self.ty(*t), m.is_mut()),
            ty::RawPtr(t, m) => format!("[\"ptr\",{},{}]", self.ty(*t), m.is_mut()),
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            ty::Array(t, _) => format!("[\"array\",{}]", self.ty(*t)),
            ty::Tuple(ts) => format!("[\"tuple\",{}]", arr(ts.iter().map(|t| self.ty(t)))),
            ty::Closure(d, _) => format!("[\"closure\",{}]", js(&id(tcx, *d))),
            ty::FnDef(d, args) => format!("[\"fndef\",{},{}]", js(&path(tcx, *d)), self.args(args.skip_binder())),
            ty::FnPtr(..) => "[\"fnptr\"]".into(),
            ty::Param(p) => format!("[\"param\",{}]", js(p.name.as_str())),
            ty::Dynamic(..) => format!("[\"dyn\",{}]", js(&t.to_string())),
            ty::Alias(..) => format!("[\"alias\",{}]", js(&t.to_string())),
            _ => format!("[\"other\",{}]", js(&t.to_string())),
        }
    }
    fn args(&self, args: GenericArgsRef<'tcx>) -> String {
        arr(args.types().map(|t| self.ty(t)))
    }
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index { Some(v) => v, None => rustc_abi::VariantIdx::from_u32(0) };
                            let vd = &def.variant(v);
                            (path(tcx, def.did()), vd.fields[f].name.to_string())
                        }
                        ty::Tuple(_) => ("tuple".into(), f.as_u32().to_string()),
                        ty::Closure(d, _) => (format!("closure {}", id(tcx, *d)), f.as_u32().to_string()),
                        _ => ("?".into(), f.as_u32().to_string()),
                    };
                    format!("[\"field\",{},{},{}]", f.as_u32(), js(&name), js(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"cidx\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() { ty::Adt(def, _) => def.variant(v).name.to_string(), _ => v.as_u32().to_string() };
                    format!("[\"downcast\",{}]", js(&name))
                }
                o => format!("[\"proj\",{}]", js(&format!("{:?}", o))),
            };
            proj.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        format!("[{},{},{}]", p.local.as_u32(), arr(proj), self.ty(pt.ty))
    }
    fn fndef(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"path\":{},\"args\":{}", js(&path(tcx, d)), self.args(args));
        let _ = write!(s, ",\"name\":{}", js(tcx.item_name(d).as_str()));
        if let Some(t) = tcx.trait_of_assoc(d) { let _ = write!(s, ",\"trait\":{}", js(&path(tcx, t))); }
        if d.is_local() && !tcx.is_foreign_item(d) { let _ = write!(s, ",\"id\":{}", js(&id(tcx, d))); }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, variant) = if tcx.def_kind(parent) == DefKind::Variant { (tcx.parent(parent), tcx.item_name(parent).to_string()) } else { (parent, tcx.item_name(parent).to_string()) };
            let _ = write!(s, ",\"ctor\":[{},{}]", js(&path(tcx, adt)), js(&variant));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity();
            let _ = write!(s, ",\"self\":{}", self.ty(st.skip_norm_wip()));
        }
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
            let rd = inst.def_id();
            let kind = match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", _ => "shim" };
            let _ = write!(s, ",\"rkind\":{},\"rpath\":{}", js(kind), js(&path(tcx, rd)));
            if rd.is_local() && kind == "item" { let _ = write!(s, ",\"rid\":{}", js(&id(tcx, rd))); }
        }
        s.push('}');
        s
    }
    fn constant(&self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("[\"fn\",{}]", self.fndef(*d, args.skip_binder()));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("[\"promoted\",{},{},{}]", js(&id(tcx, u.def)), p.as_u32(), self.ty(t));
            }
        }
        let tyj = self.ty(t);
        let named = if let Const::Unevaluated(u, _) = c { Some(path(tcx, u.def)) } else { None };
        let nm = opt(named.map(|n| js(&n)));
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(tcx, self.env) {
                let v: i128 = match t.kind() {
                    ty::Int(_) => {
                        let size = tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bits()).unwrap_or(64);
                        if size >= 128 { b as i128 } else { ((b << (128 - size)) as i128) >> (128 - size) }
                    }
                    _ => b as i128,
                };
                return format!("[\"lit\",{},{},{}]", js(&v.to_string()), tyj, nm);
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("[\"lit\",{},{},{}]", js(&format!("\"{}\"", String::from_utf8_lossy(b))), tyj, nm);
                    }
                }
            }
        }
        if let ty::Adt(def, _) = t.kind() {
            if def.is_enum() || def.is_struct() {
                // field-less enum constants
                if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                    if let Some(ct) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        if let Some(vi) = ct.variant {
                            if ct.fields.is_empty() {
                                return format!("[\"variant\",{},{},{}]", js(&path(tcx, def.did())), js(def.variant(vi).name.as_str()), tyj);
                            }
                        }
                    }
                }
            }
        }
        let item = if let Const::Unevaluated(u, _) = c { if u.def.is_local() { Some(js(&id(tcx, u.def))) } else { None } } else { None };
        format!("[\"opaque\",{},{},{},{}]", js(&format!("{}", c)), tyj, nm, opt(item))
    }
    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, *p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_)),
            #[allow(unreachable_patterns)]
            o => format!("[\"const\",[\"lit\",\"1\",[\"bool\"],{}]]", js(&format!("{:?}", o))),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(body, o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, *p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(body, o), self.ty(*t)),
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), self.operand(body, a), self.operand(body, b), self.ty(a.ty(body, tcx)))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(body, a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut vs = vec![];
                let mut adt = String::from("?");
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        adt = path(tcx, def.did());
                        for (vi, d) in def.discriminants(tcx) {
                            vs.push(format!("[{},{}]", js(&d.val.to_string()), js(def.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(body, *p), js(&adt), arr(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.operand(body, o)));
                let kind = match &**k {
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<String> = match active { Some(f) => vec![js(vd.fields[*f].name.as_str())], None => vd.fields.iter().map(|f| js(f.name.as_str())).collect() };
                        format!("[\"adt\",{},{},{},{}]", js(&path(tcx, *d)), js(vd.name.as_str()), arr(names), def.is_enum())
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&id(tcx, *d))),
                    o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},{}]", kind, ops)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, *p)),
            o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
        }
    }
    fn term(&self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        let b = |x: BasicBlock| x.as_u32();
        let k = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", b(*target)),
            TerminatorKind::SwitchInt { discr, targets } => format!(
                "\"k\":\"switch\",\"d\":{},\"ty\":{},\"c\":{},\"o\":{}",
                self.operand(body, discr),
                self.ty(discr.ty(body, self.tcx)),
                arr(targets.iter().map(|(v, t)| format!("[{},{}]", js(&v.to_string()), b(t)))),
                b(targets.otherwise())
            ),
            TerminatorKind::Return => "\"k\":\"return\"".into(),
            TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"k\":\"resume\"".into(),
            TerminatorKind::Drop { place, target, .. } => format!("\"k\":\"drop\",\"p\":{},\"t\":{}", self.place(body, *place), b(*target)),
            TerminatorKind::Call { func, args, destination, target, .. } => format!(
                "\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{}",
                self.operand(body, func),
                arr(args.iter().map(|a| self.operand(body, &a.node))),
                self.place(body, *destination),
                opt(target.map(|x| b(x).to_string()))
            ),
            TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                "\"k\":\"assert\",\"c\":{},\"e\":{},\"t\":{},\"m\":{}",
                self.operand(body, cond), expected, b(*target),
                js(&format!("{:?}", msg).chars().take(60).collect::<String>())
            ),
            TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", b(*real_target)),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", b(*real_target)),
            o => format!("\"k\":\"other\",\"x\":{}", js(&format!("{:?}", o))),
        };
        format!("{{{},\"s\":{}}}", k, sp)
    }
    fn body(&self, body: &Body<'tcx>) -> String {
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = Some(v.name.to_string()); }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(l, d)| {
            format!("[{},{}]", self.ty(d.ty), opt(names[l.as_usize()].as_ref().map(|n| js(n))))
        }));
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !p.projection.is_empty() && p.local.as_u32() == 1 {
                    upv.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, *p)));
                }
            }
        }
        let blocks = arr(body.basic_blocks.iter().map(|bb| {
            let stmts = arr(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(pr) => {
                    let (p, r) = &**pr;
                    Some(format!("[{},{},{}]", self.place(body, *p), self.rvalue(body, r), self.span(s.source_info.span)))
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let t = place.ty(body, self.tcx).ty;
                    let n = match t.kind() { ty::Adt(d, _) => d.variant(*variant_index).name.to_string(), _ => "?".into() };
                    Some(format!("[{},[\"setdiscr\",{}],{}]", self.place(body, **place), js(&n), self.span(s.source_info.span)))
                }
                StatementKind::StorageDead(l) => {
                    Some(format!("[{},[\"dead\"],{}]", self.place(body, (*l).into()), self.span(s.source_info.span)))
                }
                _ => None,
            }));
            format!("{{\"s\":{},\"t\":{},\"c\":{}}}", stmts, self.term(body, bb.terminator()), bb.is_cleanup)
        }));
        format!("\"argc\":{},\"locals\":{},\"upv\":{},\"blocks\":{}", body.arg_count, locals, arr(upv), blocks)
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let file = format!("{}/{}.jsonl", out, crate_name);
    let mut w = std::io::BufWriter::new(std::fs::File::create(&file).unwrap());
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let dd = D { tcx, env, def: d };
        if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let pr = tcx.promoted_mir(d);
            writeln!(w, "{{\"const\":true,\"id\":{},\"path\":{},{},\"promoted\":{}}}", js(&id(tcx, d)), js(&path(tcx, d)),
                dd.body(tcx.mir_for_ctfe(d)), arr(pr.iter().map(|b| format!("{{{}}}", dd.body(b))))).unwrap();
            continue;
        }
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
        let body = tcx.optimized_mir(d);
        let mut s = format!("{{\"id\":{},\"path\":{},\"kind\":{}", js(&id(tcx, d)), js(&path(tcx, d)), js(&format!("{:?}", kind)));
        if kind != DefKind::Closure { let _ = write!(s, ",\"name\":{}", js(tcx.item_name(d).as_str())); }
        else { let _ = write!(s, ",\"parent\":{}", js(&id(tcx, tcx.parent(d)))); }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"self\":{}", dd.ty(st));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"trait\":{}", js(&path(tcx, tr.def_id)));
            }
            if tcx.is_automatically_derived(imp) { s.push_str(",\"derived\":true"); }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait_default\":{}", js(&path(tcx, t)));
        }
        if kind != DefKind::Closure {
            let _ = write!(s, ",\"vis\":{}", tcx.visibility(d).is_public());
        }
        let _ = write!(s, ",\"span\":{}", dd.span(tcx.def_span(d)));
        let _ = write!(s, ",{}", dd.body(body));
        let pr = tcx.promoted_mir(d);
        let _ = write!(s, ",\"promoted\":{}", arr(pr.iter().map(|b| format!("{{{}}}", dd.body(b)))));
        s.push('}');
        let _ = dd.def;
        writeln!(w, "{}", s).unwrap();
    }
    // ADT table
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let def = tcx.adt_def(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let dd = D { tcx, env, def: d };
            let vs = arr(def.variants().iter().map(|v| {
                format!("[{},{}]", js(v.name.as_str()), arr(v.fields.iter().map(|f| format!("[{},{},{}]", js(f.name.as_str()), dd.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), f.vis.is_public()))))
            }));
            writeln!(w, "{{\"adt\":{},\"enum\":{},\"span\":{},\"vis\":{},\"variants\":{}}}", js(&path(tcx, d)), def.is_enum(), dd.span(tcx.def_span(d)), tcx.visibility(d).is_public(), vs).unwrap();
        }
        if let DefKind::Impl { .. } = tcx.def_kind(d) {
            let env = TypingEnv::post_analysis(tcx, d);
            let dd = D { tcx, env, def: d };
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tr = tcx.impl_opt_trait_ref(d).map(|t| js(&path(tcx, t.instantiate_identity().skip_norm_wip().def_id)));
            let items = arr(tcx.associated_items(d).in_definition_order().map(|i| js(&i.name().to_string())));
            writeln!(w, "{{\"impl\":{},\"self\":{},\"trait\":{},\"derived\":{},\"items\":{},\"span\":{}}}", js(&id(tcx, d)), dd.ty(st), opt(tr), tcx.is_automatically_derived(d), items, dd.span(tcx.def_span(d))).unwrap();
        }
    }
}
