// MIR extractor: compiled against rustc_private of the pinned nightly, used as
// RUSTC_WORKSPACE_WRAPPER.  For the crate `funspace` it dumps an item inventory,
// for the crate `witness` it dumps the MIR of every function instance of
// funspace/witness that is reachable from the public functions of `witness`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Instance<'tcx>>,
    instidx: HashMap<(Instance<'tcx>, Option<u32>), usize>,
    queue: Vec<(Instance<'tcx>, Option<u32>, usize)>,
    bodies: Vec<String>,
    adts: HashMap<DefId, ()>,
    adtout: Vec<String>,
    next: usize,
}

fn local_crate_name(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let n = tcx.crate_name(d.krate);
    let n = n.as_str();
    n == "funspace" || n == "witness"
}

impl<'tcx> Dump<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.tyidx.insert(t, i);
        let tcx = self.tcx;
        let s = match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&t.to_string()))
            }
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                if self.adts.insert(def.did(), ()).is_none() {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| esc(f.name.as_str()))
                            .collect();
                        vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                    }
                    let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                    self.adtout.push(format!(
                        "{}:{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}",
                        esc(&self.path(def.did())), kind, local_crate_name(tcx, def.did()), vs.join(",")
                    ));
                }
                // field types of local structs (single variant), instantiated
                let mut ft = String::new();
                if def.is_struct() && local_crate_name(tcx, def.did()) {
                    let fs: Vec<String> = def
                        .non_enum_variant()
                        .fields
                        .iter()
                        .map(|f| {
                            let fty = tcx.normalize_erasing_regions(self.env(), f.ty(tcx, args));
                            self.ty(fty).to_string()
                        })
                        .collect();
                    ft = format!(",\"fty\":[{}]", fs.join(","));
                } else if def.is_enum() && local_crate_name(tcx, def.did()) {
                    let mut vv = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let fty = tcx.normalize_erasing_regions(self.env(), f.ty(tcx, args));
                            self.ty(fty).to_string()
                        }).collect();
                        vv.push(format!("[{}]", fs.join(",")));
                    }
                    ft = format!(",\"vty\":[{}]", vv.join(","));
                }
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"a\":[{}],\"s\":{}{}}}",
                    esc(&self.path(def.did())), a.join(","), esc(&t.to_string()), ft
                )
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(x);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(x);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::Slice(x) => {
                let x = self.ty(x);
                format!("{{\"k\":\"slice\",\"t\":{}}}", x)
            }
            ty::Array(x, n) => {
                let x = self.ty(x);
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", x, n)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", a.join(","))
            }
            ty::Closure(d, args) => {
                let inst = Instance::resolve_closure(tcx, d, args, args.as_closure().kind());
                let id = self.inst(inst, None);
                format!(
                    "{{\"k\":\"closure\",\"n\":{},\"i\":{},\"s\":{}}}",
                    esc(&self.path(d)), id, esc(&t.to_string())
                )
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let (p, id, tr) = self.callee(d, args);
                format!("{{\"k\":\"fndef\",\"n\":{},\"i\":{},\"tr\":{}}}", esc(&p), id, esc(&tr))
            }
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&t.to_string())),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&t.to_string())),
        };
        self.tys[i] = s;
        i
    }

    fn is_dumpable(&self, inst: &Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                local_crate_name(self.tcx, d) && (if state_init(self.tcx, d) { d.is_local() } else { self.tcx.is_mir_available(d) })
            }
            _ => false,
        }
    }

    fn inst(&mut self, inst: Instance<'tcx>, promoted: Option<u32>) -> i64 {
        if !self.is_dumpable(&inst) {
            return -1;
        }
        let key = (inst, promoted);
        if let Some(i) = self.instidx.get(&key) {
            return *i as i64;
        }
        let id = self.next;
        self.next += 1;
        self.instidx.insert(key, id);
        self.insts.push(inst);
        self.queue.push((inst, promoted, id));
        id as i64
    }

    /// (path of the resolved function, instance id or -1, trait method path or "")
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (String, i64, String) {
        let tcx = self.tcx;
        let decl = self.path(d);
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(inst)) => {
                let id = self.inst(inst, None);
                if id < 0 {
                    // blanket conversions: the implementation they forward to
                    let to = match decl.as_str() {
                        "std::convert::Into::into" => Some(("From", "from")),
                        "std::convert::TryInto::try_into" => Some(("TryFrom", "try_from")),
                        _ => None,
                    };
                    if let Some((tr, m)) = to {
                        let tr = tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr));
                        let it = tr.and_then(|tr| {
                            tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == m).map(|x| x.def_id)
                        });
                        if let (Some(it), true) = (it, args.len() == 2) {
                            let a2 = tcx.mk_args(&[args[1], args[0]]);
                            if let Ok(Some(i2)) = Instance::try_resolve(tcx, self.env(), it, a2) {
                                let id2 = self.inst(i2, None);
                                if id2 >= 0 {
                                    return (tcx.def_path_str_with_args(i2.def_id(), i2.args), id2, tcx.def_path_str(it));
                                }
                            }
                        }
                    }
                }
                let p = tcx.def_path_str_with_args(inst.def_id(), inst.args);
                let virt = matches!(inst.def, InstanceKind::Virtual(..));
                (p, id, if virt { format!("dyn {}", decl) } else { decl })
            }
            _ => (tcx.def_path_str_with_args(d, args), -1, decl),
        }
    }

    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let a = sm.lookup_char_pos(s.lo());
        let f = a.file.name.prefer_remapped_unconditionally().to_string();
        let f = match f.find("src/") {
            Some(k) if !f.contains(".cargo") && !f.contains("rustlib") => f[k..].to_string(),
            _ => f,
        };
        format!("{}:{}", f, a.line)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_u32(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"d\",{}]", v.as_u32());
                }
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap();
            let (p, id, tr) = self.callee(d, args);
            return format!("{{\"c\":\"fn\",\"n\":{},\"i\":{},\"tr\":{}}}", esc(&p), id, esc(&tr));
        }
        let tid = self.ty(t);
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                // promoted bodies of local functions are dumped as functions
                let inst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                let id = self.inst(inst, Some(p.as_u32()));
                if id >= 0 {
                    return format!("{{\"c\":\"prom\",\"i\":{},\"t\":{}}}", id, tid);
                }
            }
            name = self.path(u.def);
        }
        let v = c.const_.eval(tcx, self.env(), c.span);
        if let Ok(ConstValue::Scalar(interpret::Scalar::Ptr(p, _))) = v {
            if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                let st = tcx.erase_and_anonymize_regions(st);
                return format!("{{\"c\":\"static\",\"n\":{},\"t\":{},\"frozen\":{}}}", esc(&self.path(d)), tid,
                    !tcx.is_mutable_static(d) && st.is_freeze(tcx, self.env()));
            }
        }
        match v {
            Ok(ConstValue::Scalar(interpret::Scalar::Int(s))) => {
                let bits = s.to_bits(s.size());
                let txt = match *t.kind() {
                    ty::Float(ty::FloatTy::F64) => format!("{:?}", f64::from_bits(bits as u64)),
                    ty::Float(ty::FloatTy::F32) => format!("{:?}", f32::from_bits(bits as u32)),
                    ty::Int(_) => s.to_int(s.size()).to_string(),
                    _ => bits.to_string(),
                };
                format!("{{\"c\":\"val\",\"v\":{},\"t\":{},\"n\":{}}}", esc(&txt), tid, esc(&name))
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"c\":\"zst\",\"t\":{},\"n\":{}}}", tid, esc(&name)),
            Ok(ConstValue::Slice { .. }) => {
                format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", esc(&format!("{}", c.const_)), tid)
            }
            _ => format!("{{\"c\":\"opaque\",\"v\":{},\"t\":{},\"n\":{}}}", esc(&format!("{:?}", c.const_)), tid, esc(&name)),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            _ => "{\"o\":\"rtc\"}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }), self.place(p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"r\":\"rawptr\",\"k\":{},\"p\":{}}}", esc(&format!("{:?}", k)), self.place(p)
            ),
            Rvalue::Cast(k, o, t) => {
                let src = match o {
                    Operand::Constant(c) => self.ty(c.const_.ty()) as i64,
                    _ => -1,
                };
                let t = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{},\"src\":{}}}", esc(&format!("{:?}", k)), self.operand(o), t, src)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(&b.0), self.operand(&b.1)
            ),
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"cp\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"cp\",\"p\":{}}},\"rb\":{}}}", self.place(p), m.is_mut()),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match **k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(self.env(), t);
                        let t = self.ty(t);
                        format!("\"adt\",\"n\":{},\"v\":{},\"t\":{}", esc(&self.path(d)), v.as_u32(), t)
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::resolve_closure(self.tcx, d, args, args.as_closure().kind());
                        let id = self.inst(inst, None);
                        format!("\"closure\",\"i\":{}", id)
                    }
                    _ => "\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"a\":[{}]}}", kk, os.join(","))
            }
            _ => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, promoted: Option<u32>, id: usize) -> String {
        let tcx = self.tcx;
        let body: Body<'tcx> = match promoted {
            Some(p) => tcx.promoted_mir(inst.def_id())[Promoted::from_u32(p)].clone(),
            None if state_init(tcx, inst.def_id()) => tcx.mir_for_ctfe(inst.def_id()).clone(),
            None => tcx.instance_mir(inst.def).clone(),
        };
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx, self.env(), ty::EarlyBinder::bind(tcx, body),
        );
        let mut o = String::new();
        let name = tcx.def_path_str_with_args(inst.def_id(), inst.args);
        let base = self.path(inst.def_id());
        let _ = write!(
            o,
            "{{\"id\":{},\"name\":{},\"base\":{},\"crate\":{},\"promoted\":{},\"span\":{},\"args\":{},\"spread\":{},\"closure\":{},",
            id, esc(&name), esc(&base), esc(tcx.crate_name(inst.def_id().krate).as_str()), promoted.map(|p| p as i64).unwrap_or(-1),
            esc(&self.span(body.span)), body.arg_count, body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1),
            tcx.is_closure_like(inst.def_id())
        );
        let ls: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(o, "\"locals\":[{}],", ls.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, "\"names\":{{{}}},\"blocks\":[", names.join(","));
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(b) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", b))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    format!("{{\"t\":\"switch\",\"d\":{},\"dt\":{},\"v\":[{}],\"else\":{}}}", d, dt, v.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::Drop { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let fty = func.ty(&body.local_decls, tcx);
                    let (uns, ga) = match *fty.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.no_bound_vars().unwrap();
                            let g: Vec<String> = ga.types().map(|x| self.ty(x).to_string()).collect();
                            (!tcx.fn_sig(d).skip_binder().safety().is_safe(), g.join(","))
                        }
                        _ => (false, String::new()),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(destination);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"ga\":[{}],\"d\":{},\"dt\":{},\"to\":{},\"unsafe\":{}}}",
                        f, a.join(","), at.join(","), ga, d, dty, target.map(|b| b.as_u32() as i64).unwrap_or(-1), uns
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("\"bounds\",\"x\":[{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertKind::Overflow(op, a, b) => {
                            format!("\"overflow\",\"op\":\"{:?}\",\"x\":[{},{}]", op, self.operand(a), self.operand(b))
                        }
                        AssertKind::OverflowNeg(a) => format!("\"neg\",\"x\":[{}]", self.operand(a)),
                        AssertKind::DivisionByZero(a) => format!("\"div0\",\"x\":[{}]", self.operand(a)),
                        AssertKind::RemainderByZero(a) => format!("\"rem0\",\"x\":[{}]", self.operand(a)),
                        _ => "\"other\"".to_string(),
                    };
                    format!("{{\"t\":\"assert\",\"c\":{},\"e\":{},\"k\":{},\"to\":{}}}", c, expected, k, target.as_u32())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"unreachable\"}".to_string(),
                _ => format!("{{\"t\":\"other\",\"s\":{}}}", esc(&format!("{:?}", t.kind))),
            };
            let _ = write!(o, "{{\"s\":[{}],\"term\":{},\"sp\":{}}}", st.join(","), ts, esc(&self.span(t.source_info.span)));
        }
        o.push_str("]}");
        o
    }
}

/// items whose body is the initial content of global state
fn state_init(tcx: TyCtxt<'_>, d: DefId) -> bool {
    match tcx.def_kind(d) {
        DefKind::Static { .. } => true,
        DefKind::Const { .. } => tcx.opt_item_name(d).map(|n| n.as_str() == "__RUST_STD_INTERNAL_INIT").unwrap_or(false),
        _ => false,
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
}

fn dump_witness(tcx: TyCtxt<'_>, out: &str) {
    let mut d = Dump {
        tcx, tys: vec![], tyidx: HashMap::new(), insts: vec![], instidx: HashMap::new(), queue: vec![],
        bodies: vec![], adts: HashMap::new(), adtout: vec![], next: 0,
    };
    let mut roots = vec![];
    for did in tcx.mir_keys(()).iter() {
        let did = did.to_def_id();
        if tcx.def_kind(did) != DefKind::Fn {
            continue;
        }
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        let inst = Instance::new_raw(did, ty::GenericArgs::identity_for_item(tcx, did));
        let inst = tcx.erase_and_anonymize_regions(inst);
        let id = d.inst(inst, None);
        roots.push(format!("{}:{}", esc(&tcx.def_path_str(did)), id));
    }
    // private generic solvers of the analysed crate
    let f64t = tcx.types.f64;
    let mut cty = None;
    for did in tcx.mir_keys(()).iter() {
        let did = did.to_def_id();
        if tcx.def_kind(did) == DefKind::Fn && tcx.def_path_str(did) == "ctype" {
            cty = Some(tcx.fn_sig(did).instantiate_identity().skip_normalization().skip_binder().inputs()[0]);
        }
    }
    for &krate in tcx.crates(()).iter() {
        if tcx.crate_name(krate).as_str() != "funspace" {
            continue;
        }
        let mut mods = vec![krate.as_def_id()];
        while let Some(m) = mods.pop() {
            for ch in tcx.module_children(m).iter() {
                let Some(cd) = ch.res.opt_def_id() else { continue };
                if cd.krate != krate || tcx.opt_parent(cd) != Some(m) {
                    continue;
                }
                match tcx.def_kind(cd) {
                    DefKind::Mod => mods.push(cd),
                    DefKind::Fn => {
                        let path = tcx.def_path_str(cd);
                        if !path.contains("::linalg::") {
                            continue;
                        }
                        let g = tcx.generics_of(cd);
                        let nt = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
                        for (tag, last) in [("f", Some(f64t)), ("c", cty)] {
                            let Some(last) = last else { continue };
                            let mut k = 0;
                            let args = ty::GenericArgs::for_item(tcx, cd, |p, _| match p.kind {
                                ty::GenericParamDefKind::Type { .. } => {
                                    k += 1;
                                    if k == nt { last.into() } else { f64t.into() }
                                }
                                _ => tcx.lifetimes.re_erased.into(),
                            });
                            let inst = Instance::new_raw(cd, args);
                            let id = d.inst(inst, None);
                            if id >= 0 {
                                let short = path.rsplit("::").next().unwrap().to_string();
                                roots.push(format!("{}:{}", esc(&format!("p::{}::{}", tag, short)), id));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    while let Some((i, p, id)) = d.queue.pop() {
        let s = d.body(i, p, id);
        d.bodies.push(s);
    }
    // sharing across threads of the types the operations are called on
    let mut autos = vec![];
    let mut list: Vec<Ty<'_>> = d.tyidx.keys().copied().collect();
    list.sort_by_key(|t| d.tyidx[t]);
    for t in list {
        let ty::Adt(def, _) = *t.kind() else { continue };
        if tcx.crate_name(def.did().krate).as_str() != "funspace" {
            continue;
        }
        let env = d.env();
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send).map(|x| implements(tcx, env, t, x));
        let sync = tcx.lang_items().sync_trait().map(|x| implements(tcx, env, t, x));
        autos.push(format!("{{\"t\":{},\"send\":{},\"sync\":{},\"freeze\":{}}}", esc(&t.to_string()),
            send.unwrap_or(false), sync.unwrap_or(false), t.is_freeze(tcx, env)));
    }
    let txt = format!(
        "{{\"roots\":{{{}}},\n\"auto\":[{}],\n\"types\":[{}],\n\"adts\":{{{}}},\n\"bodies\":[\n{}\n]}}\n",
        roots.join(","), autos.join(","), d.tys.join(","), d.adtout.join(","), d.bodies.join(",\n")
    );
    std::fs::write(out, txt).unwrap();
}

/// initial contents of the global state of the analysed crate
fn dump_state(tcx: TyCtxt<'_>, out: &str) {
    let mut d = Dump {
        tcx, tys: vec![], tyidx: HashMap::new(), insts: vec![], instidx: HashMap::new(), queue: vec![],
        bodies: vec![], adts: HashMap::new(), adtout: vec![], next: 0,
    };
    let mut roots = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        let init = state_init(tcx, did)
            || (tcx.def_kind(did) == DefKind::Fn && tcx.opt_item_name(did).map(|n| n.as_str() == "__rust_std_internal_init_fn").unwrap_or(false));
        if !init || tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        let inst = Instance::new_raw(did, ty::GenericArgs::identity_for_item(tcx, did));
        let inst = tcx.erase_and_anonymize_regions(inst);
        let id = d.inst(inst, None);
        if id >= 0 {
            roots.push(format!("{}:{}", esc(&tcx.def_path_str(did)), id));
        }
    }
    while let Some((i, p, id)) = d.queue.pop() {
        let s = d.body(i, p, id);
        d.bodies.push(s);
    }
    let txt = format!(
        "{{\"roots\":{{{}}},\n\"types\":[{}],\n\"adts\":{{{}}},\n\"bodies\":[\n{}\n]}}\n",
        roots.join(","), d.tys.join(","), d.adtout.join(","), d.bodies.join(",\n")
    );
    std::fs::write(out, txt).unwrap();
}

fn dump_inventory(tcx: TyCtxt<'_>, out: &str) {
    use rustc_hir as hir;
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'tcx> {
        n: usize,
        _t: std::marker::PhantomData<&'tcx ()>,
    }
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
            if matches!(b.rules, hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided)) {
                self.n += 1;
            }
            intravisit::walk_block(self, b);
        }
    }
    let sm = tcx.sess.source_map();
    let mut fns = vec![];
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const{..} | DefKind::Static { .. }) {
            continue;
        }
        let mut v = V { n: 0, _t: std::marker::PhantomData };
        if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
            v.visit_body(b);
        }
        let (uns, is_const) = match kind {
            DefKind::Fn | DefKind::AssocFn => (!tcx.fn_sig(did).skip_binder().safety().is_safe(), false),
            _ => (false, true),
        };
        let vis = tcx.effective_visibilities(()).is_reachable(ld);
        let sp = sm.lookup_char_pos(tcx.def_span(did).lo());
        let f = sp.file.name.prefer_remapped_unconditionally().to_string();
        let f = f.rfind("src/").map(|k| f[k..].to_string()).unwrap_or(f);
        fns.push(format!(
            "{{\"path\":{},\"kind\":{},\"unsafe_fn\":{},\"unsafe_blocks\":{},\"reachable\":{},\"file\":{},\"line\":{},\"c\":{}}}",
            esc(&tcx.def_path_str(did)), esc(&format!("{:?}", kind)), uns, v.n, vis, esc(&f), sp.line, is_const
        ));
    }
    let mut items = vec![];
    let mut seen = BTreeSet::new();
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Static { mutability, .. } => {
                items.push(format!("{{\"k\":\"static\",\"mut\":{},\"path\":{},\"ty\":{}}}", mutability.is_mut(), esc(&tcx.def_path_str(did)),
                  esc(&tcx.type_of(did).skip_binder().to_string())));
            }
            DefKind::Impl { .. } => {
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.skip_binder();
                    let h = tcx.impl_trait_header(did);
                    items.push(format!(
                        "{{\"k\":\"impl\",\"unsafe\":{},\"trait\":{},\"self\":{}}}",
                        !h.safety.is_safe(), esc(&tcx.def_path_str(tr.def_id)), esc(&tr.self_ty().to_string())
                    ));
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let vis = tcx.effective_visibilities(()).is_reachable(id.owner_id.def_id);
                let mut fs = vec![];
                for v in def.variants() {
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).skip_binder();
                        // walk the type for interior mutability / raw pointers
                        let mut bad = vec![];
                        for a in t.walk() {
                            if let Some(x) = a.as_type() {
                                match x.kind() {
                                    ty::Adt(d, _) => {
                                        seen.insert(tcx.def_path_str(d.did()));
                                        bad.push(tcx.def_path_str(d.did()));
                                    }
                                    ty::RawPtr(..) => bad.push("*ptr".to_string()),
                                    ty::Dynamic(..) => bad.push(format!("dyn {}", x)),
                                    ty::FnPtr(..) => bad.push("fnptr".to_string()),
                                    _ => {}
                                }
                            }
                        }
                        let b: Vec<String> = bad.iter().map(|s| esc(s)).collect();
                        fs.push(format!("{{\"n\":{},\"pub\":{},\"ty\":{},\"uses\":[{}]}}", esc(f.name.as_str()), f.vis.is_public(), esc(&t.to_string()), b.join(",")));
                    }
                }
                items.push(format!("{{\"k\":\"adt\",\"path\":{},\"reachable\":{},\"fields\":[{}]}}", esc(&tcx.def_path_str(did)), vis, fs.join(",")));
            }
            _ => {}
        }
    }
    std::fs::write(out, format!("{{\"fns\":[\n{}\n],\"items\":[\n{}\n]}}\n", fns.join(",\n"), items.join(",\n"))).unwrap();
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
        if !dir.is_empty() {
            rustc_middle::ty::print::with_no_trimmed_paths!(match name.as_str() {
                "witness" => dump_witness(tcx, &format!("{}/witness.json", dir)),
                "funspace" => {
                    dump_inventory(tcx, &format!("{}/funspace.json", dir));
                    dump_state(tcx, &format!("{}/state.json", dir));
                }
                _ => {}
            });
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper convention: mirdump rustc args...
    let real = if args.len() > 1 && args[1].ends_with("rustc") { Some(args.remove(1)) } else { None };
    let is = |n: &str| args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == n);
    let ours = is("funspace") || is("witness");
    if let (false, Some(r)) = (ours, real) {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(r).args(&args[1..]).exec();
        panic!("{}", e);
    }
    if ours {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Awarnings".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    if code != std::process::ExitCode::SUCCESS {
        std::process::exit(1);
    }
}
