//! Dumps the typed, resolved IR (THIR) of a workspace crate as JSON, for the value-flow analyzer.
//! Used as RUSTC_WORKSPACE_WRAPPER; behaves as rustc otherwise.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_ast::LitKind;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{BinOp, BorrowKind, UnOp};
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    owner: LocalDefId,
}

fn s(x: impl ToString) -> J {
    J::Str(x.to_string())
}
fn n(x: usize) -> J {
    J::Num(x as i64)
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}

impl<'tcx> Dumper<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!(
            "{}:{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line,
            lo.col.0 + 1
        ))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tyidx.get(&t) {
            return n(*i);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let j = self.ty_inner(t);
        self.types[i] = j;
        n(i)
    }
    fn ty_args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<Ty<'tcx>> = a.types().collect();
        J::Arr(v.into_iter().map(|t| self.ty(t)).collect())
    }
    fn ty_inner(&mut self, t: Ty<'tcx>) -> J {
        let st = with_no_trimmed_paths!(t.to_string());
        let mut v = vec![("s", s(st))];
        match *t.kind() {
            ty::Adt(d, a) => {
                v.push(("k", s("adt")));
                v.push(("key", s(self.key(d.did()))));
                v.push(("path", s(self.path(d.did()))));
                let a = self.ty_args(a);
                v.push(("args", a));
            }
            ty::Ref(_, x, m) => {
                v.push(("k", s("ref")));
                v.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(x);
                v.push(("to", x));
            }
            ty::RawPtr(x, m) => {
                v.push(("k", s("ptr")));
                v.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(x);
                v.push(("to", x));
            }
            ty::Slice(x) => {
                v.push(("k", s("slice")));
                let x = self.ty(x);
                v.push(("to", x));
            }
            ty::Array(x, c) => {
                v.push(("k", s("array")));
                let x = self.ty(x);
                v.push(("to", x));
                if let Some(c) = c.try_to_target_usize(self.tcx) {
                    v.push(("len", n(c as usize)));
                }
            }
            ty::Tuple(xs) => {
                v.push(("k", s("tuple")));
                let a = xs.iter().map(|x| self.ty(x)).collect();
                v.push(("args", J::Arr(a)));
            }
            ty::Closure(d, _) => {
                v.push(("k", s("closure")));
                v.push(("key", s(self.key(d))));
            }
            ty::FnDef(d, _) => {
                v.push(("k", s("fndef")));
                v.push(("key", s(self.key(d))));
                v.push(("path", s(self.path(d))));
            }
            ty::FnPtr(..) => {
                v.push(("k", s("fnptr")));
            }
            ty::Param(p) => {
                v.push(("k", s("param")));
                v.push(("name", s(p.name)));
            }
            ty::Dynamic(..) => {
                v.push(("k", s("dyn")));
            }
            ty::Never => {
                v.push(("k", s("never")));
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                v.push(("k", s("prim")));
            }
            _ => {
                v.push(("k", s("other")));
            }
        }
        obj(v)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut v = vec![("key", s(self.key(d))), ("path", s(self.path(d)))];
        let a = self.ty_args(args);
        v.push(("targs", a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(tr))));
            if matches!(tcx.def_kind(d), DefKind::AssocFn) {
                let env = TypingEnv::post_analysis(tcx, self.owner);
                let eargs = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                    let rd = inst.def_id();
                    if rd != d {
                        v.push(("rkey", s(self.key(rd))));
                        v.push(("rpath", s(self.path(rd))));
                        v.push(("rlocal", J::Bool(rd.is_local())));
                    }
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            v.push(("ctor", J::Bool(true)));
        }
        v
    }

    fn pat(&mut self, p: &Pat<'tcx>, th: &Thir<'tcx>) -> J {
        let mut v: Vec<(&str, J)> = vec![];
        let t = self.ty(p.ty);
        v.push(("ty", t));
        match &p.kind {
            PatKind::Wild | PatKind::Missing => v.push(("k", s("Wild"))),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                v.push(("k", s("Bind")));
                v.push(("name", s(name)));
                let br = match mode.0 {
                    rustc_hir::ByRef::No => "no",
                    rustc_hir::ByRef::Yes(_, m) if m.is_mut() => "mut",
                    rustc_hir::ByRef::Yes(..) => "ref",
                };
                v.push(("by", s(br)));
                v.push(("var", s(self.var(*var))));
                if let Some(sp) = subpattern {
                    let x = self.pat(sp, th);
                    v.push(("sub", x));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                v.push(("k", s("Variant")));
                let vd = adt_def.variant(*variant_index);
                v.push(("adt", s(self.path(adt_def.did()))));
                v.push(("variant", s(vd.name)));
                let mut fs = vec![];
                for f in subpatterns {
                    let x = self.pat(&f.pattern, th);
                    fs.push(J::Arr(vec![s(vd.fields[f.field].name), x]));
                }
                v.push(("fields", J::Arr(fs)));
            }
            PatKind::Leaf { subpatterns } => {
                v.push(("k", s("Leaf")));
                let mut fs = vec![];
                for f in subpatterns {
                    let x = self.pat(&f.pattern, th);
                    let name = match p.ty.kind() {
                        ty::Adt(d, _) if d.is_struct() || d.is_enum() => d
                            .variants()
                            .iter()
                            .next()
                            .unwrap()
                            .fields[f.field]
                            .name
                            .to_string(),
                        _ => f.field.as_usize().to_string(),
                    };
                    fs.push(J::Arr(vec![s(name), x]));
                }
                v.push(("fields", J::Arr(fs)));
            }
            PatKind::Deref { subpattern, .. } => {
                v.push(("k", s("Deref")));
                let x = self.pat(subpattern, th);
                v.push(("sub", x));
            }
            PatKind::DerefPattern { subpattern, .. } => {
                v.push(("k", s("Deref")));
                let x = self.pat(subpattern, th);
                v.push(("sub", x));
            }
            PatKind::Constant { value } => {
                v.push(("k", s("Const")));
                v.push(("val", s(format!("{}", value))));
            }
            PatKind::Range(r) => {
                v.push(("k", s("Range")));
                v.push(("val", s(format!("{}", r))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                v.push(("k", s("Slice")));
                let a = prefix.iter().map(|x| self.pat(x, th)).collect();
                v.push(("prefix", J::Arr(a)));
                if let Some(x) = slice {
                    let x = self.pat(x, th);
                    v.push(("slice", x));
                }
                let a = suffix.iter().map(|x| self.pat(x, th)).collect();
                v.push(("suffix", J::Arr(a)));
            }
            PatKind::Or { pats } => {
                v.push(("k", s("Or")));
                let a = pats.iter().map(|x| self.pat(x, th)).collect();
                v.push(("pats", J::Arr(a)));
            }
            PatKind::Guard { subpattern, condition } => {
                v.push(("k", s("Guard")));
                let x = self.pat(subpattern, th);
                v.push(("sub", x));
                let c = self.expr(*condition, th);
                v.push(("cond", c));
            }
            PatKind::Never => v.push(("k", s("Never"))),
            PatKind::Error(_) => v.push(("k", s("Error"))),
        }
        obj(v)
    }

    fn var(&self, v: LocalVarId) -> String {
        format!("{}#{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
    }

    fn scope_id(&self, sc: rustc_middle::middle::region::Scope) -> String {
        format!("{:?}", sc)
    }

    fn block(&mut self, b: BlockId, th: &Thir<'tcx>) -> J {
        let b = &th[b];
        let mut stmts = vec![];
        for st in b.stmts.iter() {
            match &th[*st].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(*expr, th);
                    stmts.push(obj(vec![("k", s("Expr")), ("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let mut v = vec![("k", s("Let")), ("sp", self.span(*span))];
                    let p = self.pat(pattern, th);
                    v.push(("pat", p));
                    if let Some(i) = initializer {
                        let e = self.expr(*i, th);
                        v.push(("init", e));
                    }
                    if let Some(eb) = else_block {
                        let e = self.block(*eb, th);
                        v.push(("else", e));
                    }
                    stmts.push(obj(v));
                }
            }
        }
        let mut v = vec![("k", s("Block")), ("stmts", J::Arr(stmts))];
        if let Some(e) = b.expr {
            let e = self.expr(e, th);
            v.push(("e", e));
        }
        if b.targeted_by_break {
            v.push(("label", s(self.scope_id(b.region_scope))));
        }
        if let BlockSafety::ExplicitUnsafe(_) = b.safety_mode {
            v.push(("unsafe", J::Bool(true)));
        }
        v.push(("sp", self.span(b.span)));
        obj(v)
    }

    fn expr(&mut self, id: ExprId, th: &Thir<'tcx>) -> J {
        let e = &th[id];
        // transparent wrappers
        match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // remember the scope of loops and labelled blocks: breaks name it
                let mut j = self.expr(*value, th);
                if let J::Obj(v) = &mut j {
                    let is_loop = v.iter().any(|(k, x)| {
                        k == "k" && matches!(x, J::Str(t) if t == "Loop" || t == "Block" || t == "Match")
                    });
                    if is_loop {
                        let sc = self.scope_id(*region_scope);
                        match v.iter_mut().find(|(k, _)| k == "scopes") {
                            Some((_, J::Arr(a))) => a.push(s(sc)),
                            _ => v.push(("scopes".into(), J::Arr(vec![s(sc)]))),
                        }
                    }
                }
                return j;
            }
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => return self.expr(*source, th),
            ExprKind::ByUse { expr, .. } => return self.expr(*expr, th),
            _ => {}
        }
        let t = self.ty(e.ty);
        let mut v: Vec<(&str, J)> = vec![("ty", t), ("sp", self.span(e.span))];
        macro_rules! k {
            ($x:expr) => {
                v.push(("k", s($x)))
            };
        }
        match &e.kind {
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("If");
                v.push(("cond", self.expr(*cond, th)));
                v.push(("then", self.expr(*then, th)));
                if let Some(x) = else_opt {
                    v.push(("else", self.expr(*x, th)));
                }
            }
            ExprKind::Call { ty, fun, args, .. } => {
                k!("Call");
                if let ty::FnDef(d, ga) = *ty.kind() {
                    let ga = ga.no_bound_vars().unwrap_or_else(|| panic!("bound vars in fn def"));
                    let f = self.fnref(d, ga);
                    v.push(("fn", obj(f)));
                } else {
                    v.push(("funexpr", self.expr(*fun, th)));
                }
                let a = args.iter().map(|x| self.expr(*x, th)).collect();
                v.push(("args", J::Arr(a)));
            }
            ExprKind::Deref { arg } => {
                k!("Deref");
                v.push(("e", self.expr(*arg, th)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("Binary");
                v.push(("op", s(format!("{:?}", op))));
                v.push(("l", self.expr(*lhs, th)));
                v.push(("r", self.expr(*rhs, th)));
                let _ = BinOp::Add;
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("Logical");
                v.push(("op", s(format!("{:?}", op))));
                v.push(("l", self.expr(*lhs, th)));
                v.push(("r", self.expr(*rhs, th)));
            }
            ExprKind::Unary { op, arg } => {
                k!("Unary");
                v.push(("op", s(format!("{:?}", op))));
                v.push(("e", self.expr(*arg, th)));
                let _ = UnOp::Neg;
            }
            ExprKind::Cast { source } => {
                k!("Cast");
                v.push(("e", self.expr(*source, th)));
            }
            ExprKind::NeverToAny { source } => {
                k!("NeverToAny");
                v.push(("e", self.expr(*source, th)));
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                k!("Coerce");
                v.push(("cast", s(format!("{:?}", cast))));
                v.push(("e", self.expr(*source, th)));
            }
            ExprKind::Loop { body } => {
                k!("Loop");
                v.push(("body", self.expr(*body, th)));
            }
            ExprKind::Let { expr, pat } => {
                k!("LetCond");
                v.push(("e", self.expr(*expr, th)));
                v.push(("pat", self.pat(pat, th)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("Match");
                v.push(("src", s(format!("{:?}", match_source))));
                v.push(("e", self.expr(*scrutinee, th)));
                let mut a = vec![];
                for arm in arms.iter() {
                    let arm = &th[*arm];
                    let mut o = vec![("pat", self.pat(&arm.pattern, th))];
                    if let Some(g) = arm.guard {
                        o.push(("guard", self.expr(g, th)));
                    }
                    o.push(("body", self.expr(arm.body, th)));
                    a.push(obj(o));
                }
                v.push(("arms", J::Arr(a)));
            }
            ExprKind::Block { block } => {
                let b = self.block(*block, th);
                if let J::Obj(mut bv) = b {
                    bv.retain(|(k, _)| k != "sp");
                    for (k, x) in v {
                        bv.push((k.to_string(), x));
                    }
                    return J::Obj(bv);
                }
                unreachable!()
            }
            ExprKind::Assign { lhs, rhs } => {
                k!("Assign");
                v.push(("l", self.expr(*lhs, th)));
                v.push(("r", self.expr(*rhs, th)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("AssignOp");
                v.push(("op", s(format!("{:?}", op))));
                v.push(("l", self.expr(*lhs, th)));
                v.push(("r", self.expr(*rhs, th)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("Field");
                let lt = th[*lhs].ty;
                let nm = match lt.kind() {
                    ty::Adt(d, _) => d.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_usize().to_string(),
                };
                v.push(("name", s(nm)));
                v.push(("e", self.expr(*lhs, th)));
            }
            ExprKind::Index { lhs, index } => {
                k!("Index");
                v.push(("e", self.expr(*lhs, th)));
                v.push(("i", self.expr(*index, th)));
            }
            ExprKind::VarRef { id } => {
                k!("Var");
                v.push(("var", s(self.var(*id))));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k!("Var");
                v.push(("up", J::Bool(true)));
                v.push(("var", s(self.var(*var_hir_id))));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("Borrow");
                v.push(("mut", J::Bool(matches!(borrow_kind, BorrowKind::Mut { .. }))));
                v.push(("e", self.expr(*arg, th)));
            }
            ExprKind::RawBorrow { arg, .. } => {
                k!("RawBorrow");
                v.push(("e", self.expr(*arg, th)));
            }
            ExprKind::Break { label, value } => {
                k!("Break");
                v.push(("label", s(self.scope_id(*label))));
                if let Some(x) = value {
                    v.push(("e", self.expr(*x, th)));
                }
            }
            ExprKind::Continue { label } => {
                k!("Continue");
                v.push(("label", s(self.scope_id(*label))));
            }
            ExprKind::Return { value } => {
                k!("Return");
                if let Some(x) = value {
                    v.push(("e", self.expr(*x, th)));
                }
            }
            ExprKind::Repeat { value, count } => {
                k!("Repeat");
                v.push(("e", self.expr(*value, th)));
                match count.try_to_target_usize(self.tcx) {
                    Some(c) => v.push(("n", n(c as usize))),
                    None => {}
                }
            }
            ExprKind::Array { fields } => {
                k!("Array");
                let a = fields.iter().map(|x| self.expr(*x, th)).collect();
                v.push(("es", J::Arr(a)));
            }
            ExprKind::Tuple { fields } => {
                k!("Tuple");
                let a = fields.iter().map(|x| self.expr(*x, th)).collect();
                v.push(("es", J::Arr(a)));
            }
            ExprKind::Adt(a) => {
                k!("Adt");
                let vd = a.adt_def.variant(a.variant_index);
                v.push(("adt", s(self.path(a.adt_def.did()))));
                v.push(("enum", J::Bool(a.adt_def.is_enum())));
                v.push(("variant", s(vd.name)));
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let x = self.expr(f.expr, th);
                    fs.push(J::Arr(vec![s(vd.fields[f.name].name), x]));
                }
                v.push(("fields", J::Arr(fs)));
                if let AdtExprBase::Base(fru) = &a.base {
                    v.push(("base", self.expr(fru.base, th)));
                }
            }
            ExprKind::Closure(c) => {
                k!("Closure");
                v.push(("key", s(self.key(c.closure_id.to_def_id()))));
                let a = c.upvars.iter().map(|x| self.expr(*x, th)).collect();
                v.push(("upvars", J::Arr(a)));
            }
            ExprKind::Literal { lit, neg } => {
                k!("Lit");
                match &lit.node {
                    LitKind::Int(x, _) => {
                        v.push(("lk", s("int")));
                        v.push(("v", s(format!("{}{}", if *neg { "-" } else { "" }, x.get()))));
                    }
                    LitKind::Float(x, _) => {
                        v.push(("lk", s("float")));
                        v.push(("v", s(format!("{}{}", if *neg { "-" } else { "" }, x))));
                    }
                    LitKind::Bool(b) => {
                        v.push(("lk", s("bool")));
                        v.push(("v", s(b)));
                    }
                    LitKind::Str(x, _) => {
                        v.push(("lk", s("str")));
                        v.push(("v", s(x)));
                    }
                    LitKind::Char(x) => {
                        v.push(("lk", s("char")));
                        v.push(("v", s(x)));
                    }
                    LitKind::ByteStr(x, _) => {
                        v.push(("lk", s("bytestr")));
                        v.push(("v", s(format!("{:?}", x.as_byte_str()))));
                    }
                    o => {
                        v.push(("lk", s("other")));
                        v.push(("v", s(format!("{:?}", o))));
                    }
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("Lit");
                v.push(("lk", s("bits")));
                v.push(("v", s(format!("{}", lit.to_bits(lit.size())))));
            }
            ExprKind::ZstLiteral { .. } => {
                k!("Zst");
                if let ty::FnDef(d, ga) = *e.ty.kind() {
                    if let Some(ga) = ga.no_bound_vars() {
                        let f = self.fnref(d, ga);
                        v.push(("fn", obj(f)));
                    }
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("Const");
                v.push(("key", s(self.key(*def_id))));
                v.push(("path", s(self.path(*def_id))));
                let env = TypingEnv::post_analysis(self.tcx, self.owner);
                let uv = rustc_middle::mir::UnevaluatedConst {
                    def: *def_id,
                    args: self.tcx.erase_and_anonymize_regions(*args),
                    promoted: None,
                };
                if let Ok(val) = self.tcx.const_eval_resolve(env, uv, e.span) {
                    if let Some(si) = val.try_to_scalar_int() {
                        let bits = si.to_bits(si.size());
                        v.push(("bits", s(format!("{}", bits))));
                        if let ty::Float(ty::FloatTy::F64) = e.ty.kind() {
                            v.push(("f64", s(format!("{:?}", f64::from_bits(bits as u64)))));
                        }
                    }
                }
            }
            ExprKind::StaticRef { def_id, .. } => {
                k!("Static");
                v.push(("key", s(self.key(*def_id))));
                v.push(("path", s(self.path(*def_id))));
                let m = self.tcx.is_mutable_static(*def_id);
                v.push(("mut", J::Bool(m)));
                let st = self.tcx.type_of(*def_id).instantiate_identity().skip_norm_wip();
                let fz = st.is_freeze(self.tcx, TypingEnv::fully_monomorphized());
                v.push(("freeze", J::Bool(fz)));
            }
            ExprKind::ThreadLocalRef(d) => {
                k!("ThreadLocal");
                v.push(("key", s(self.key(*d))));
            }
            o => {
                k!("Unsupported");
                let t = format!("{:?}", o);
                v.push(("what", s(t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""))));
            }
        }
        obj(v)
    }

    fn body(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        self.owner = d;
        let (th, root) = tcx.thir_body(d).ok()?;
        let th = th.borrow();
        let kind = format!("{:?}", tcx.def_kind(d));
        let mut v: Vec<(&str, J)> = vec![
            ("key", s(self.key(d.to_def_id()))),
            ("path", s(self.path(d.to_def_id()))),
            ("kind", s(&kind)),
            ("sp", self.span(tcx.def_span(d))),
        ];
        let vis = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let ev = tcx.effective_visibilities(());
            if ev.is_exported(d) || ev.is_reachable(d) { "pub" } else { "priv" }
        } else {
            "priv"
        };
        v.push(("vis", s(vis)));
        if let Some(imp) = tcx.impl_of_assoc(d.to_def_id()) {
            v.push(("impl", s(self.key(imp))));
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            v.push(("self_ty", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                v.push(("impl_trait", s(self.path(tr.def_id))));
                v.push(("name", s(tcx.item_name(d.to_def_id()))));
                if tcx.is_automatically_derived(imp) {
                    v.push(("derived", J::Bool(true)));
                }
            }
        }
        let mut ps = vec![];
        for p in th.params.iter() {
            let mut o = vec![("ty", self.ty(p.ty))];
            if let Some(pt) = &p.pat {
                o.push(("pat", self.pat(pt, &th)));
            }
            ps.push(obj(o));
        }
        v.push(("params", J::Arr(ps)));
        let rt = th[root].ty;
        v.push(("ret", self.ty(rt)));
        if let BodyTy::Fn(sig) = th.body_type {
            v.push(("sigret", self.ty(sig.output())));
            v.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
        }
        v.push(("body", self.expr(root, &th)));
        Some(obj(v))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let out = match std::env::var("EXTRACT_OUT") {
            Ok(o) => o,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut d = Dumper {
            tcx,
            types: vec![],
            tyidx: HashMap::new(),
            owner: rustc_hir::def_id::CRATE_DEF_ID,
        };
        let mut fns = vec![];
        for b in tcx.hir_body_owners() {
            match tcx.def_kind(b) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if let Some(j) = d.body(b) {
                        fns.push(j)
                    }
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            d.owner = rustc_hir::def_id::CRATE_DEF_ID;
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(id);
                    let mut vs = vec![];
                    for vd in a.variants().iter() {
                        let mut fs = vec![];
                        for f in vd.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let tj = d.ty(t);
                            fs.push(obj(vec![
                                ("name", s(f.name)),
                                ("ty", tj),
                                ("pub", J::Bool(f.vis.is_public())),
                            ]));
                        }
                        vs.push(obj(vec![("name", s(vd.name)), ("fields", J::Arr(fs))]));
                    }
                    let self_ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let freeze = self_ty.is_freeze(tcx, TypingEnv::post_analysis(tcx, id));
                    let st = d.ty(self_ty);
                    adts.push(obj(vec![
                        ("path", s(d.path(id.to_def_id()))),
                        ("key", s(d.key(id.to_def_id()))),
                        ("kind", s(format!("{:?}", tcx.def_kind(id)))),
                        ("ty", st),
                        ("freeze", J::Bool(freeze)),
                        ("variants", J::Arr(vs)),
                        ("sp", d.span(tcx.def_span(id))),
                    ]));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let fz = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                    let tj = d.ty(t);
                    statics.push(obj(vec![
                        ("key", s(d.key(id.to_def_id()))),
                        ("path", s(d.path(id.to_def_id()))),
                        ("ty", tj),
                        ("mut", J::Bool(tcx.is_mutable_static(id.to_def_id()))),
                        ("freeze", J::Bool(fz)),
                        ("sp", d.span(tcx.def_span(id))),
                    ]));
                }
                _ => {}
            }
        }
        let types = std::mem::take(&mut d.types);
        let j = obj(vec![
            ("crate", s(&krate)),
            ("types", J::Arr(types)),
            ("adts", J::Arr(adts)),
            ("statics", J::Arr(statics)),
            ("fns", J::Arr(fns)),
        ]);
        let mut text = String::new();
        j.write(&mut text);
        let kind = if tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable") { "bin" } else { "lib" };
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(format!("{}/{}.{}.json", out, krate, kind), text).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
