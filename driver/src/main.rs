//! rustc wrapper: type-checks the crate as usual and, for the crates of interest, writes the
//! typed syntax tree (THIR) of every body, all local trait impls and all ADTs seen, as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(DefId, String)>,
    adtseen: HashMap<DefId, ()>,
    layouts: HashMap<usize, String>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        let s = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s)
        } else {
            s
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                ty::GenericArgKind::Lifetime(_) => {}
                ty::GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                ty::GenericArgKind::Const(c) => {
                    let s = format!("{{\"k\":\"c\",\"s\":{}}}", esc(&format!("{}", c)));
                    v.push(format!("{}", self.intern_raw(s)))
                }
            }
        }
        format!("[{}]", v.join(","))
    }
    fn intern_raw(&mut self, s: String) -> usize {
        if let Some(i) = self.types.iter().position(|x| *x == s) {
            return i;
        }
        self.types.push(s);
        self.types.len() - 1
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let s = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"p\",\"n\":{}}}", esc(&t.to_string()))
            }
            ty::Adt(def, args) => {
                let a = self.args(args);
                self.adt(*def);
                format!("{{\"k\":\"adt\",\"d\":{},\"a\":{}}}", esc(&self.id(def.did())), a)
            }
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(*t), m.is_mut()),
            ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", self.ty(*t), m.is_mut()),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::Array(t, n) => {
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(*t), esc(&cstr(self.tcx, *n)))
            }
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tup\",\"a\":[{}]}}", v.join(","))
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let a = self.args(a);
                format!(
                    "{{\"k\":\"fndef\",\"d\":{},\"p\":{},\"a\":{}}}",
                    esc(&self.id(*d)),
                    esc(&self.pretty(*d)),
                    a
                )
            }
            ty::Closure(d, a) => {
                let pa = a.as_closure().parent_args();
                let pa = self.tcx.mk_args(pa);
                let a = self.args(pa);
                format!("{{\"k\":\"closure\",\"d\":{},\"a\":{}}}", esc(&self.id(*d)), a)
            }
            ty::Param(p) => format!("{{\"k\":\"par\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let tr = self.tcx.parent(def_id);
                    let a = self.args(al.args);
                    format!(
                        "{{\"k\":\"proj\",\"tr\":{},\"n\":{},\"a\":{}}}",
                        esc(&self.id(tr)),
                        esc(self.tcx.item_name(def_id).as_str()),
                        a
                    )
                }
                _ => format!("{{\"k\":\"o\",\"s\":{}}}", esc(&format!("{:?}", t))),
            },
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&format!("{:?}", t))),
            _ => format!("{{\"k\":\"o\",\"s\":{}}}", esc(&format!("{:?}", t))),
        };
        self.types.push(s);
        let i = self.types.len() - 1;
        self.tymap.insert(t, i);
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adtseen.contains_key(&def.did()) {
            return;
        }
        self.adtseen.insert(def.did(), ());
        let slot = self.adts.len();
        self.adts.push((def.did(), String::new()));
        let mut vs = vec![];
        // only expand fields of types whose layout we look through
        let deep = def.did().is_local()
            || matches!(
                self.tcx.crate_name(def.did().krate).as_str(),
                "fawkes_crypto" | "bellman_ce" | "pairing_ce" | "ff_ce" | "linked_list"
            )
            || def.is_enum();
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if deep {
                    let ft = self.tcx.type_of(f.did).instantiate_identity();
                    let ft = ft.skip_norm_wip();
                    self.ty(ft) as i64
                } else {
                    -1
                };
                fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, f.vis.is_public()));
            }
            vs.push(format!("{{\"n\":{},\"f\":[{}]}}", esc(v.name.as_str()), fs.join(",")));
        }
        let g = self.generics(def.did());
        let s = format!(
            "{{\"d\":{},\"kind\":{},\"g\":{},\"v\":[{}],\"transparent\":{}}}",
            esc(&self.id(def.did())),
            esc(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" }),
            g,
            vs.join(","),
            def.repr().transparent()
        );
        self.adts[slot].1 = s;
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(esc(p.name.as_str())),
            }
        }
        format!("[{}]", v.join(","))
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn layout(&mut self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) {
        let i = self.ty(t);
        if self.layouts.contains_key(&i) {
            return;
        }
        let mut fl = vec![];
        let te = self.tcx.erase_and_anonymize_regions(t);
        let s = match self.tcx.layout_of(env.as_query_input(te)) {
            Ok(l) => {
                flatten(self.tcx, env, l, 0, &mut fl, 0);
                let v: Vec<_> = fl.iter().map(|(o, s)| format!("[{},{}]", o, esc(s))).collect();
                format!("{{\"size\":{},\"align\":{},\"f\":[{}]}}", l.size.bytes(), l.align.abi.bytes(), v.join(","))
            }
            Err(_) => "null".to_string(),
        };
        self.layouts.insert(i, s);
    }
}

fn flatten<'tcx>(
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    l: ty::layout::TyAndLayout<'tcx>,
    base: u64,
    out: &mut Vec<(u64, String)>,
    depth: usize,
) {
    let cx = ty::layout::LayoutCx::new(tcx, env);
    match l.ty.kind() {
        ty::Adt(def, _) if def.is_enum() => {
            let mut s = format!("enum({};", l.size.bytes());
            for (vi, v) in def.variants().iter_enumerated() {
                let vl = l.for_variant(&cx, vi);
                let d = l.ty.discriminant_for_variant(tcx, vi).map(|d| d.val).unwrap_or(0);
                let _ = write!(s, "{}:", d);
                for (k, _) in v.fields.iter().enumerate() {
                    let f = vl.field(&cx, k);
                    let _ = write!(s, "{}@{},", f.ty, vl.fields.offset(k).bytes());
                }
                s.push(';');
            }
            if let rustc_abi::Variants::Multiple { ref tag_encoding, tag_field, .. } = l.variants {
                let _ = write!(s, "{:?}@{}", tag_encoding, l.fields.offset(tag_field.as_usize()).bytes());
            }
            s.push(')');
            out.push((base, s));
        }
        ty::Adt(def, _) if def.is_struct() && depth < 12 => {
            let n = l.fields.count();
            for k in 0..n {
                let f = l.field(&cx, k);
                if f.size.bytes() == 0 {
                    continue;
                }
                flatten(tcx, env, f, base + l.fields.offset(k).bytes(), out, depth + 1);
            }
        }
        ty::Tuple(_) if depth < 12 => {
            for k in 0..l.fields.count() {
                let f = l.field(&cx, k);
                if f.size.bytes() == 0 {
                    continue;
                }
                flatten(tcx, env, f, base + l.fields.offset(k).bytes(), out, depth + 1);
            }
        }
        _ => out.push((base, l.ty.to_string())),
    }
}

fn cstr<'tcx>(tcx: TyCtxt<'tcx>, c: ty::Const<'tcx>) -> String {
    match c.try_to_target_usize(tcx) {
        Some(n) => n.to_string(),
        None => format!("{}", c),
    }
}

struct B<'a, 'tcx> {
    d: &'a mut D<'tcx>,
    th: &'a Thir<'tcx>,
    owner: LocalDefId,
    scopes: Vec<String>,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn env(&self) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::post_analysis(self.d.tcx, self.owner.to_def_id())
    }
    fn opt(&mut self, e: Option<ExprId>) -> String {
        match e {
            Some(e) => self.e(e),
            None => "null".into(),
        }
    }
    fn es(&mut self, v: &[ExprId]) -> String {
        let v: Vec<_> = v.iter().map(|e| self.e(*e)).collect();
        format!("[{}]", v.join(","))
    }
    fn var(&self, v: LocalVarId) -> String {
        format!("\"{}.{}\"", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
    }
    fn block(&mut self, b: BlockId) -> String {
        let blk = &self.th.blocks[b];
        let mut st = vec![];
        for s in blk.stmts.iter() {
            match &self.th.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => st.push(format!("{{\"k\":\"Expr\",\"e\":{}}}", self.e(*expr))),
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = self.opt(*initializer);
                    let el = match else_block {
                        Some(b) => self.block(*b),
                        None => "null".into(),
                    };
                    st.push(format!("{{\"k\":\"Let\",\"p\":{},\"i\":{},\"el\":{}}}", p, i, el));
                }
            }
        }
        let sc = esc(&format!("{:?}", blk.region_scope));
        let e = self.opt(blk.expr);
        format!(
            "{{\"k\":\"Block\",\"tb\":{},\"sc\":{},\"s\":[{}],\"e\":{}}}",
            blk.targeted_by_break,
            sc,
            st.join(","),
            e
        )
    }
    fn arms(&mut self, arms: &[ArmId]) -> String {
        let mut v = vec![];
        for a in arms.iter() {
            let arm = &self.th.arms[*a];
            let p = self.pat(&arm.pattern);
            let g = self.opt(arm.guard);
            let b = self.e(arm.body);
            v.push(format!("{{\"p\":{},\"g\":{},\"b\":{}}}", p, g, b));
        }
        format!("[{}]", v.join(","))
    }
    fn resolve(&mut self, t: Ty<'tcx>) -> String {
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let a = self.d.tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.d.tcx, self.env(), *d, a) {
                let rd = inst.def_id();
                let ra = self.d.args(inst.args);
                return format!(
                    "{{\"d\":{},\"p\":{},\"a\":{}}}",
                    esc(&self.d.id(rd)),
                    esc(&self.d.pretty(rd)),
                    ra
                );
            }
        }
        "null".into()
    }
    fn e(&mut self, id: ExprId) -> String {
        let ex = &self.th.exprs[id];
        let t = self.d.ty(ex.ty);
        let sp = self.d.loc(ex.span);
        let body = match &ex.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                self.scopes.push(format!("{:?}", region_scope));
                let r = self.e(*value);
                self.scopes.pop();
                return r;
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                format!("\"k\":\"If\",\"c\":{},\"t\":{},\"e\":{}", self.e(*cond), self.e(*then), self.opt(*else_opt))
            }
            ExprKind::Call { ty, fun, args, .. } => {
                let fty = self.d.ty(*ty);
                let res = self.resolve(*ty);
                if let ty::FnDef(d, a) = ty.kind() {
                    let nm = self.d.pretty(*d);
                    if nm.ends_with("intrinsics::transmute") || nm.ends_with("mem::transmute") {
                        let a = a.skip_binder();
                        let env = self.env();
                        for x in a.types() {
                            self.d.layout(x, env);
                        }
                    }
                }
                let f = if matches!(ty.kind(), ty::FnDef(..)) { "null".to_string() } else { self.e(*fun) };
                format!("\"k\":\"Call\",\"fty\":{},\"res\":{},\"f\":{},\"a\":{}", fty, res, f, self.es(args))
            }
            ExprKind::ByUse { expr, .. } => return self.e(*expr),
            ExprKind::Deref { arg } => format!("\"k\":\"Deref\",\"a\":{}", self.e(*arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                format!("\"k\":\"Bin\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.e(*lhs), self.e(*rhs))
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                format!("\"k\":\"Log\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.e(*lhs), self.e(*rhs))
            }
            ExprKind::Unary { op, arg } => format!("\"k\":\"Un\",\"op\":\"{:?}\",\"a\":{}", op, self.e(*arg)),
            ExprKind::Cast { source } => format!("\"k\":\"Cast\",\"a\":{}", self.e(*source)),
            ExprKind::ValueExpr { source } => return self.e(*source),
            ExprKind::NeverToAny { source } => format!("\"k\":\"Never\",\"a\":{}", self.e(*source)),
            ExprKind::PointerCoercion { cast, source, .. } => {
                format!("\"k\":\"Coerce\",\"c\":{},\"a\":{}", esc(&format!("{:?}", cast)), self.e(*source))
            }
            ExprKind::Loop { body } => {
                let sc = self.scopes.clone();
                let sc: Vec<_> = sc.iter().rev().take(3).map(|s| esc(s)).collect();
                format!("\"k\":\"Loop\",\"sc\":[{}],\"b\":{}", sc.join(","), self.e(*body))
            }
            ExprKind::Let { expr, pat } => {
                format!("\"k\":\"LetE\",\"e\":{},\"p\":{}", self.e(*expr), self.pat(pat))
            }
            ExprKind::Match { scrutinee, arms, .. } => {
                format!("\"k\":\"Match\",\"s\":{},\"arms\":{}", self.e(*scrutinee), self.arms(arms))
            }
            ExprKind::Block { block } => format!("\"k\":\"Blk\",\"b\":{}", self.block(*block)),
            ExprKind::Assign { lhs, rhs } => format!("\"k\":\"Assign\",\"l\":{},\"r\":{}", self.e(*lhs), self.e(*rhs)),
            ExprKind::AssignOp { op, lhs, rhs } => {
                format!("\"k\":\"AssignOp\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.e(*lhs), self.e(*rhs))
            }
            ExprKind::Field { lhs, variant_index, name } => format!(
                "\"k\":\"Field\",\"l\":{},\"v\":{},\"f\":{}",
                self.e(*lhs),
                variant_index.as_u32(),
                name.as_u32()
            ),
            ExprKind::Index { lhs, index } => format!("\"k\":\"Index\",\"l\":{},\"i\":{}", self.e(*lhs), self.e(*index)),
            ExprKind::VarRef { id } => format!("\"k\":\"Var\",\"v\":{}", self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => format!("\"k\":\"Upvar\",\"v\":{}", self.var(*var_hir_id)),
            ExprKind::Borrow { borrow_kind, arg } => format!(
                "\"k\":\"Borrow\",\"m\":{},\"a\":{}",
                matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }),
                self.e(*arg)
            ),
            ExprKind::RawBorrow { arg, .. } => format!("\"k\":\"Borrow\",\"m\":true,\"a\":{}", self.e(*arg)),
            ExprKind::Break { label, value } => {
                format!("\"k\":\"Break\",\"sc\":{},\"v\":{}", esc(&format!("{:?}", label)), self.opt(*value))
            }
            ExprKind::Continue { label } => format!("\"k\":\"Continue\",\"sc\":{}", esc(&format!("{:?}", label))),
            ExprKind::Return { value } => format!("\"k\":\"Return\",\"v\":{}", self.opt(*value)),
            ExprKind::ConstBlock { did, args } => {
                format!("\"k\":\"ConstBlock\",\"d\":{},\"a\":{}", esc(&self.d.id(*did)), self.d.args(args))
            }
            ExprKind::Repeat { value, count } => {
                format!("\"k\":\"Repeat\",\"v\":{},\"n\":{}", self.e(*value), esc(&cstr(self.d.tcx, *count)))
            }
            ExprKind::Array { fields } => format!("\"k\":\"Array\",\"a\":{}", self.es(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"Tuple\",\"a\":{}", self.es(fields)),
            ExprKind::Adt(a) => {
                let fs: Vec<_> = a
                    .fields
                    .iter()
                    .map(|f| format!("[{},{}]", f.name.as_u32(), self.e(f.expr)))
                    .collect();
                let base = match &a.base {
                    AdtExprBase::Base(f) => self.e(f.base),
                    _ => "null".into(),
                };
                self.d.adt(a.adt_def);
                format!(
                    "\"k\":\"Adt\",\"d\":{},\"v\":{},\"fs\":[{}],\"base\":{}",
                    esc(&self.d.id(a.adt_def.did())),
                    a.variant_index.as_u32(),
                    fs.join(","),
                    base
                )
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => {
                return self.e(*source)
            }
            ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.e(*source),
            ExprKind::Reborrow { source, .. } => return self.e(*source),
            ExprKind::Closure(c) => {
                format!(
                    "\"k\":\"Closure\",\"d\":{},\"up\":{}",
                    esc(&self.d.id(c.closure_id.to_def_id())),
                    self.es(&c.upvars)
                )
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                let l = match &lit.node {
                    LitKind::Str(s, _) => format!("{{\"str\":{}}}", esc(s.as_str())),
                    LitKind::ByteStr(b, _) => format!(
                        "{{\"bytes\":[{}]}}",
                        b.as_byte_str().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                    ),
                    LitKind::CStr(..) => "{\"o\":\"cstr\"}".to_string(),
                    LitKind::Byte(b) => format!("{{\"int\":\"{}\"}}", b),
                    LitKind::Char(c) => format!("{{\"char\":{}}}", *c as u32),
                    LitKind::Int(n, _) => format!("{{\"int\":\"{}\"}}", n.get()),
                    LitKind::Float(s, _) => format!("{{\"float\":{}}}", esc(s.as_str())),
                    LitKind::Bool(b) => format!("{{\"bool\":{}}}", b),
                    LitKind::Err(_) => "{\"o\":\"err\"}".to_string(),
                };
                format!("\"k\":\"Lit\",\"l\":{},\"neg\":{}", l, neg)
            }
            ExprKind::NonHirLiteral { lit, .. } => format!("\"k\":\"Lit\",\"l\":{{\"int\":\"{}\"}},\"neg\":false", lit.to_bits_unchecked()),
            ExprKind::ZstLiteral { .. } => format!("\"k\":\"Zst\",\"res\":{}", self.resolve(ex.ty)),
            ExprKind::NamedConst { def_id, args, .. } => {
                let mut val = "null".to_string();
                let a = self.d.tcx.erase_and_anonymize_regions(*args);
                let mut res = "null".to_string();
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.d.tcx, self.env(), *def_id, a) {
                    let ra = self.d.args(inst.args);
                    res = format!("{{\"d\":{},\"a\":{}}}", esc(&self.d.id(inst.def_id())), ra);
                }
                if ex.ty.is_integral() || ex.ty.is_bool() {
                    let uv = rustc_middle::mir::UnevaluatedConst { def: *def_id, args: a, promoted: None };
                    if let Ok(v) = self.d.tcx.const_eval_resolve(self.env(), uv, ex.span) {
                        if let Some(s) = v.try_to_scalar_int() {
                            val = format!("\"{}\"", s.to_bits_unchecked());
                        }
                    }
                }
                format!(
                    "\"k\":\"Const\",\"d\":{},\"p\":{},\"a\":{},\"res\":{},\"val\":{}",
                    esc(&self.d.id(*def_id)),
                    esc(&self.d.pretty(*def_id)),
                    self.d.args(args),
                    res,
                    val
                )
            }
            ExprKind::ConstParam { param, .. } => format!("\"k\":\"CParam\",\"n\":{}", esc(param.name.as_str())),
            ExprKind::StaticRef { def_id, .. } => format!("\"k\":\"Static\",\"d\":{}", esc(&self.d.id(*def_id))),
            ExprKind::ThreadLocalRef(d) => format!("\"k\":\"Static\",\"d\":{}", esc(&self.d.id(*d))),
            k => {
                let s = format!("{:?}", k);
                let s: String = s.chars().take(40).collect();
                format!("\"k\":\"Unk\",\"s\":{}", esc(&s))
            }
        };
        format!("{{{},\"ty\":{},\"sp\":{}}}", body, t, esc(&sp))
    }
    fn fps(&mut self, v: &[FieldPat<'tcx>]) -> String {
        let v: Vec<_> = v.iter().map(|f| format!("[{},{}]", f.field.as_u32(), self.pat(&f.pattern))).collect();
        format!("[{}]", v.join(","))
    }
    fn pats(&mut self, v: &[Pat<'tcx>]) -> String {
        let v: Vec<_> = v.iter().map(|f| self.pat(f)).collect();
        format!("[{}]", v.join(","))
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> String {
        let t = self.d.ty(p.ty);
        let b = match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => "\"k\":\"Wild\"".to_string(),
            PatKind::Binding { mode, var, subpattern, name, .. } => {
                let sub = match subpattern {
                    Some(s) => self.pat(s),
                    None => "null".into(),
                };
                format!(
                    "\"k\":\"Bind\",\"v\":{},\"n\":{},\"ref\":{},\"sub\":{}",
                    self.var(*var),
                    esc(name.as_str()),
                    matches!(mode.0, rustc_ast::ByRef::Yes(..)),
                    sub
                )
            }
            PatKind::Variant { variant_index, subpatterns, adt_def, .. } => {
                self.d.adt(*adt_def);
                format!("\"k\":\"Variant\",\"v\":{},\"f\":{}", variant_index.as_u32(), self.fps(subpatterns))
            }
            PatKind::Leaf { subpatterns } => format!("\"k\":\"Leaf\",\"f\":{}", self.fps(subpatterns)),
            PatKind::Deref { subpattern, .. } => format!("\"k\":\"Deref\",\"a\":{}", self.pat(subpattern)),
            PatKind::DerefPattern { subpattern, .. } => format!("\"k\":\"DerefP\",\"a\":{}", self.pat(subpattern)),
            PatKind::Constant { value } => {
                let s = format!("{}", value);
                let bits = value.try_to_scalar().map(|s| s.to_bits(s.size()).discard_err());
                match bits {
                    Some(Some(b)) => format!("\"k\":\"ConstP\",\"v\":\"{}\",\"s\":{}", b, esc(&s)),
                    _ => format!("\"k\":\"ConstP\",\"v\":null,\"s\":{}", esc(&s)),
                }
            }
            PatKind::Range(r) => format!("\"k\":\"Range\",\"s\":{}", esc(&format!("{}", r))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let s = match slice {
                    Some(s) => self.pat(s),
                    None => "null".into(),
                };
                format!("\"k\":\"Slice\",\"pre\":{},\"sl\":{},\"suf\":{}", self.pats(prefix), s, self.pats(suffix))
            }
            PatKind::Or { pats } => format!("\"k\":\"Or\",\"a\":{}", self.pats(pats)),
            k => {
                let s = format!("{:?}", k);
                let s: String = s.chars().take(40).collect();
                format!("\"k\":\"UnkP\",\"s\":{}", esc(&s))
            }
        };
        format!("{{{},\"ty\":{}}}", b, t)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        adts: vec![],
        adtseen: HashMap::new(),
        layouts: HashMap::new(),
    };
    let ev = tcx.effective_visibilities(());
    let mut bodies = vec![];
    for owner in tcx.hir_body_owners() {
        let did = owner.to_def_id();
        let Ok((th, root)) = tcx.thir_body(owner) else { continue };
        let th = th.borrow();
        if th.exprs.is_empty() {
            continue;
        }
        let kind = tcx.def_kind(did);
        let g = d.generics(did);
        let id = d.id(did);
        let pretty = d.pretty(did);
        let sp = d.loc(tcx.def_span(did));
        let mut ups = vec![];
        let mut upref = vec![];
        if kind == DefKind::Closure {
            for c in tcx.closure_captures(owner) {
                let v = c.get_root_variable();
                ups.push(format!("\"{}.{}\"", v.owner.def_id.local_def_index.as_u32(), v.local_id.as_u32()));
                upref.push(format!("{}", matches!(c.info.capture_kind, ty::UpvarCapture::ByRef(_)) as u8));
            }
        }
        let mut b = B { d: &mut d, th: &th, owner, scopes: vec![] };
        let mut ps = vec![];
        for p in th.params.iter() {
            let t = b.d.ty(p.ty);
            let pt = match &p.pat {
                Some(p) => b.pat(p),
                None => "null".into(),
            };
            ps.push(format!("{{\"p\":{},\"ty\":{}}}", pt, t));
        }
        let e = b.e(root);
        let ret = b.d.ty(th.exprs[root].ty);
        let gen_args = ty::GenericArgs::identity_for_item(tcx, tcx.typeck_root_def_id(did));
        let ga = d.args(gen_args);
        bodies.push(format!(
            "{{\"id\":{},\"p\":{},\"kind\":{},\"g\":{},\"ga\":{},\"pub\":{},\"sp\":{},\"params\":[{}],\"ups\":[{}],\"upref\":[{}],\"ret\":{},\"e\":{}}}",
            esc(&id),
            esc(&pretty),
            esc(&format!("{:?}", kind)),
            g,
            ga,
            ev.is_reachable(owner),
            esc(&sp),
            ps.join(","),
            ups.join(","),
            upref.join(","),
            ret,
            e
        ));
    }
    let mut impls = vec![];
    for (tr, v) in tcx.all_local_trait_impls(()).iter() {
        for i in v {
            let h = tcx.impl_trait_header(i.to_def_id());
            let tref = h.trait_ref.instantiate_identity().skip_norm_wip();
            let a = d.args(tref.args);
            let mut it = vec![];
            for ai in tcx.associated_items(i.to_def_id()).in_definition_order() {
                match ai.kind {
                    ty::AssocKind::Type { .. } => {
                        let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                        let t = d.ty(t);
                        it.push(format!("[\"type\",{},{}]", esc(ai.name().as_str()), t));
                    }
                    ty::AssocKind::Fn { name, .. } => {
                        it.push(format!("[\"fn\",{},{}]", esc(name.as_str()), esc(&d.id(ai.def_id))))
                    }
                    ty::AssocKind::Const { name, .. } => {
                        it.push(format!("[\"const\",{},{}]", esc(name.as_str()), esc(&d.id(ai.def_id))))
                    }
                }
            }
            let sp = d.loc(tcx.def_span(i.to_def_id()));
            impls.push(format!(
                "{{\"tr\":{},\"id\":{},\"g\":{},\"a\":{},\"items\":[{}],\"sp\":{}}}",
                esc(&d.id(*tr)),
                esc(&d.id(i.to_def_id())),
                d.generics(i.to_def_id()),
                a,
                it.join(","),
                esc(&sp)
            ));
        }
    }
    let lay: Vec<_> = d.layouts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let adts: Vec<_> = d.adts.iter().map(|a| a.1.clone()).collect();
    let s = format!(
        "{{\"crate\":{},\"types\":[{}],\"adts\":[{}],\"impls\":[{}],\"layouts\":{{{}}},\"bodies\":[\n{}\n]}}\n",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        d.types.join(",\n"),
        adts.join(",\n"),
        impls.join(",\n"),
        lay.join(","),
        bodies.join(",\n")
    );
    std::fs::write(out, s).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            ty::print::with_no_trimmed_paths!(dump(tcx, o));
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    let want = std::env::var("THIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let mut out = None;
    if let Some(n) = &name {
        if want.split(',').any(|x| x == n) {
            args.push("-Zno-steal-thir".into());
            args.push("-Awarnings".into());
            out = Some(format!("{}/{}.json", dir, n));
        }
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
