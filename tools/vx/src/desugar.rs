//! Meaning-preserving rewrites that bring Rust into the subset Verus accepts.
use std::collections::BTreeSet;

use quote::quote;
use syn::{
    parse_quote,
    visit::Visit,
    visit_mut::{self, VisitMut},
    Block, Expr, Pat, Stmt,
};

#[derive(Default)]
pub struct Opts {
    /// opt-in desugarings: "map" (Option::map), "and_then", "filter" (Option::filter), "result_map", "try" ...
    pub flags: BTreeSet<String>,
    /// extra macro names dropped as statements
    pub drop_macros: BTreeSet<String>,
}

pub struct Desugar<'a> {
    pub opts: &'a Opts,
    pub errors: Vec<String>,
    pub fresh: usize,
    /// number of iterator chains turned into loops so far (names acc<k>, idx<k>)
    pub chains: usize,
    /// what was rewritten or dropped, for the evidence
    pub notes: BTreeSet<String>,
}

struct HasCtl(bool);
impl<'ast> Visit<'ast> for HasCtl {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

fn has_ctl(e: &Expr) -> bool {
    let mut h = HasCtl(false);
    h.visit_expr(e);
    h.0
}

fn rev_range(e: &Expr) -> Option<(Expr, Expr)> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method != "rev" {
        return None;
    }
    let Expr::Paren(p) = &*m.receiver else { return None };
    let Expr::Range(r) = &*p.expr else { return None };
    if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
        return None;
    }
    Some(((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone()))
}

struct HasRet(bool);
impl<'a> syn::visit::Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn stmt_ret(s: &Stmt) -> bool {
    let mut h = HasRet(false);
    syn::visit::Visit::visit_stmt(&mut h, s);
    h.0
}
struct Binds(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
    }
}
/// `return` inside a closure body becomes nesting: what follows a branch that may return moves into the branches that
/// do not. `None` if the shape is not covered.
fn elim_return(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = Vec::new();
    for (i, s) in stmts.iter().enumerate() {
        if !stmt_ret(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        let join = |b: &[Stmt]| -> Option<Vec<Stmt>> {
            // names bound in the branch must not capture names of what follows
            let mut bs = Binds(BTreeSet::new());
            for x in b {
                syn::visit::Visit::visit_stmt(&mut bs, x);
            }
            let txt: BTreeSet<String> = rest.iter().flat_map(|r| crate::toks::flatten(quote!(#r))).collect();
            if bs.0.iter().any(|n| txt.contains(n)) {
                return None;
            }
            let mut v = b.to_vec();
            if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
                if semi.is_none() && !rest.is_empty() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Return(_) | Expr::Block(_)) {
                    return None;
                }
            }
            v.extend(rest.iter().cloned());
            elim_return(&v)
        };
        let blk = |e: &Expr| -> Vec<Stmt> {
            match e {
                Expr::Block(b) => b.block.stmts.clone(),
                e => vec![Stmt::Expr(e.clone(), None)],
            }
        };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.clone()?;
                if has_ctl(&e) {
                    return None;
                }
                out.push(Stmt::Expr(*e, None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                let c = &f.cond;
                let a = join(&f.then_branch.stmts)?;
                let b = match &f.else_branch {
                    Some((_, e)) => join(&blk(e))?,
                    None => elim_return(rest)?,
                };
                out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                for arm in m.arms.iter_mut() {
                    let b = join(&blk(&arm.body))?;
                    arm.body = parse_quote!({ #(#b)* });
                    arm.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (p, e) = (&l.pat, &init.expr);
                let (_, d) = init.diverge.as_ref()?;
                if has_ctl(e) {
                    return None;
                }
                let b = elim_return(&blk(d))?;
                let a = elim_return(rest)?;
                out.push(Stmt::Expr(parse_quote!(if let #p = #e { #(#a)* } else { #(#b)* }), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

pub fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        Expr::Paren(p) if matches!(&*p.expr, Expr::Let(_)) => flatten_and(&p.expr, out),
        e => out.push(e.clone()),
    }
}

pub fn has_let_chain(e: &Expr) -> bool {
    let mut v = Vec::new();
    flatten_and(e, &mut v);
    v.len() > 1 && v.iter().any(|x| matches!(x, Expr::Let(_)))
}

/// Drop a needless `ref`/type on closure parameters.
fn closure_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

impl<'a> Desugar<'a> {
    pub fn new(opts: &'a Opts) -> Self {
        Self {
            opts,
            errors: vec![],
            fresh: 0,
            chains: 0,
            notes: BTreeSet::new(),
        }
    }

    fn flag(&self, f: &str) -> bool {
        self.opts.flags.contains(f)
    }

    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }

    fn macro_name(m: &syn::Macro) -> String {
        m.path
            .segments
            .last()
            .map(|s| s.ident.to_string())
            .unwrap_or_default()
    }

    fn droppable(&self, name: &str) -> bool {
        matches!(
            name,
            "trace" | "debug" | "info" | "warn" | "error" | "event" | "log_info" | "log_warn"
                | "log_error" | "log_debug" | "log_trace" | "debug_assert" | "debug_assert_eq"
                | "debug_assert_ne" | "println" | "eprintln"
        ) || self.opts.drop_macros.contains(name)
    }

    fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().any(|a| {
            a.path().is_ident("cfg") && quote!(#a).to_string().replace(' ', "").contains("cfg(test)")
        })
    }

    fn closure1<'c>(&self, e: &'c Expr) -> Option<&'c syn::ExprClosure> {
        match e {
            Expr::Closure(c) => Some(c),
            _ => None,
        }
    }

    /// Body of applying `f` (closure or path) to an ident-bound argument: returns (pattern, body).
    fn apply1(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return None;
                }
                if has_ctl(&c.body) {
                    if let Expr::Block(b) = &*c.body {
                        if let Some(st) = elim_return(&b.block.stmts) {
                            let n: Expr = parse_quote!({ #(#st)* });
                            if !has_ctl(&n) {
                                self.note("return in closure -> nesting");
                                return Some((closure_pat(&c.inputs[0]), n));
                            }
                        }
                    }
                    self.errors.push("closure body contains return/?".into());
                    return None;
                }
                Some((closure_pat(&c.inputs[0]), (*c.body).clone()))
            }
            Expr::Path(p) => {
                self.fresh += 1;
                let id = syn::Ident::new(&format!("vx_v{}", self.fresh), proc_macro2::Span::call_site());
                Some((parse_quote!(#id), parse_quote!(#p(#id))))
            }
            _ => None,
        }
    }

    fn apply0(&mut self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() => {
                if has_ctl(&c.body) {
                    self.errors.push("closure body contains return/?".into());
                    return None;
                }
                Some((*c.body).clone())
            }
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    fn id(s: &str) -> syn::Ident {
        syn::Ident::new(s, proc_macro2::Span::call_site())
    }

    /// Split an expression into an iterator source and the adapters applied to it (innermost first).
    fn chain(e: &Expr) -> Option<(Expr, Vec<(String, Option<Expr>)>)> {
        let mut ads = Vec::new();
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(ref m)
                    if matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map" | "copied" | "cloned" | "enumerate" | "flatten") =>
                {
                    ads.push((m.method.to_string(), m.args.first().cloned()));
                    cur = (*m.receiver).clone();
                }
                Expr::MethodCall(ref m)
                    if matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "iter_mut" | "keys" | "values" | "vx_iter") =>
                {
                    ads.reverse();
                    return Some((cur, ads));
                }
                // A.iter().zip(B[.iter()]): the pairs (&A[i], &B[i]) up to the shorter length
                Expr::MethodCall(ref m) if m.method == "zip" && m.args.len() == 1 => {
                    let strip = |e: &Expr| match e {
                        Expr::MethodCall(x) if x.method == "iter" => Some((*x.receiver).clone()),
                        Expr::MethodCall(x) if x.method == "into_iter" => None,
                        e => Some(e.clone()),
                    };
                    let (Expr::MethodCall(l), Some(b)) = (&*m.receiver, strip(&m.args[0])) else { return None };
                    if l.method != "iter" {
                        return None;
                    }
                    let a = (*l.receiver).clone();
                    ads.push(("zip".to_string(), Some(parse_quote!((#a, #b)))));
                    ads.reverse();
                    return Some((parse_quote!(0..vx_min_len(#a.len(), #b.len())), ads));
                }
                Expr::Paren(ref p) if matches!(&*p.expr, Expr::Range(_)) => {
                    ads.reverse();
                    return Some((cur, ads));
                }
                _ => return None,
            }
        }
    }

    /// Body of a loop over the source that applies the adapters to `x` and then runs `k(last)`.
    fn chain_body(&mut self, ads: &[(String, Option<Expr>)], x: &syn::Ident, n: usize, k: &mut dyn FnMut(&syn::Ident) -> Vec<Stmt>) -> Option<Vec<Stmt>> {
        let Some((name, f)) = ads.first() else { return Some(k(x)) };
        self.fresh += 1;
        let y = Self::id(&format!("vx_x{}", self.fresh));
        Some(match name.as_str() {
            "map" => {
                let (p, b) = self.apply1(f.as_ref()?)?;
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = { let #p = #x; #b };)];
                v.extend(rest);
                v
            }
            "zip" => {
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                let Some(Expr::Tuple(t)) = f else { return None };
                let (a, b) = (&t.elems[0], &t.elems[1]);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = (&#a[#x], &#b[#x]);)];
                v.extend(rest);
                v
            }
            "copied" => {
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = *#x;)];
                v.extend(rest);
                v
            }
            "cloned" => {
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = #x.clone();)];
                v.extend(rest);
                v
            }
            "filter" => {
                let (p, b) = self.apply1(f.as_ref()?)?;
                let rest = self.chain_body(&ads[1..], x, n, k)?;
                vec![parse_quote!(let #y = { let #p = &#x; #b };), parse_quote!(if #y { #(#rest)* })]
            }
            // over options only: anything else does not type-check afterwards
            "flatten" => {
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                vec![parse_quote!(if let Some(#y) = #x { #(#rest)* })]
            }
            "filter_map" => {
                let (p, b) = self.apply1(f.as_ref()?)?;
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                vec![parse_quote!(let #y = { let #p = #x; #b };), parse_quote!(if let Some(#y) = #y { #(#rest)* })]
            }
            "enumerate" => {
                let rest = self.chain_body(&ads[1..], &y, n, k)?;
                let ix = Self::id(&format!("idx{n}"));
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = (#ix, #x);), parse_quote!(#ix = #ix + 1;)];
                v.extend(rest);
                v
            }
            _ => return None,
        })
    }

    /// `source.adapters*.terminal(..)` -> a block with a for loop
    fn iter_chain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        if name == "retain" && m.args.len() == 1 && self.flag("retain") {
            let (p, b) = self.apply1(&m.args[0])?;
            let n = self.chains;
            self.chains += 1;
            self.note("Vec::retain(closure) -> for loop");
            self.fresh += 1;
            let x = Self::id(&format!("vx_x{}", self.fresh));
            let acc = Self::id(&format!("acc{n}"));
            let keep = Self::id(&format!("keep{n}"));
            let src = Self::id(&format!("src{n}"));
            let v = &m.receiver;
            return Some(parse_quote!({ let #src = #v.vx_take(); let mut #acc = Vec::new(); for #x in #src { let #keep = { let #p = &#x; #b }; if #keep { #acc.push(#x); } } #v.vx_put(#acc); }));
        }
        if !matches!(name.as_str(), "collect" | "sum" | "count" | "any" | "all" | "find" | "find_map" | "position" | "max" | "min") {
            return None;
        }
        let (src, ads) = Self::chain(&m.receiver)?;
        if ads.is_empty() && matches!(name.as_str(), "max" | "min") && !m.args.is_empty() {
            return None;
        }
        let n = self.chains;
        self.chains += 1;
        self.note("iterator chain -> for loop");
        self.fresh += 1;
        let x = Self::id(&format!("vx_x{}", self.fresh));
        let acc = Self::id(&format!("acc{n}"));
        let ix = Self::id(&format!("idx{n}"));
        let acc_r = Self::id(&format!("hit{n}"));
        let pos = Self::id(&format!("pos{n}"));
        let mut pre: Vec<Stmt> = if ads.iter().any(|a| a.0 == "enumerate") { vec![parse_quote!(let mut #ix: usize = 0;)] } else { vec![] };
        if name == "position" {
            pre.push(parse_quote!(let mut #pos: usize = 0;));
        }
        let call = m.args.first().cloned();
        let (init, tail): (Expr, Vec<Stmt>) = match name.as_str() {
            "collect" => (parse_quote!(Vec::new()), vec![]),
            "sum" | "count" => (parse_quote!(0), vec![]),
            "any" => (parse_quote!(false), vec![]),
            "all" => (parse_quote!(true), vec![]),
            _ => (parse_quote!(None), vec![]),
        };
        let _ = tail;
        let pb = match &call {
            Some(c) => Some(self.apply1(c)?),
            None => None,
        };
        let body = self.chain_body(&ads, &x, n, &mut |y| match name.as_str() {
            "collect" => vec![parse_quote!(#acc.push(#y);)],
            "sum" => vec![parse_quote!(#acc = #acc + #y;)],
            "count" => vec![parse_quote!(#acc = #acc + 1;)],
            "any" => {
                let (p, b) = pb.as_ref().unwrap();
                vec![parse_quote!(if { let #p = #y; #b } { #acc = true; break; })]
            }
            "all" => {
                let (p, b) = pb.as_ref().unwrap();
                vec![parse_quote!(if !({ let #p = #y; #b }) { #acc = false; break; })]
            }
            "find" => {
                let (p, b) = pb.as_ref().unwrap();
                vec![parse_quote!(if { let #p = &#y; #b } { #acc = Some(#y); break; })]
            }
            "find_map" => {
                let (p, b) = pb.as_ref().unwrap();
                vec![parse_quote!(let #acc_r = { let #p = #y; #b };), parse_quote!(if #acc_r.is_some() { #acc = #acc_r; break; })]
            }
            "position" => {
                let (p, b) = pb.as_ref().unwrap();
                vec![parse_quote!(if { let #p = #y; #b } { #acc = Some(#pos); break; }), parse_quote!(#pos = #pos + 1;)]
            }
            "max" => vec![parse_quote!(#acc = match #acc { Some(vx_m) => Some(vx_max(vx_m, #y)), None => Some(#y) };)],
            "min" => vec![parse_quote!(#acc = match #acc { Some(vx_m) => Some(vx_min(vx_m, #y)), None => Some(#y) };)],
            _ => vec![],
        })?;
        Some(parse_quote!({ #(#pre)* let mut #acc = #init; for #x in #src { #(#body)* } #acc }))
    }

    fn method(&mut self, mc: &syn::ExprMethodCall) -> Option<Expr> {
        let name = mc.method.to_string();
        let recv = &mc.receiver;
        let arg0 = mc.args.first();
        self.fresh += 1;
        let v = syn::Ident::new(&format!("vx_t{}", self.fresh), proc_macro2::Span::call_site());
        match (name.as_str(), mc.args.len()) {
            ("expect", 1) => {
                self.note("expect(..) -> unwrap()");
                Some(parse_quote!(#recv.unwrap()))
            }
            ("then_some", 1) => {
                self.note("then_some(..) -> if");
                Some(parse_quote!(if #recv { Some(#arg0) } else { None }))
            }
            ("map_err", 1) => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("map_err(closure) -> match");
                Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }))
            }
            ("ok_or_else", 1) => {
                let b = self.apply0(arg0?)?;
                self.note("ok_or_else(closure) -> match");
                Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) }))
            }
            ("is_some_and", 1) => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("is_some_and(closure) -> match");
                Some(parse_quote!(match #recv { Some(#p) => #b, None => false }))
            }
            ("is_none_or", 1) => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("is_none_or(closure) -> match");
                Some(parse_quote!(match #recv { Some(#p) => #b, None => true }))
            }
            ("then_with", 1) => {
                let b = self.apply0(arg0?)?;
                self.note("then_with(closure) -> match");
                Some(parse_quote!(match #recv { Ordering::Equal => #b, #v => #v }))
            }
            ("then", 1) if self.flag("ord_then") => {
                self.note("Ordering::then -> match");
                Some(parse_quote!(match #recv { Ordering::Equal => #arg0, #v => #v }))
            }
            ("unwrap_or_else", 1) => {
                let c = self.closure1(arg0?);
                match c {
                    Some(c) if c.inputs.len() == 1 => {
                        let (p, b) = self.apply1(arg0?)?;
                        self.note("unwrap_or_else(closure) -> match");
                        Some(parse_quote!(match #recv { Ok(#v) => #v, Err(#p) => #b }))
                    }
                    _ => {
                        let b = self.apply0(arg0?)?;
                        self.note("unwrap_or_else(closure) -> match");
                        Some(parse_quote!(match #recv { Some(#v) => #v, None => #b }))
                    }
                }
            }
            ("or_else", 1) if self.closure1(arg0?).is_some_and(|c| c.inputs.is_empty()) => {
                let b = self.apply0(arg0?)?;
                self.note("Option::or_else(closure) -> match");
                Some(parse_quote!(match #recv { Some(#v) => Some(#v), None => #b }))
            }
            ("map_or", 2) => {
                let (p, b) = self.apply1(&mc.args[1])?;
                let d = &mc.args[0];
                self.note("map_or -> match");
                Some(parse_quote!(match #recv { Some(#p) => #b, None => #d }))
            }
            ("map", 1) if self.flag("map") => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("Option::map(closure) -> match");
                Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))
            }
            ("map", 1) if self.flag("result_map") => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("Result::map(closure) -> match");
                Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#v) => Err(#v) }))
            }
            ("and_then", 1) if self.flag("and_then") => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("Option::and_then(closure) -> match");
                Some(parse_quote!(match #recv { Some(#p) => #b, None => None }))
            }
            ("any", 1) if self.flag("any") => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("iter().any(closure) -> loop");
                Some(parse_quote!({
                    let mut #v = false;
                    for #p in #recv { if #b { #v = true; break; } }
                    #v
                }))
            }
            ("all", 1) if self.flag("all") => {
                let (p, b) = self.apply1(arg0?)?;
                self.note("iter().all(closure) -> loop");
                Some(parse_quote!({
                    let mut #v = true;
                    for #p in #recv { if !(#b) { #v = false; break; } }
                    #v
                }))
            }
            _ => None,
        }
    }
}

fn mut_source(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
        Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
    }
}

fn enum_mut(e: &Expr, p: &syn::Pat) -> Option<(Expr, syn::Pat, syn::Pat)> {
    let (Expr::MethodCall(m), syn::Pat::Tuple(t)) = (e, p) else { return None };
    if m.method != "enumerate" || t.elems.len() != 2 {
        return None;
    }
    Some((mut_source(&m.receiver)?, t.elems[0].clone(), t.elems[1].clone()))
}

fn nest(conds: &[Expr], then: &Block, els: &Option<Box<Expr>>) -> Expr {
    let c = &conds[0];
    let inner: Block = if conds.len() == 1 {
        then.clone()
    } else {
        let e = nest(&conds[1..], then, els);
        parse_quote!({ #e })
    };
    match els {
        Some(x) => parse_quote!(if #c #inner else #x),
        None => parse_quote!(if #c #inner),
    }
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::with_capacity(b.stmts.len());
        for s in b.stmts.drain(..) {
            match &s {
                Stmt::Macro(m) => {
                    let n = Self::macro_name(&m.mac);
                    if self.droppable(&n) {
                        self.notes.insert(format!("dropped statement {n}!"));
                        continue;
                    }
                }
                Stmt::Expr(e, _) => {
                    let attrs: &[syn::Attribute] = match e {
                        Expr::If(x) => &x.attrs,
                        Expr::Block(x) => &x.attrs,
                        Expr::MethodCall(x) => &x.attrs,
                        Expr::Call(x) => &x.attrs,
                        _ => &[],
                    };
                    if Self::is_cfg_test(attrs) {
                        self.note("dropped #[cfg(test)] statement");
                        continue;
                    }
                    if let Expr::Macro(m) = e {
                        let n = Self::macro_name(&m.mac);
                        if self.droppable(&n) {
                            self.notes.insert(format!("dropped statement {n}!"));
                            continue;
                        }
                    }
                }
                Stmt::Local(l) if Self::is_cfg_test(&l.attrs) => {
                    self.note("dropped #[cfg(test)] statement");
                    continue;
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // panic-like macros in statement position become expression statements
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            let semi = m.semi_token;
            let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
            *s = Stmt::Expr(e, Some(semi.unwrap_or_default()));
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // outer-first rewrites
        if let Expr::ForLoop(f) = e {
            let new = crate::cont::elim(f.body.stmts.clone());
            if new != f.body.stmts {
                self.note("continue in for -> nested else");
                f.body.stmts = new;
            }
        }
        match e {
            Expr::If(i) if has_let_chain(&i.cond) => {
                let mut cs = Vec::new();
                flatten_and(&i.cond, &mut cs);
                let els = i.else_branch.as_ref().map(|(_, x)| x.clone());
                self.note("let-chain -> nested if");
                *e = nest(&cs, &i.then_branch, &els);
            }
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) || has_let_chain(&w.cond) => {
                let mut cs = Vec::new();
                flatten_and(&w.cond, &mut cs);
                let label = &w.label;
                let body = &w.body;
                self.note("while-let -> loop");
                let brk: Option<Box<Expr>> = Some(parse_quote!({ break; }));
                let inner = nest(&cs, body, &brk);
                *e = parse_quote!(#label loop { #inner });
            }
            Expr::MethodCall(_) if self.flag("iters") => {
                let e2 = e.clone();
                if let Some(n) = self.iter_chain(&e2) {
                    *e = n;
                }
            }
            // for x in &mut v { .. } / for x in v.iter_mut() { .. }: by index
            Expr::ForLoop(f) if self.flag("iter_mut") && mut_source(&f.expr).is_some() => {
                let v = mut_source(&f.expr).unwrap();
                let n = self.chains;
                self.chains += 1;
                self.note("for x in &mut v -> counted loop over &mut v[i]");
                let ix = Self::id(&format!("idx{n}"));
                let (label, pat, st) = (&f.label, &f.pat, &f.body.stmts);
                *e = parse_quote!(if true { let mut #ix: usize = 0; #label while #ix < #v.len() { { let #pat = &mut #v[#ix]; #(#st)* } #ix = #ix + 1; } });
            }
            // for (i, x) in v.iter_mut().enumerate()
            Expr::ForLoop(f) if self.flag("iter_mut") && enum_mut(&f.expr, &f.pat).is_some() => {
                let (v, pi, px) = enum_mut(&f.expr, &f.pat).unwrap();
                let n = self.chains;
                self.chains += 1;
                self.note("for (i, x) in v.iter_mut().enumerate() -> counted loop over &mut v[i]");
                let ix = Self::id(&format!("idx{n}"));
                let (label, st) = (&f.label, &f.body.stmts);
                *e = parse_quote!(if true { let mut #ix: usize = 0; #label while #ix < #v.len() { { let #pi = #ix; let #px = &mut #v[#ix]; #(#st)* } #ix = #ix + 1; } });
            }
            Expr::ForLoop(f) if self.flag("iters") && rev_range(&f.expr).is_some() => {
                let (lo, hi) = rev_range(&f.expr).unwrap();
                self.note("for x in (a..b).rev() -> counted loop");
                let (label, pat, st) = (&f.label, &f.pat, &f.body.stmts);
                *e = parse_quote!({ let vx_lo = #lo; let vx_hi = #hi; #label for vx_rv in vx_lo..vx_hi { let #pat = vx_hi - 1 - (vx_rv - vx_lo); #(#st)* } });
            }
            Expr::ForLoop(f) if self.flag("iters") && Self::chain(&f.expr).is_some_and(|c| !c.1.is_empty()) => {
                let (src, ads) = Self::chain(&f.expr).unwrap();
                let n = self.chains;
                self.chains += 1;
                self.note("for over iterator adapters -> for over the source");
                self.fresh += 1;
                let x = Self::id(&format!("vx_x{}", self.fresh));
                let (pat, body) = (f.pat.clone(), f.body.clone());
                let label = f.label.clone();
                let ix = Self::id(&format!("idx{n}"));
                let en = ads.iter().any(|a| a.0 == "enumerate");
                if let Some(b) = self.chain_body(&ads, &x, n, &mut |y| {
                    let st = &body.stmts;
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #y;)];
                    v.extend(st.iter().cloned());
                    v
                }) {
                    *e = if en {
                        parse_quote!({ let mut #ix: usize = 0; #label for #x in #src { #(#b)* } })
                    } else {
                        parse_quote!(#label for #x in #src { #(#b)* })
                    };
                }
            }
            Expr::ForLoop(f) if self.flag("by_ref") => {
                if let Expr::MethodCall(m) = &*f.expr {
                    if m.method == "by_ref" {
                        let (pat, recv, body) = (&f.pat, &m.receiver, &f.body);
                        self.notes.insert("for x in it.by_ref() -> loop/next".into());
                        *e = parse_quote!(loop { if let Some(#pat) = #recv.next() #body else { break; } });
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // inner-first rewrites
        match e {
            Expr::Await(a) => {
                self.note("async/.await removed");
                *e = (*a.base).clone();
            }
            Expr::MethodCall(m) => {
                let m2 = m.clone();
                if let Some(n) = self.method(&m2) {
                    *e = n;
                }
            }
            Expr::Macro(m) => {
                let n = Self::macro_name(&m.mac);
                match n.as_str() {
                    "format" => {
                        self.note("format!(..) -> arbitrary String");
                        *e = parse_quote!(vx_format());
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        self.note("panic -> proof obligation");
                        *e = parse_quote!(vx_unreachable());
                    }
                    "matches" => {
                        let parsed: syn::Result<MatchesArgs> = syn::parse2(m.mac.tokens.clone());
                        match parsed {
                            Ok(a) => {
                                let (x, p, g) = (a.expr, a.pat, a.guard);
                                self.note("matches!(..) -> match");
                                let g2 = g.map(|g| quote!(if #g));
                                let mut n: Expr = parse_quote!(match #x { #p #g2 => true, _ => false });
                                self.visit_expr_mut(&mut n);
                                *e = n;
                            }
                            Err(err) => self.errors.push(format!("matches!: {err}")),
                        }
                    }
                    "assert" => {
                        if let Ok(a) = m.mac.parse_body_with(
                            syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                        ) {
                            let c = &a[0];
                            let mut n: Expr = parse_quote!(vx_assert(#c));
                            self.visit_expr_mut(&mut n);
                            *e = n;
                        }
                    }
                    _ => {}
                }
            }
            Expr::Try(t) if self.flag("try") => {
                self.fresh += 1;
                let v = syn::Ident::new(&format!("vx_t{}", self.fresh), proc_macro2::Span::call_site());
                let x = &t.expr;
                self.note("? -> match/return");
                *e = parse_quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(#v) });
            }
            Expr::Try(t) if self.flag("try_opt") => {
                self.fresh += 1;
                let v = syn::Ident::new(&format!("vx_t{}", self.fresh), proc_macro2::Span::call_site());
                let x = &t.expr;
                self.note("? (Option) -> match/return");
                *e = parse_quote!(match #x { Some(#v) => #v, None => return None });
            }
            _ => {}
        }
    }
}

struct MatchesArgs {
    expr: Expr,
    pat: Pat,
    guard: Option<Expr>,
}

impl syn::parse::Parse for MatchesArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let expr = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let pat = Pat::parse_multi_with_leading_vert(i)?;
        let guard = if i.peek(syn::Token![if]) {
            i.parse::<syn::Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<syn::Token![,]>>();
        Ok(Self { expr, pat, guard })
    }
}
