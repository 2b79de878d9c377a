//! `continue` inside `for` loops (which Verus does not accept) becomes nesting: the statements after a branch that
//! continues move into the other branch.
use syn::{Block, Expr, Stmt, parse_quote};

fn ends(e: &Expr) -> bool {
    match e {
        Expr::Continue(c) => c.label.is_none(),
        Expr::Block(b) => block_ends(&b.block),
        _ => false,
    }
}
fn block_ends(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => ends(e),
        _ => false,
    }
}
fn cut(b: &Block) -> Vec<Stmt> {
    let mut s = b.stmts.clone();
    match s.pop() {
        Some(Stmt::Expr(Expr::Block(inner), _)) => s.extend(cut(&inner.block)),
        _ => {}
    }
    elim(s)
}
fn cut_expr(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) => cut(&b.block),
        _ => vec![],
    }
}

/// a let chain as a boolean expression
fn chain_value(cs: &[Expr]) -> Expr {
    let rest: Expr = if cs.len() > 1 { chain_value(&cs[1..]) } else { parse_quote!(true) };
    match &cs[0] {
        Expr::Let(l) => {
            let (p, e) = (&l.pat, &l.expr);
            parse_quote!((match #e { #p => #rest, _ => false }))
        }
        e if cs.len() == 1 => parse_quote!((#e)),
        e => parse_quote!(((#e) && #rest)),
    }
}

/// `continue` (of this loop) somewhere inside
fn has_continue<T: quote::ToTokens>(t: &T) -> bool {
    fn walk(ts: proc_macro2::TokenStream) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == "continue",
            proc_macro2::TokenTree::Group(g) => walk(g.stream()),
            _ => false,
        })
    }
    walk(t.to_token_stream())
}
fn has_loop<T: quote::ToTokens>(t: &T) -> bool {
    fn walk(ts: proc_macro2::TokenStream) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == "for" || i == "while" || i == "loop",
            proc_macro2::TokenTree::Group(g) => walk(g.stream()),
            _ => false,
        })
    }
    walk(t.to_token_stream())
}
/// nested `continue`s set a flag that guards everything after them
fn flagify(stmts: &[Stmt], flag: &syn::Ident) -> Vec<Stmt> {
    let mut out = Vec::new();
    for (i, s) in stmts.iter().enumerate() {
        match s {
            Stmt::Expr(Expr::Continue(_), _) => {
                out.push(parse_quote!(#flag = true;));
                return out;
            }
            Stmt::Expr(Expr::If(f), _) if has_continue(f) => {
                out.push(Stmt::Expr(Expr::If(flag_if(f, flag)), None));
                let rest = flagify(&stmts[i + 1..], flag);
                if !rest.is_empty() {
                    out.push(parse_quote!(if !#flag { #(#rest)* }));
                }
                return out;
            }
            _ => out.push(s.clone()),
        }
    }
    out
}
fn flag_if(f: &syn::ExprIf, flag: &syn::Ident) -> syn::ExprIf {
    let mut f = f.clone();
    f.then_branch.stmts = flagify(&f.then_branch.stmts, flag);
    if let Some((_, els)) = &mut f.else_branch {
        match &mut **els {
            Expr::If(g) => *g = flag_if(g, flag),
            Expr::Block(b) => b.block.stmts = flagify(&b.block.stmts, flag),
            _ => {}
        }
    }
    f
}
fn flagged(f: &syn::ExprIf, rest: Vec<Stmt>, n: usize) -> Vec<Stmt> {
    let flag = quote::format_ident!("vx_skip{}", n);
    let f = flag_if(f, &flag);
    vec![
        parse_quote!(let mut #flag = false;),
        Stmt::Expr(Expr::If(f), None),
        parse_quote!(if !#flag { #(#rest)* }),
    ]
}

/// in the last statement of a loop body, falling off the end of a branch is `continue`: go into the branches
fn tail(e: &mut Expr) {
    if !has_continue(e) {
        return;
    }
    match e {
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| if !ends(&a.body) { tail(&mut a.body) }),
        Expr::If(f) => {
            if !block_ends(&f.then_branch) {
                f.then_branch.stmts = elim(std::mem::take(&mut f.then_branch.stmts));
            }
            if let Some((_, els)) = &mut f.else_branch && !ends(els) {
                tail(els);
            }
        }
        Expr::Block(b) if b.label.is_none() => b.block.stmts = elim(std::mem::take(&mut b.block.stmts)),
        _ => {}
    }
}

pub fn elim(mut stmts: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, _)) = stmts.last_mut() {
        tail(e);
    }
    let mut out: Vec<Stmt> = Vec::new();
    for (i, s) in stmts.iter().enumerate() {
        let rest = || elim(stmts[i + 1..].to_vec());
        match s {
            Stmt::Expr(e, _) if ends(e) => {
                out.extend(cut_expr(e));
                return out;
            }
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && block_ends(&f.then_branch) => {
                let (c, a, r) = (&f.cond, cut(&f.then_branch), rest());
                if a.is_empty() && crate::desugar::has_let_chain(c) {
                    // nothing bound by the chain is used: the chain is a truth value
                    let mut cs = Vec::new();
                    crate::desugar::flatten_and(c, &mut cs);
                    let c = chain_value(&cs);
                    out.push(parse_quote!(if !#c { #(#r)* }));
                    return out;
                }
                out.push(parse_quote!(if #c { #(#a)* } else { #(#r)* }));
                return out;
            }
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_some() => {
                let (_, els) = f.else_branch.as_ref().unwrap();
                let c = &f.cond;
                match (block_ends(&f.then_branch), ends(els)) {
                    (true, true) => {
                        let (a, b) = (cut(&f.then_branch), cut_expr(els));
                        out.push(parse_quote!(if #c { #(#a)* } else { #(#b)* }));
                        return out;
                    }
                    (true, false) => {
                        let (a, r) = (cut(&f.then_branch), rest());
                        out.push(parse_quote!(if #c { #(#a)* } else { #els #(#r)* }));
                        return out;
                    }
                    (false, true) => {
                        let (a, b, r) = (&f.then_branch.stmts, cut_expr(els), rest());
                        out.push(parse_quote!(if #c { #(#a)* #(#r)* } else { #(#b)* }));
                        return out;
                    }
                    _ if i + 1 < stmts.len() && has_continue(f) && !has_loop(f) => {
                        out.extend(flagged(f, rest(), stmts.len() - i));
                        return out;
                    }
                    _ => out.push(s.clone()),
                }
            }
            Stmt::Expr(Expr::If(f), _) if i + 1 < stmts.len() && has_continue(f) && !has_loop(f) => {
                out.extend(flagged(f, rest(), stmts.len() - i));
                return out;
            }
            Stmt::Local(l) => {
                let Some(init) = &l.init else {
                    out.push(s.clone());
                    continue;
                };
                let (p, e) = (&l.pat, &init.expr);
                if let Some((_, d)) = &init.diverge {
                    if ends(d) {
                        let (a, r) = (cut_expr(d), rest());
                        out.push(parse_quote!(if let #p = #e { #(#r)* } else { #(#a)* }));
                        return out;
                    }
                }
                if let Expr::Match(m) = &**e {
                    let live: Vec<usize> = m.arms.iter().enumerate().filter(|(_, a)| !ends(&a.body)).map(|(i, _)| i).collect();
                    if live.len() == 1 && m.arms.len() > 1 {
                        let mut m = m.clone();
                        let r = rest();
                        for (k, a) in m.arms.iter_mut().enumerate() {
                            let b = &a.body;
                            a.body = if k == live[0] {
                                parse_quote!({ let #p = #b; #(#r)* })
                            } else {
                                let c = cut_expr(b);
                                parse_quote!({ #(#c)* })
                            };
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return out;
                    }
                }
                out.push(s.clone());
            }
            Stmt::Expr(Expr::Match(m), _) if m.arms.iter().any(|a| ends(&a.body)) => {
                let live: Vec<usize> = m.arms.iter().enumerate().filter(|(_, a)| !ends(&a.body)).map(|(i, _)| i).collect();
                if live.len() <= 1 || i + 1 == stmts.len() {
                    let mut m = m.clone();
                    let r = rest();
                    for (k, a) in m.arms.iter_mut().enumerate() {
                        let b = &a.body;
                        a.body = if live.contains(&k) {
                            parse_quote!({ #b; #(#r)* })
                        } else {
                            let c = cut_expr(b);
                            parse_quote!({ #(#c)* })
                        };
                        a.comma = Some(Default::default());
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return out;
                }
                out.push(s.clone());
            }
            _ => out.push(s.clone()),
        }
    }
    out
}
