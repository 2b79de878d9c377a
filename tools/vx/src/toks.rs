//! Flat token sequences: printing and pattern rewriting.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn flatten(ts: TokenStream) -> Vec<String> {
    let mut out = Vec::new();
    go(ts, &mut out);
    out
}

const OPS: &[&str] = &[
    "<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "..", "+=", "-=",
    "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>",
];

/// Split a run of joined punctuation into Rust operators.
fn split_ops(mut s: &str, out: &mut Vec<String>) {
    'o: while !s.is_empty() {
        for op in OPS {
            if let Some(r) = s.strip_prefix(op) {
                out.push(op.to_string());
                s = r;
                continue 'o;
            }
        }
        out.push(s[..1].to_string());
        s = &s[1..];
    }
}

fn go(ts: TokenStream, out: &mut Vec<String>) {
    let mut pend = String::new();
    for t in ts {
        match t {
            TokenTree::Punct(p) => {
                pend.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    split_ops(&std::mem::take(&mut pend), out);
                }
            }
            TokenTree::Ident(i) => {
                if !pend.is_empty() {
                    let p = std::mem::take(&mut pend);
                    if p == "'" {
                        out.push(format!("'{i}"));
                        continue;
                    }
                    if let Some(q) = p.strip_suffix('\'') {
                        split_ops(q, out);
                        out.push(format!("'{i}"));
                        continue;
                    }
                    split_ops(&p, out);
                }
                out.push(i.to_string());
            }
            TokenTree::Literal(l) => {
                if !pend.is_empty() {
                    split_ops(&std::mem::take(&mut pend), out);
                }
                out.push(l.to_string());
            }
            TokenTree::Group(g) => {
                if !pend.is_empty() {
                    split_ops(&std::mem::take(&mut pend), out);
                }
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push(o.into());
                }
                go(g.stream(), out);
                if !c.is_empty() {
                    out.push(c.into());
                }
            }
        }
    }
    if !pend.is_empty() {
        split_ops(&pend, out);
    }
}

/// Pattern tokens: `$x` matches one token, `$$x` matches a balanced run (lazily).
pub fn parse_pat(s: &str) -> Vec<String> {
    let s2 = s.replace("$$", "__VXRUN_").replace('$', "__VXONE_");
    match s2.parse::<TokenStream>() {
        Ok(ts) => flatten(ts),
        Err(_) => s2.split_whitespace().map(|x| x.to_string()).collect(),
    }
}

fn depth_delta(t: &str) -> i32 {
    match t {
        "(" | "[" | "{" => 1,
        ")" | "]" | "}" => -1,
        _ => 0,
    }
}

type Binds = std::collections::HashMap<String, Vec<String>>;

fn try_match(pat: &[String], toks: &[String], binds: &mut Binds) -> Option<usize> {
    if pat.is_empty() {
        return Some(0);
    }
    let p = &pat[0];
    if let Some(name) = p.strip_prefix("__VXRUN_") {
        let mut depth = 0;
        for n in 0..=toks.len() {
            if depth == 0 {
                let mut b2 = binds.clone();
                b2.insert(name.to_string(), toks[..n].to_vec());
                if let Some(m) = try_match(&pat[1..], &toks[n..], &mut b2) {
                    *binds = b2;
                    return Some(n + m);
                }
            }
            if n < toks.len() {
                depth += depth_delta(&toks[n]);
                if depth < 0 {
                    return None;
                }
            }
        }
        return None;
    }
    let t = toks.first()?;
    if let Some(name) = p.strip_prefix("__VXONE_") {
        if let Some(old) = binds.get(name) {
            if old.len() != 1 || &old[0] != t {
                return None;
            }
        }
        binds.insert(name.to_string(), vec![t.clone()]);
    } else if p != t {
        return None;
    }
    try_match(&pat[1..], &toks[1..], binds).map(|m| m + 1)
}

pub fn rewrite(toks: Vec<String>, pat: &[String], rep: &[String]) -> (Vec<String>, usize) {
    if pat.is_empty() {
        return (toks, 0);
    }
    let mut out = Vec::with_capacity(toks.len());
    let mut i = 0;
    let mut hits = 0;
    while i < toks.len() {
        let mut b = Binds::new();
        match try_match(pat, &toks[i..], &mut b) {
            Some(n) if n > 0 => {
                hits += 1;
                for r in rep {
                    if let Some(name) = r.strip_prefix("__VXRUN_").or(r.strip_prefix("__VXONE_")) {
                        if let Some(v) = b.get(name) {
                            out.extend(v.iter().cloned());
                            continue;
                        }
                    }
                    out.push(r.clone());
                }
                i += n;
            }
            _ => {
                out.push(toks[i].clone());
                i += 1;
            }
        }
    }
    (out, hits)
}

/// Tokens to text, one statement per line so that verifier messages are readable.
pub fn print(toks: &[String]) -> String {
    let mut s = String::new();
    let mut indent = 1usize;
    let mut paren = 0i32;
    let mut bol = true;
    for (i, t) in toks.iter().enumerate() {
        if t == "}" {
            indent = indent.saturating_sub(1);
            if !bol {
                s.push('\n');
                bol = true;
            }
        }
        if bol {
            for _ in 0..indent {
                s.push_str("    ");
            }
        } else {
            let prev = &toks[i - 1];
            let glue = matches!(t.as_str(), "." | "," | ";" | "?" | ")" | "]")
                || matches!(prev.as_str(), "." | "(" | "[" | "&" | "!")
                || (t == "(" && prev.chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false)
                    && !matches!(prev.as_str(), "if" | "match" | "return" | "in" | "while" | "let" | "else" | "for" | "mut"))
                || t == "::"
                || prev == "::";
            if !glue {
                s.push(' ');
            }
        }
        s.push_str(t);
        bol = false;
        match t.as_str() {
            "(" | "[" => paren += 1,
            ")" | "]" => paren -= 1,
            "{" => {
                indent += 1;
                s.push('\n');
                bol = true;
            }
            "}" => {
                let next = toks.get(i + 1).map(|x| x.as_str()).unwrap_or("");
                if !matches!(next, ")" | ";" | "," | "." | "else" | "?") {
                    s.push('\n');
                    bol = true;
                }
            }
            ";" if paren == 0 => {
                s.push('\n');
                bol = true;
            }
            "," if paren == 0 => {
                s.push('\n');
                bol = true;
            }
            _ => {}
        }
    }
    s.push('\n');
    s
}
