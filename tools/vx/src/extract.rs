use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    path::Path,
};

use quote::{quote, ToTokens};
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Expr, ImplItem, Item, TraitItem,
};

use crate::{desugar, toks};

struct Files {
    repo: String,
    cache: HashMap<String, syn::File>,
}

impl Files {
    fn get(&mut self, f: &str) -> Result<&syn::File, String> {
        if !self.cache.contains_key(f) {
            let p = Path::new(&self.repo).join(f);
            let s = fs::read_to_string(&p).map_err(|e| format!("anchor lost: {}: {e}", p.display()))?;
            let parsed = syn::parse_file(&s).map_err(|e| format!("{f}: {e}"))?;
            self.cache.insert(f.to_string(), parsed);
        }
        Ok(&self.cache[f])
    }
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p
            .path
            .segments
            .last()
            .map(|s| s.ident.to_string())
            .unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => quote!(#t).to_string(),
    }
}

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    // tests, and the code of a platform other than this one
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote!(#a).to_string().replace(' ', "");
            s.contains("test") || s == "#[cfg(target_arch=\"wasm32\")]"
        }
    })
}

/// `Type::method`, `Trait for Type::method` or `func`; `outer // inner` is a function declared inside outer's body
fn find_fn(items: &[Item], path: &str, out: &mut Vec<(syn::Signature, syn::Block)>) {
    if let Some((outer, inner)) = path.split_once(" // ") {
        let mut o = Vec::new();
        find_fn(items, outer.trim(), &mut o);
        for (sig, b) in &o {
            // `outer // async`: the body of the async block in outer
            if inner.trim() == "async" {
                struct Find(Vec<syn::Block>);
                impl syn::visit_mut::VisitMut for Find {
                    fn visit_expr_async_mut(&mut self, a: &mut syn::ExprAsync) {
                        self.0.push(a.block.clone());
                    }
                }
                let mut f = Find(Vec::new());
                syn::visit_mut::VisitMut::visit_block_mut(&mut f, &mut b.clone());
                out.extend(f.0.into_iter().map(|b| (sig.clone(), b)));
                continue;
            }
            for st in &b.stmts {
                if let syn::Stmt::Item(Item::Fn(f)) = st {
                    if f.sig.ident == inner.trim() {
                        out.push((f.sig.clone(), (*f.block).clone()));
                    }
                }
            }
        }
        return;
    }
    let (tr, rest) = match path.split_once(" for ") {
        Some((a, b)) => (Some(a.trim()), b.trim()),
        None => (None, path),
    };
    let (ty, name) = match rest.rsplit_once("::") {
        Some((a, b)) => (Some(a.trim()), b.trim()),
        None => (None, rest),
    };
    for it in items {
        match it {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test_attr(&f.attrs) => {
                out.push((f.sig.clone(), (*f.block).clone()))
            }
            Item::Impl(im) => {
                let Some(ty) = ty else { continue };
                if ty_name(&im.self_ty) != ty {
                    continue;
                }
                let last = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last());
                let plain = last.map(|s| s.ident.to_string());
                let full = last.map(|s| quote!(#s).to_string().replace(' ', ""));
                match (tr, &plain) {
                    (Some(t), Some(_)) if t.contains('<') => {
                        if full.as_deref() != Some(t.replace(' ', "").as_str()) {
                            continue;
                        }
                    }
                    // `Tr` means the impl without generic arguments where there are several
                    (Some(t), Some(n)) if t == n => {
                        if full.as_deref() != Some(t)
                            && items.iter().any(|o| matches!(o, Item::Impl(o) if ty_name(&o.self_ty) == ty
                                && o.trait_.as_ref().and_then(|(_, p, _)| p.segments.last()).is_some_and(|s| quote!(#s).to_string() == t)))
                        {
                            continue;
                        }
                    }
                    (None, _) => {}
                    (Some("inherent"), None) => {}
                    _ => continue,
                }
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if f.sig.ident == name && !is_test_attr(&f.attrs) {
                            out.push((f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
            Item::Trait(t) => {
                let Some(ty) = ty else { continue };
                if t.ident != ty {
                    continue;
                }
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                out.push((f.sig.clone(), b.clone()));
                            }
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test_attr(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    find_fn(items, path, out);
                }
            }
            _ => {}
        }
    }
}

fn find_item(items: &[Item], kind: &str, name: &str) -> Option<Item> {
    for it in items {
        if let Item::Macro(m) = it {
            if m.mac.path.is_ident("pin_project") {
                if let Ok(f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                    if let Some(x) = find_item(&f.items, kind, name) {
                        return Some(x);
                    }
                }
            }
        }
        let hit = match it {
            Item::Const(c) => kind == "const" && c.ident == name,
            Item::Static(c) => kind == "static" && c.ident == name,
            Item::Struct(s) => kind == "struct" && s.ident == name,
            Item::Enum(s) => kind == "enum" && s.ident == name,
            Item::Type(s) => kind == "type" && s.ident == name,
            _ => false,
        };
        if hit {
            return Some(it.clone());
        }
        if let Item::Impl(im) = it {
            if kind == "assoc_const" {
                if let Some((ty, c)) = name.split_once("::") {
                    if ty_name(&im.self_ty) == ty {
                        for ii in &im.items {
                            if let ImplItem::Const(k) = ii {
                                if k.ident == c {
                                    let (i, t, e) = (&k.ident, &k.ty, &k.expr);
                                    return Some(parse_quote!(pub const #i: #t = #e;));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_item_struct_mut(&mut self, i: &mut syn::ItemStruct) {
        i.attrs.clear();
        i.vis = parse_quote!(pub);
        visit_mut::visit_item_struct_mut(self, i);
    }
    fn visit_item_enum_mut(&mut self, i: &mut syn::ItemEnum) {
        i.attrs.clear();
        i.vis = parse_quote!(pub);
        for v in &mut i.variants {
            v.attrs.clear();
            for f in &mut v.fields {
                f.attrs.clear();
            }
        }
    }
    fn visit_fields_named_mut(&mut self, f: &mut syn::FieldsNamed) {
        let keep: Vec<syn::Field> = f
            .named
            .iter()
            .filter(|x| !is_test_attr(&x.attrs))
            .cloned()
            .map(|mut x| {
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                x
            })
            .collect();
        f.named = keep.into_iter().collect();
    }
    fn visit_fields_unnamed_mut(&mut self, f: &mut syn::FieldsUnnamed) {
        for x in f.unnamed.iter_mut() {
            x.attrs.clear();
            x.vis = parse_quote!(pub);
        }
    }
    fn visit_item_const_mut(&mut self, i: &mut syn::ItemConst) {
        i.attrs.clear();
        i.vis = parse_quote!(pub);
    }
    fn visit_item_type_mut(&mut self, i: &mut syn::ItemType) {
        i.attrs.clear();
        i.vis = parse_quote!(pub);
    }
}

/// Numbers loops in source order, and leaves a marker in each body.
struct Loops {
    n: usize,
    kinds: Vec<String>,
    iters: BTreeSet<usize>,
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let k = self.n;
                self.n += 1;
                self.kinds.push("for".into());
                let lid = syn::Ident::new(&format!("__vx_loop_{k}_"), proc_macro2::Span::call_site());
                let m: syn::Stmt = parse_quote!(#lid;);
                f.body.stmts.insert(0, m);
                if self.iters.contains(&k) {
                    let id = syn::Ident::new(&format!("__vx_it{k}"), proc_macro2::Span::call_site());
                    let ex = &f.expr;
                    f.expr = Box::new(parse_quote!(#id(#ex)));
                }
            }
            Expr::While(w) => {
                let k = self.n;
                self.n += 1;
                self.kinds.push("while".into());
                let lid = syn::Ident::new(&format!("__vx_loop_{k}_"), proc_macro2::Span::call_site());
                let m: syn::Stmt = parse_quote!(#lid;);
                w.body.stmts.insert(0, m);
            }
            Expr::Loop(w) => {
                let k = self.n;
                self.n += 1;
                self.kinds.push("loop".into());
                let lid = syn::Ident::new(&format!("__vx_loop_{k}_"), proc_macro2::Span::call_site());
                let m: syn::Stmt = parse_quote!(#lid;);
                w.body.stmts.insert(0, m);
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct BreakReturn {
    n: usize,
}
impl VisitMut for BreakReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Break(b) if b.label.is_none() && b.expr.is_some() => {
                let v = b.expr.clone();
                self.n += 1;
                *e = parse_quote!(return #v);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct LocalTypes;
impl VisitMut for LocalTypes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Macro(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

#[derive(Default)]
struct Block {
    secs: Vec<(String, String, String)>, // (name, arg, body)
}
impl Block {
    fn get(&self, n: &str) -> Option<&str> {
        self.secs.iter().find(|s| s.0 == n).map(|s| if s.2.trim().is_empty() { s.1.as_str() } else { s.2.as_str() })
    }
    fn all<'b>(&'b self, n: &'b str) -> impl Iterator<Item = &'b (String, String, String)> + 'b {
        self.secs.iter().filter(move |s| s.0 == n)
    }
}

fn parse_block(lines: &[&str]) -> Block {
    let mut b = Block::default();
    for l in lines {
        if let Some(h) = l.trim_start().strip_prefix('@') {
            let (n, a) = h.split_once(' ').unwrap_or((h, ""));
            b.secs.push((n.trim().to_string(), a.trim().to_string(), String::new()));
        } else if let Some(last) = b.secs.last_mut() {
            last.2.push_str(l);
            last.2.push('\n');
        }
    }
    b
}

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

type Map = (Vec<String>, Vec<String>);

fn parse_map(s: &str) -> Result<Map, String> {
    let (a, b) = s.split_once("=>>").ok_or_else(|| format!("bad map: {s}"))?;
    Ok((toks::parse_pat(a.trim()), toks::parse_pat(b.trim())))
}

pub fn run(repo: &str, template: &str, out_rs: &str, out_json: &str) -> Result<(), String> {
    let text = fs::read_to_string(template).map_err(|e| format!("{template}: {e}"))?;
    let dir = Path::new(template).parent().unwrap_or(Path::new("."));
    // includes
    let mut full = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@ include ") {
            full.push_str(&fs::read_to_string(dir.join(f.trim())).map_err(|e| format!("{f}: {e}"))?);
        } else {
            full.push_str(l);
        }
        full.push('\n');
    }
    let lines: Vec<&str> = full.lines().collect();
    let mut files = Files { repo: repo.into(), cache: HashMap::new() };
    let mut maps: Vec<Map> = Vec::new();
    let mut gflags: BTreeSet<String> = BTreeSet::new();
    let mut drops: BTreeSet<String> = BTreeSet::new();
    let mut out = String::new();
    let mut fn_json: Vec<String> = Vec::new();
    let mut vac = String::new();
    let mut vac_pending = String::new();
    let mut nvac = 0usize;
    let mut synced = 0usize;
    let mut notes: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut drift: Vec<String> = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(m) = t.strip_prefix("//@ map ") {
            maps.push(parse_map(m)?);
        } else if let Some(m) = t.strip_prefix("//@ flags ") {
            gflags.extend(m.split_whitespace().map(|s| s.to_string()));
        } else if let Some(m) = t.strip_prefix("//@ dropmacro ") {
            drops.extend(m.split_whitespace().map(|s| s.to_string()));
        } else if let Some(m) = t.strip_prefix("//@ item ") {
            // //@ item src/x.rs :: struct Name
            let (f, rest) = m.split_once(" :: ").ok_or("bad item")?;
            let (kind, name) = rest.trim().split_once(' ').ok_or("bad item")?;
            match files.get(f.trim()).map(|fl| find_item(&fl.items, kind, name.trim())) {
                Ok(Some(mut it)) => {
                    StripAttrs.visit_item_mut(&mut it);
                    let mut ts = toks::flatten(it.to_token_stream());
                    for (p, r) in &maps {
                        ts = toks::rewrite(ts, p, r).0;
                    }
                    out.push_str(&toks::print(&ts));
                    fn_json.push(format!("{{\"item\":{},\"file\":{}}}", esc(name), esc(f)));
                }
                Ok(None) => drift.push(format!("anchor lost: {f} :: {rest}")),
                Err(e) => drift.push(e),
            }
        } else if let Some(m) = t.strip_prefix("//@ execconst ") {
            // //@ execconst src/x.rs :: NAME ensures EXPR
            let (f, rest) = m.split_once(" :: ").ok_or("bad execconst")?;
            let (name, ens) = rest.split_once(" ensures ").ok_or("bad execconst")?;
            match files.get(f.trim()).map(|fl| find_item(&fl.items, "const", name.trim())) {
                Ok(Some(Item::Const(c))) => {
                    let (i, ty, e) = (&c.ident, &c.ty, &c.expr);
                    let mut ts = toks::flatten(quote!(#e));
                    for (p, r) in &maps {
                        ts = toks::rewrite(ts, p, r).0;
                    }
                    out.push_str(&format!(
                        "pub exec const {i}: {} ensures {ens} {{ {} }}\n",
                        toks::print(&toks::flatten(quote!(#ty))).trim().replace("&str", "&'static str"),
                        toks::print(&ts).trim()
                    ));
                    fn_json.push(format!("{{\"item\":{},\"file\":{}}}", esc(name), esc(f)));
                }
                Ok(_) => drift.push(format!("anchor lost: {f} :: {rest}")),
                Err(e) => drift.push(e),
            }
        } else if let Some(m) = t.strip_prefix("//@ fn ") {
            let (f, path) = m.split_once(" :: ").ok_or("bad fn")?;
            let mut j = i + 1;
            while j < lines.len() && lines[j].trim() != "//@ end" {
                j += 1;
            }
            let blk = parse_block(&lines[i + 1..j]);
            i = j;
            let mut found = Vec::new();
            match files.get(f.trim()) {
                Ok(fl) => find_fn(&fl.items, path.trim(), &mut found),
                Err(e) => {
                    drift.push(e);
                    i += 1;
                    continue;
                }
            }
            if found.len() != 1 {
                drift.push(format!("anchor lost: {f} :: {path} ({} matches)", found.len()));
                i += 1;
                continue;
            }
            let (sig, mut body) = found.pop().unwrap();
            let mut opts = desugar::Opts::default();
            opts.flags = gflags.clone();
            opts.drop_macros = drops.clone();
            for s in blk.all("flags") {
                opts.flags.extend(s.1.split_whitespace().map(|x| x.to_string()));
            }
            for s in blk.all("noflags") {
                for x in s.1.split_whitespace() {
                    opts.flags.remove(x);
                }
            }
            let srcmaps: Vec<Map> = blk.all("srcmap").map(|s| parse_map(&s.1)).collect::<Result<_, _>>()?;
            if !srcmaps.is_empty() {
                let mut st = toks::flatten(body.to_token_stream());
                for (p, r) in &srcmaps {
                    st = toks::rewrite(st, p, r).0;
                }
                match syn::parse_str::<syn::Block>(&toks::print(&st)) {
                    Ok(b) => body = b,
                    Err(e) => drift.push(format!("{path}: srcmap: {e}")),
                }
            }
            // items declared inside the body: functions are extracted on their own (`outer // inner`), `use`s are the template's
            let before = body.stmts.len();
            body.stmts.retain(|s| !matches!(s, syn::Stmt::Item(Item::Fn(_)) | syn::Stmt::Item(Item::Use(_))));
            if body.stmts.len() != before {
                notes.entry(path.to_string()).or_default().insert("items inside the body moved out of it".into());
            }
            // `loop { .. break v .. }` as the function's value: the breaks return v
            if let Some(syn::Stmt::Expr(Expr::Loop(l), None)) = body.stmts.last_mut() {
                if l.label.is_none() {
                    let mut b = BreakReturn { n: 0 };
                    b.visit_block_mut(&mut l.body);
                    if b.n > 0 {
                        notes.entry(path.to_string()).or_default().insert("break with a value out of the last loop -> return".into());
                    }
                }
            }
            let mut d = desugar::Desugar::new(&opts);
            d.visit_block_mut(&mut body);
            for e in &d.errors {
                drift.push(format!("{path}: {e}"));
            }
            notes.entry(path.to_string()).or_default().extend(d.notes.clone());
            let mut lp = Loops {
                n: 0,
                kinds: vec![],
                iters: blk
                    .all("iter")
                    .flat_map(|s| s.1.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<usize>>())
                    .collect(),
            };
            lp.visit_block_mut(&mut body);
            let want: BTreeMap<usize, &str> = blk
                .all("loop")
                .filter_map(|s| s.1.split_whitespace().next().and_then(|x| x.parse().ok()).map(|k| (k, s.2.as_str())))
                .collect();
            let kinds_ok = blk.get("loops").map(|k| k.split_whitespace().map(String::from).collect::<Vec<_>>());
            if let Some(k) = &kinds_ok {
                if *k != lp.kinds {
                    drift.push(format!("{path}: loop kinds changed to {:?}", lp.kinds));
                }
            }
            if blk.get("tail").is_some() {
                let tail = match body.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)) => Some(e.clone()),
                    _ => None,
                };
                if let Some(e) = tail {
                    body.stmts.pop();
                    body.stmts.push(parse_quote!(let vx_ret = #e;));
                    body.stmts.push(parse_quote!(__vx_tail_;));
                    body.stmts.push(syn::Stmt::Expr(parse_quote!(vx_ret), None));
                } else {
                    body.stmts.push(parse_quote!(__vx_tail_;));
                }
            }
            let mut ts = toks::flatten(body.to_token_stream());
            let fmaps: Vec<Map> = blk
                .all("map")
                .map(|s| parse_map(&s.1))
                .collect::<Result<_, _>>()?;
            let premaps: Vec<Map> = blk
                .all("premap")
                .map(|s| parse_map(&s.1))
                .collect::<Result<_, _>>()?;
            for (p, r) in premaps.iter().chain(maps.iter()).chain(fmaps.iter()) {
                ts = toks::rewrite(ts, p, r).0;
            }
            // `mut self`: a mutable local copy of self
            let mut_self = sig.inputs.iter().any(|i| matches!(i, syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some()));
            if mut_self {
                for t in ts.iter_mut() {
                    if t == "self" {
                        *t = "vx_me".to_string();
                    }
                }
                notes.entry(path.to_string()).or_default().insert("mut self -> let mut vx_me = self".into());
            }
            // mustmap: a rewrite that the proof depends on
            for s in blk.all("mustmap") {
                let (p, r) = parse_map(&s.1)?;
                let (t2, n) = toks::rewrite(ts, &p, &r);
                ts = t2;
                if n == 0 {
                    drift.push(format!("{path}: expected fragment not found: {}", s.1));
                }
            }
            let orig_hash = {
                let mut h: u64 = 0xcbf29ce484222325;
                for t in &ts {
                    for b in t.bytes().chain([0u8]) {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                }
                h
            };
            let mut bt = toks::print(&ts);
            let left = (0..lp.n).filter(|k| bt.contains(&format!("__vx_loop_{k}_;"))).count();
            if want.len() != left {
                drift.push(format!("{path}: {left} loops in source, {} annotated", want.len()));
            }
            for (k, inv) in &want {
                let mk = format!("__vx_loop_{k}_;");
                let mut done = String::new();
                // the marker is the first statement of the loop body: move the clauses before `{`
                if let Some(pos) = bt.find(&mk) {
                    let head = bt[..pos].rfind('{').unwrap_or(pos);
                    done.push_str(&bt[..head]);
                    done.push('\n');
                    done.push_str(inv);
                    done.push_str("{\n");
                    for b in blk.all("body") {
                        if b.1.trim() == k.to_string() {
                            done.push_str(&b.2);
                            done.push('\n');
                        }
                    }
                    done.push_str(&bt[pos + mk.len()..]);
                    bt = done;
                } else {
                    drift.push(format!("{path}: marker {mk} lost"));
                }
            }
            for k in 0..lp.n {
                bt = bt.replace(&format!("__vx_it{k}("), &format!("it{k}: ("));
                bt = bt.replace(&format!("__vx_loop_{k}_;"), "");
            }
            if let Some(s) = blk.get("tail") {
                bt = bt.replace("__vx_tail_;", &format!("\n{s}\n"));
            }
            if mut_self {
                if let Some(p) = bt.find('{') {
                    bt.insert_str(p + 1, "\n let mut vx_me = self;\n");
                }
            }
            // body text: insert `start` after the first `{`, `end` before the last `}`
            if let Some(s) = blk.get("start") {
                if let Some(p) = bt.find('{') {
                    bt.insert_str(p + 1, &format!("\n{s}\n"));
                }
            }
            // anchored proof text: `@after <token pattern>` inserts after the statement containing it
            for s in blk.all("after") {
                let pat = s.1.replace(' ', "");
                let mut pos = None;
                let mut off = 0;
                for line in bt.split_inclusive('\n') {
                    if line.replace(' ', "").contains(&pat) {
                        // the statement goes on while a parenthesis is open
                        let mut end = off;
                        let mut open = 0i64;
                        for l in bt[off..].split_inclusive('\n') {
                            end += l.len();
                            open += l.matches('(').count() as i64 - l.matches(')').count() as i64;
                            if open <= 0 {
                                break;
                            }
                        }
                        pos = Some(end);
                        break;
                    }
                    off += line.len();
                }
                match pos {
                    Some(p) => bt.insert_str(p, &format!("{}\n", s.2)),
                    None => drift.push(format!("{path}: proof anchor lost: {}", s.1)),
                }
            }
            for s in blk.all("before") {
                let pat = s.1.replace(' ', "");
                let mut pos = None;
                let mut off = 0;
                for line in bt.split_inclusive('\n') {
                    if line.replace(' ', "").contains(&pat) {
                        pos = Some(off);
                        break;
                    }
                    off += line.len();
                }
                match pos {
                    Some(p) => bt.insert_str(p, &format!("{}\n", s.2)),
                    None => drift.push(format!("{path}: proof anchor lost: {}", s.1)),
                }
            }
            // signature
            let name = blk.get("as").map(|s| s.trim().to_string()).unwrap_or(sig.ident.to_string());
            let mut head = String::new();
            if let Some(a) = blk.get("attr") {
                head.push_str(a);
                head.push('\n');
            }
            if let Some(s) = blk.get("sig") {
                head.push_str(s.trim());
                head.push('\n');
            } else {
                let mut sg = sig.clone();
                sg.asyncness = None;
                for inp in &mut sg.inputs {
                    match inp {
                        syn::FnArg::Receiver(r) => {
                            r.attrs.clear();
                            if r.reference.is_none() {
                                r.mutability = None;
                            }
                        }
                        syn::FnArg::Typed(t) => t.attrs.clear(),
                    }
                }
                let gens = &sg.generics;
                let inputs = &sg.inputs;
                let wh = &sg.generics.where_clause;
                let ret = match &sg.output {
                    syn::ReturnType::Default => String::new(),
                    syn::ReturnType::Type(_, t) => {
                        let mut tt = toks::flatten(t.to_token_stream());
                        for (p, r) in maps.iter().chain(fmaps.iter()) {
                            tt = toks::rewrite(tt, p, r).0;
                        }
                        let rn = blk.get("ret").unwrap_or("r").trim().to_string();
                        format!("-> ({rn}: {})", toks::print(&tt).trim())
                    }
                };
                let mut it = toks::flatten(quote!((#inputs)));
                let mut wt = toks::flatten(quote!(#wh));
                for (p, r) in maps.iter().chain(fmaps.iter()) {
                    it = toks::rewrite(it, p, r).0;
                    wt = toks::rewrite(wt, p, r).0;
                }
                if blk.get("nowhere").is_some() {
                    wt.clear();
                }
                let gt = toks::flatten(quote!(#gens)).join(" ");
                head.push_str(&format!(
                    "pub fn {name}{gt}{}\n    {ret}\n{}\n",
                    toks::print(&it).trim(),
                    toks::print(&wt).trim()
                ));
            }
            // vacuity probe: the same preconditions (and lemmas) must not prove false
            if blk.get("novac").is_none() {
                let mut vh = head.clone();
                if let Some(a) = blk.get("attr") {
                    vh = vh.replacen(a, "", 1);
                }
                let vh = match vh.find("->") {
                    // cut the return type: it starts at the last `->` of the header
                    Some(_) => {
                        let p = vh.rfind("-> (").or(vh.rfind("->")).unwrap();
                        vh[..p].to_string()
                    }
                    None => vh,
                };
                let vh = vh.replacen(" const fn ", " fn ", 1);
                if let Some(p) = vh.find("fn ") {
                    nvac += 1;
                    let after = &vh[p + 3..];
                    let nm_end = after.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(after.len());
                    vac_pending = format!(
                        "fn vx_vac{nvac}_{}{}\n{}{{\n{}\nassert(false);\n{}}}\n",
                        &after[..nm_end],
                        &after[nm_end..],
                        blk.get("requires").map(|r| format!("    requires\n{r}\n")).unwrap_or_default(),
                        blk.get("start").unwrap_or(""),
                        if head.contains("&mut") || head.contains("& mut") { "vx_unreachable::<()>();\n" } else { "" },
                    );
                }
            }
            let start_line = out.matches('\n').count() + 1;
            out.push_str(&format!("// --- extracted from {f} :: {path}\n"));
            out.push_str(&head);
            for sec in ["requires", "ensures", "returns", "decreases"] {
                if let Some(s) = blk.get(sec) {
                    out.push_str(&format!("    {sec}\n{s}\n"));
                }
            }
            out.push_str(&bt);
            vac.push_str("#[verifier::external_body]\n");
            vac.push_str(&head);
            for sec in ["requires", "ensures", "returns", "decreases"] {
                if let Some(s) = blk.get(sec) {
                    vac.push_str(&format!("    {sec}\n{s}\n"));
                }
            }
            vac.push_str(if head.contains("const fn") { &bt } else { "{ unimplemented!() }\n" });
            vac.push_str(&std::mem::take(&mut vac_pending));
            synced = out.len();
            let end_line = out.matches('\n').count() + 1;
            fn_json.push(format!(
                "{{\"fn\":{},\"file\":{},\"as\":{},\"start\":{start_line},\"end\":{end_line},\"loops\":{},\"hash\":\"{:016x}\",\"rewrites\":[{}]}}",
                esc(path.trim()),
                esc(f.trim()),
                esc(&name),
                lp.n,
                orig_hash,
                notes[path].iter().map(|n| esc(n)).collect::<Vec<_>>().join(",")
            ));
        } else {
            out.push_str(l);
            out.push('\n');
        }
        if out.len() > synced {
            vac.push_str(&out[synced..]);
            synced = out.len();
        }
        i += 1;
    }
    if let Some(d) = Path::new(out_rs).parent() {
        fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    fs::write(out_rs, &out).map_err(|e| e.to_string())?;
    let js = format!(
        "{{\"functions\":[{}],\"vac\":{nvac},\"drift\":[{}]}}\n",
        fn_json.join(",\n "),
        drift.iter().map(|d| esc(d)).collect::<Vec<_>>().join(",")
    );
    fs::write(out_rs.replace(".rs", "_vac.rs"), &vac).map_err(|e| e.to_string())?;
    fs::write(out_json, js).map_err(|e| e.to_string())?;
    Ok(())
}
