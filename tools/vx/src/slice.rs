use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
};

use proc_macro2::{LineColumn, Span};
use quote::ToTokens;
use syn::{Attribute, ImplItem, Item, Type, UseTree, spanned::Spanned};

struct Edit<'a> {
    text: &'a str,
    starts: Vec<usize>,
    out: Vec<u8>,
    rules: &'a [String],
    used: BTreeSet<usize>,
}

impl<'a> Edit<'a> {
    fn offset(&self, at: LineColumn) -> usize {
        let start = self.starts[at.line - 1];
        let line = &self.text[start..];
        start + line.char_indices().nth(at.column).map_or(line.len(), |(i, _)| i)
    }

    fn blank(&mut self, from: usize, to: usize) {
        for b in &mut self.out[from..to] {
            if *b != b'\n' {
                *b = b' ';
            }
        }
    }

    fn blank_node(&mut self, attrs: &[Attribute], span: Span) {
        let mut from = self.offset(span.start());
        for a in attrs {
            from = from.min(self.offset(a.span().start()));
        }
        let to = self.offset(span.end());
        self.blank(from, to);
    }

    fn hit(&mut self, key: &str) -> bool {
        let Some(i) = self.rules.iter().position(|r| r == key) else {
            return false;
        };
        self.used.insert(i);
        true
    }

    /// Whether all of `tree` is omitted; if not, `out` gets the spans of what is.
    fn dead_leaves(&mut self, tree: &UseTree, path: String, out: &mut Vec<Span>) -> bool {
        match tree {
            UseTree::Path(p) => self.dead_leaves(&p.tree, format!("{path}{}::", p.ident), out),
            UseTree::Name(n) => self.hit(&format!("{path}{}", n.ident)),
            UseTree::Rename(r) => self.hit(&format!("{path}{}", r.ident)),
            UseTree::Glob(_) => self.hit(&format!("{path}*")),
            UseTree::Group(g) => {
                let mut all = true;
                for t in &g.items {
                    let mut inner = Vec::new();
                    if self.dead_leaves(t, path.clone(), &mut inner) {
                        out.push(t.span());
                    } else {
                        out.extend(inner);
                        all = false;
                    }
                }
                all
            }
        }
    }

    fn items(&mut self, items: &[Item], prefix: &str) {
        for item in items {
            match item {
                Item::Use(u) => {
                    let mut dead = Vec::new();
                    if self.dead_leaves(&u.tree, format!("use {prefix}"), &mut dead) {
                        self.blank_node(&u.attrs, u.span());
                        continue;
                    }
                    for span in dead {
                        let (from, mut to) = (self.offset(span.start()), self.offset(span.end()));
                        let rest = &self.text[to..];
                        if rest.trim_start().starts_with(',') {
                            to += rest.find(',').unwrap() + 1;
                        }
                        self.blank(from, to);
                    }
                }
                Item::Impl(i) => {
                    let ty = last_name(&i.self_ty);
                    let key = match &i.trait_ {
                        Some((_, path, _)) => {
                            let t = path.segments.last().unwrap().ident.to_string();
                            format!("impl {prefix}{t} for {ty}")
                        }
                        None => format!("impl {prefix}{ty}"),
                    };
                    if self.hit(&key) {
                        self.blank_node(&i.attrs, i.span());
                        continue;
                    }
                    for m in &i.items {
                        if let ImplItem::Fn(f) = m
                            && self.hit(&format!("{prefix}{ty}::{}", f.sig.ident))
                        {
                            self.blank_node(&f.attrs, f.span());
                        }
                    }
                }
                Item::Mod(m) => {
                    let name = format!("{prefix}{}", m.ident);
                    if self.hit(&name) {
                        self.blank_node(&m.attrs, m.span());
                    } else if let Some((_, inner)) = &m.content {
                        self.items(inner, &format!("{name}::"));
                    }
                }
                Item::Macro(m) => {
                    if let Some(name) = declared(&m.mac.tokens.to_string())
                        && self.hit(&format!("{prefix}{name}"))
                    {
                        self.blank_node(&m.attrs, m.span());
                    }
                }
                other => {
                    let (name, attrs) = match other {
                        Item::Fn(x) => (x.sig.ident.to_string(), &x.attrs),
                        Item::Struct(x) => (x.ident.to_string(), &x.attrs),
                        Item::Enum(x) => (x.ident.to_string(), &x.attrs),
                        Item::Trait(x) => (x.ident.to_string(), &x.attrs),
                        Item::Type(x) => (x.ident.to_string(), &x.attrs),
                        Item::Const(x) => (x.ident.to_string(), &x.attrs),
                        Item::Static(x) => (x.ident.to_string(), &x.attrs),
                        _ => continue,
                    };
                    if self.hit(&format!("{prefix}{name}")) {
                        self.blank_node(attrs, other.span());
                    }
                }
            }
        }
    }
}

fn last_name(ty: &Type) -> String {
    match ty {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => last_name(&r.elem),
        other => other.to_token_stream().to_string(),
    }
}

/// The type that a `pin_project! { ... struct Name ... }` declares.
fn declared(tokens: &str) -> Option<String> {
    let mut words = tokens.split_whitespace();
    while let Some(w) = words.next() {
        if w == "struct" || w == "enum" {
            return words.next().map(str::to_string);
        }
    }
    None
}

fn rs_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(entries) = fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            rs_files(&p, out);
        } else {
            out.push(p);
        }
    }
}

fn write_if_changed(path: &Path, data: &[u8]) {
    if fs::read(path).is_ok_and(|old| old == data) {
        return;
    }
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    fs::write(path, data).unwrap();
}


/// vx slice STAGE_SRC OMIT OUT_SRC: the sandbox's own slicing (items that need the missing `aisle` crate are blanked).
pub fn run(src: &str, omit: &str, out: &str) -> Result<(), String> {
    let (src, out) = (Path::new(src), Path::new(out));
    let mut rules: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut file = String::new();
    for line in fs::read_to_string(omit).map_err(|e| e.to_string())?.lines() {
        let line = line.split('#').next().unwrap().trim();
        if line.starts_with("missing ") {
        } else if let Some(name) = line.strip_suffix(':') {
            file = name.to_string();
        } else if !line.is_empty() {
            rules.entry(file.clone()).or_default().push(line.to_string());
        }
    }
    let mut files = Vec::new();
    rs_files(src, &mut files);
    for path in files {
        let rel = path.strip_prefix(src).unwrap().to_path_buf();
        if path.extension().is_none_or(|e| e != "rs") {
            continue;
        }
        let text = fs::read_to_string(&path).map_err(|e| e.to_string())?;
        let ast = syn::parse_file(&text).map_err(|e| format!("{}: {e}", path.display()))?;
        let key = format!("src/{}", rel.display());
        let Some(mine) = rules.get(&key) else { continue };
        let starts = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
        let mut edit = Edit { text: &text, starts, out: text.clone().into_bytes(), rules: mine, used: BTreeSet::new() };
        edit.items(&ast.items, "");
        write_if_changed(&out.join(&rel), &edit.out);
    }
    Ok(())
}
