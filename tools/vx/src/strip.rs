use std::{fs, path::Path};

use syn::spanned::Spanned;

fn is_test_mod(m: &syn::ItemMod) -> bool {
    let name = m.ident.to_string();
    let cfg_test = m.attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string();
            s.contains("test")
        }
    });
    // helper modules that non-test code under cfg(test) refers to are kept
    cfg_test && name != "test" && name != "test_support"
}

fn collect(items: &[syn::Item], out: &mut Vec<(usize, usize)>) {
    for it in items {
        if let syn::Item::Use(u) = it {
            // `#[cfg(test)] use tests::x;`: the module goes, and so does this
            let s = quote::quote!(#u).to_string();
            if !u.attrs.is_empty() && s.contains("cfg") && s.contains("test") && s.contains("tests ::") {
                let a = u.attrs[0].span().byte_range().start;
                out.push((a, u.span().byte_range().end));
            }
        }
        if let syn::Item::Mod(m) = it {
            if is_test_mod(m) {
                let s = m
                    .attrs
                    .first()
                    .map(|a| a.span().byte_range().start)
                    .unwrap_or(m.span().byte_range().start);
                out.push((s, m.span().byte_range().end));
            } else if let Some((_, items)) = &m.content {
                collect(items, out);
            }
        }
    }
}

fn write_if_changed(p: &Path, data: &[u8]) -> std::io::Result<()> {
    if let Ok(old) = fs::read(p) {
        if old == data {
            return Ok(());
        }
    }
    if let Some(d) = p.parent() {
        fs::create_dir_all(d)?;
    }
    fs::write(p, data)
}

fn walk(dir: &Path, rel: &Path, f: &mut dyn FnMut(&Path, &Path) -> Result<(), String>) -> Result<(), String> {
    let mut es: Vec<_> = fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let p = e.path();
        let r = rel.join(e.file_name());
        if p.is_dir() {
            walk(&p, &r, f)?;
        } else {
            f(&p, &r)?;
        }
    }
    Ok(())
}

pub fn run(src: &str, out: &str) -> Result<(), String> {
    let out = Path::new(out);
    let mut kept = std::collections::BTreeSet::new();
    walk(Path::new(src), Path::new(""), &mut |p, r| {
        let data = fs::read(p).map_err(|e| e.to_string())?;
        let mut text = data;
        if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let s = String::from_utf8_lossy(&text).to_string();
            let file = syn::parse_file(&s).map_err(|e| format!("{}: {e}", p.display()))?;
            let mut cut = Vec::new();
            collect(&file.items, &mut cut);
            if !cut.is_empty() {
                let mut b = s.into_bytes();
                for (a, z) in cut {
                    for c in &mut b[a..z] {
                        if *c != b'\n' {
                            *c = b' ';
                        }
                    }
                }
                text = b;
            }
        }
        kept.insert(r.to_path_buf());
        write_if_changed(&out.join(r), &text).map_err(|e| e.to_string())
    })?;
    // remove files that disappeared
    let mut stale = Vec::new();
    walk(out, Path::new(""), &mut |p, r| {
        if !kept.contains(r) {
            stale.push(p.to_path_buf());
        }
        Ok(())
    })?;
    for p in stale {
        let _ = fs::remove_file(p);
    }
    Ok(())
}
