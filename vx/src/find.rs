use crate::Cfg;
use quote::ToTokens;
use std::collections::HashMap;
use syn::spanned::Spanned;

pub struct Finder<'a> {
    cfg: &'a Cfg,
    files: HashMap<String, Result<syn::File, String>>,
    helpers: HashMap<String, crate::inline::Helpers>,
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    /// generics of the enclosing impl
    pub impl_generics: Option<syn::Generics>,
    pub helpers: crate::inline::Helpers,
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl<'a> Finder<'a> {
    pub fn new(cfg: &'a Cfg) -> Self {
        Finder { cfg, files: HashMap::new(), helpers: HashMap::new() }
    }

    /// path forms:  `Trait::f` for trait default methods = `trait:Name/f`; `fn:name`;
    /// `impl:Type/f` ; `impl:Trait~for~Type/f`; `mac:macro_name/...` unsupported.
    pub fn find(&mut self, file: &str, path: &str) -> Result<(Found, (usize, usize)), String> {
        let cfg = self.cfg;
        let f = self.files.entry(file.to_string()).or_insert_with(|| {
            let p = if let Some(c) = file.strip_prefix("@") {
                match cfg.expanded.get(c) {
                    Some(p) => p.clone(),
                    None => return Err(format!("no expanded source for {c}")),
                }
            } else {
                cfg.repo.join("crates").join(file)
            };
            let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
            syn::parse_file(&s).map_err(|e| format!("{}: {e}", p.display()))
        });
        let f = f.as_ref().map_err(|e| e.clone())?;
        let (kind, rest) = path.split_once(':').ok_or("bad path")?;
        let mut hits = vec![];
        search(&f.items, kind, rest, &mut hits);
        match hits.len() {
            1 => {
                let mut hit = hits.pop().unwrap();
                if let Some(known) = cfg.known.get(file.trim_start_matches('@').split('/').next().unwrap()) {
                    let h = self.helpers.entry(file.to_string()).or_insert_with(|| {
                        let mut h = Default::default();
                        helpers(&f.items, known, &mut h);
                        h
                    });
                    hit.0.helpers = h.clone();
                }
                Ok(hit)
            }
            0 => Err(format!("{path} not found in {file}")),
            n => Err(format!("{path} found {n} times in {file}")),
        }
    }
}

/// functions and constants of a file whose names the pinned tree does not have
pub fn helpers(items: &[syn::Item], known: &std::collections::HashSet<String>, out: &mut crate::inline::Helpers) {
    use crate::inline::Helper;
    let mut add = |sig: &syn::Signature, block: &syn::Block| {
        let n = sig.ident.to_string();
        if !known.contains(&n) {
            // two functions of one name: it is not known which is meant
            let v = if out.fns.contains_key(&n) { None } else { Some(Helper { sig: sig.clone(), block: block.clone() }) };
            out.fns.insert(n, v);
        }
    };
    for it in items {
        match it {
            syn::Item::Fn(f) => add(&f.sig, &f.block),
            syn::Item::Trait(t) => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            add(&f.sig, b)
                        }
                    }
                }
            }
            syn::Item::Impl(im) => {
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        add(&f.sig, &f.block)
                    }
                }
            }
            _ => {}
        }
    }
    for it in items {
        match it {
            syn::Item::Const(c) if !known.contains(&c.ident.to_string()) && c.ident != "_" => {
                out.consts.insert(c.ident.to_string(), (*c.expr).clone());
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    helpers(items, known, out);
                }
            }
            _ => {}
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(&a.to_token_stream().to_string());
        s == "#[cfg(test)]" || s == "#[test]"
    })
}

fn search(items: &[syn::Item], kind: &str, rest: &str, hits: &mut Vec<(Found, (usize, usize))>) {
    for it in items {
        match it {
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    search(items, kind, rest, hits);
                }
            }
            syn::Item::Const(c) => {
                // `const _: () = { impl ... };`
                if let syn::Expr::Block(b) = &*c.expr {
                    let items: Vec<syn::Item> = b
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
                        .collect();
                    search(&items, kind, rest, hits);
                }
            }
            syn::Item::Fn(f) if kind == "fn" && f.sig.ident == rest => {
                hits.push((
                    Found { sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: None, helpers: Default::default() },
                    lines(f.span()),
                ));
            }
            syn::Item::Trait(t) if kind == "trait" => {
                let (n, m) = rest.rsplit_once('/').unwrap();
                if t.ident == n {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if f.sig.ident == m {
                                if let Some(b) = &f.default {
                                    hits.push((
                                        Found { sig: f.sig.clone(), block: b.clone(), impl_generics: None, helpers: Default::default() },
                                        lines(f.span()),
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            syn::Item::Impl(im) if kind == "impl" => {
                let (n, m) = rest.rsplit_once('/').unwrap();
                let ty = norm(&im.self_ty.to_token_stream().to_string());
                let head = match &im.trait_ {
                    Some((_, p, _)) => {
                        // full trait path and last-segment forms
                        let full = norm(&p.to_token_stream().to_string());
                        let last = norm(&p.segments.last().unwrap().to_token_stream().to_string());
                        vec![format!("{full}~for~{ty}"), format!("{last}~for~{ty}")]
                    }
                    None => vec![ty],
                };
                if head.iter().any(|h| h == n) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == m {
                                hits.push((
                                    Found {
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                        impl_generics: Some(im.generics.clone()),
                                        helpers: Default::default(),
                                    },
                                    lines(f.span()),
                                ));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn lines(s: proc_macro2::Span) -> (usize, usize) {
    (s.start().line, s.end().line)
}

/// every function of a file, in the path form `find` takes
pub fn list(path: &str) {
    fn go(items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        go(items)
                    }
                }
                syn::Item::Const(c) => {
                    if let syn::Expr::Block(b) = &*c.expr {
                        let items: Vec<syn::Item> = b.block.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                        go(&items);
                    }
                }
                syn::Item::Fn(f) => println!("fn:{}", f.sig.ident),
                syn::Item::Trait(t) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if f.default.is_some() {
                                println!("trait:{}/{}", t.ident, f.sig.ident);
                            }
                        }
                    }
                }
                syn::Item::Impl(im) => {
                    let ty = norm(&im.self_ty.to_token_stream().to_string());
                    let head = match &im.trait_ {
                        Some((_, p, _)) => format!("{}~for~{ty}", norm(&p.segments.last().unwrap().to_token_stream().to_string())),
                        None => ty,
                    };
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            println!("impl:{head}/{}", f.sig.ident);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let s = std::fs::read_to_string(path).unwrap();
    go(&syn::parse_file(&s).unwrap().items);
}
