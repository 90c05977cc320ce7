use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

/// Print tokens with one statement per line; `__vx!(name);` markers become section text, and a
/// brace group opening with `__vxinv!(N);` gets section `loop N` printed before its `{`.
pub fn print(ts: TokenStream, sections: &BTreeMap<String, String>) -> String {
    let mut s = String::new();
    go(ts, &mut s, sections);
    s
}

fn marker(tts: &[TokenTree], i: usize, name: &str) -> Option<String> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
        (tts.get(i), tts.get(i + 1), tts.get(i + 2))
    {
        if id == name && p.as_char() == '!' {
            return Some(g.stream().to_string().trim_matches('"').to_string());
        }
    }
    None
}

fn go(ts: TokenStream, s: &mut String, sections: &BTreeMap<String, String>) {
    let tts: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < tts.len() {
        if let Some(m) = marker(&tts, i, "__vx") {
            s.push('\n');
            if let Some(t) = sections.get(&m) {
                s.push_str(t);
            }
            i += 3;
            if let Some(TokenTree::Punct(p)) = tts.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        // closure with a contract
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(g))) = (tts.get(i), tts.get(i + 2)) {
            if id == "__vxclosure" {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let key = inner[0].to_string().trim_matches('"').to_string();
                let sec = sections.get(&key).cloned().unwrap_or_default();
                let (head, spec) = sec.split_once('\n').unwrap_or((&sec, ""));
                let (args, ret) = head.split_once("->").unwrap_or((head, "()"));
                let a: Vec<String> = crate::rewrite::split_top(args).iter().enumerate().map(|(i, t)| format!("__a{i}: {}", t.trim())).collect();
                s.push_str(&format!("|{}| -> (__r: {})\n{}", a.join(", "), ret.trim(), spec));
                go(inner[1..].iter().cloned().collect(), s, sections);
                i += 3;
                continue;
            }
        }
        // inline section (expression position)
        if let Some(m) = marker(&tts, i, "__vxe") {
            match sections.get(&m) {
                Some(t) => s.push_str(t.trim()),
                None => s.push_str(&other_condition(sections, &m)),
            }
            s.push(' ');
            i += 3;
            continue;
        }
        match &tts[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::None => ("", ""),
                };
                let mut stream = g.stream();
                if g.delimiter() == Delimiter::Brace {
                    if let Some(m) = marker(&inner, 0, "__vxinv") {
                        s.push('\n');
                        if let Some(t) = sections.get(&format!("loop {m}")) {
                            s.push_str(t);
                        }
                        stream = inner.into_iter().skip(4).collect();
                    }
                }
                s.push_str(o);
                go(stream, s, sections);
                if g.delimiter() == Delimiter::Brace && !s.ends_with('\n') {
                    s.push('\n');
                }
                s.push_str(c);
                if g.delimiter() != Delimiter::Brace {
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    s.push('\n');
                } else if p.as_char() == ',' {
                    s.push(' ');
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
            }
        }
        i += 1;
    }
}

/// The condition for a panic site the contract does not list: where the listed sites of the
/// function (whatever their form: `unwrap`, `assert!`, `panic!`) state one condition, a site
/// written in another form is held to the same one.
fn other_condition(sections: &BTreeMap<String, String>, key: &str) -> String {
    let mut cs: Vec<&str> = sections
        .iter()
        .filter(|(k, _)| ["unwrap ", "assert ", "panic "].iter().any(|p| k.starts_with(p)))
        .map(|(_, v)| v.trim())
        .filter(|v| *v != "true")
        .collect();
    cs.sort();
    cs.dedup();
    if cs.is_empty() || (cs.len() > 1 && !key.starts_with("panic")) {
        return "true".into();
    }
    cs.iter().map(|c| format!("({c})")).collect::<Vec<_>>().join(" && ")
}
