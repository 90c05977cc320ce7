//! vx: mechanical extraction of functions from /repo's current source into one Verus file.
//! See /verif/DESIGN.md ("Extraction") for the complete list of rewrite rules.
mod printer;
mod rewrite;
mod find;
mod inline;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::path::PathBuf;

pub struct Cfg {
    pub repo: PathBuf,
    pub expanded: HashMap<String, PathBuf>,
    pub debug: bool,
    pub limb: String,
    pub probe: String,
    /// per crate: the names of functions and constants of the pinned tree
    pub known: HashMap<String, std::collections::HashSet<String>>,
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub id: String,
    pub file: String,
    pub path: String,
    pub opts: BTreeMap<String, String>,
    /// section name -> text
    pub sections: BTreeMap<String, String>,
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut cfg = Cfg {
        repo: PathBuf::from("/repo"),
        expanded: HashMap::new(),
        debug: true,
        limb: "u8".into(),
        probe: String::new(),
        known: HashMap::new(),
    };
    let mut template = None;
    let mut out = None;
    let mut map = None;
    let mut sigs = None;
    let mut write_sigs = false;
    let mut drops: BTreeSet<String> = BTreeSet::new();
    let mut defs: HashMap<String, String> = HashMap::new();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--list" => {
                find::list(&val());
                return;
            }
            "--repo" => cfg.repo = val().into(),
            "--template" => template = Some(val()),
            "--out" => out = Some(val()),
            "--map" => map = Some(val()),
            "--sigs" => sigs = Some(val()),
            "--write-sigs" => write_sigs = true,
            "--limb" => cfg.limb = val(),
            "--release" => cfg.debug = false,
            "--known" => cfg.known = serde_json::from_str(&std::fs::read_to_string(val()).unwrap()).unwrap(),
            "--probe" => cfg.probe = val(),
            "--drop" => {
                drops.insert(val());
            }
            "--def" => {
                let v = val();
                let (k, v) = v.split_once('=').unwrap();
                defs.insert(k.into(), v.into());
            }
            "--expanded" => {
                let v = val();
                let (k, v) = v.split_once('=').unwrap();
                cfg.expanded.insert(k.into(), v.into());
            }
            _ => panic!("bad arg {a}"),
        }
        i += 1;
    }
    let template = template.expect("--template");
    let sigs_path = sigs;
    let mut sig_db: BTreeMap<String, String> = sigs_path
        .as_ref()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| serde_json::from_str(&s).unwrap())
        .unwrap_or_default();
    let mode_key = |id: &str| format!("{}|{}", if cfg.debug { "d" } else { "r" }, id);

    let mut finder = find::Finder::new(&cfg);
    let mut text = String::new();
    load(&template, &mut text, &defs);

    let mut outp = String::new();
    let mut report: Vec<serde_json::Value> = vec![];
    let mut cur: Option<(FnSpec, String, String)> = None; // spec, current section, indent
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim_end();
            if let Some(rest) = d.strip_prefix("fn ") {
                assert!(cur.is_none(), "nested //@fn at {line}");
                let mut it = rest.split_whitespace();
                let mut sp = FnSpec {
                    id: it.next().unwrap().into(),
                    file: it.next().unwrap_or_else(|| panic!("{line}")).into(),
                    path: it.next().unwrap_or_else(|| panic!("{line}")).into(),
                    ..Default::default()
                };
                for o in it {
                    match o.split_once('=') {
                        Some((k, v)) => sp.opts.insert(k.into(), v.into()),
                        None => sp.opts.insert(o.into(), String::new()),
                    };
                }
                cur = Some((sp, "contract".into(), String::new()));
            } else if d == "endfn" {
                let (sp, _, _) = cur.take().expect("endfn");
                let start_line = outp.lines().count() + 1;
                let dropped = drops.contains(&sp.id);
                let base = if write_sigs || sig_db.is_empty() { None } else { Some(sig_db.get(&format!("{}#loops", mode_key(&sp.id))).cloned().unwrap_or_default()) };
                let mut moved = false;
                let mut inlined: Vec<String> = vec![];
                let r = match finder.find(&sp.file, &sp.path) {
                    Ok((f, span)) => match rewrite::emit(&cfg, &sp, &f, dropped, base.as_deref()) {
                        Ok((sig, body, hash, skel, inl)) => {
                            inlined = inl;
                            let sk = format!("{}#loops", mode_key(&sp.id));
                            if write_sigs {
                                sig_db.insert(mode_key(&sp.id), sig.clone());
                                if skel.is_empty() { sig_db.remove(&sk); } else { sig_db.insert(sk.clone(), skel.clone()); }
                            }
                            moved = sig_db.get(&sk).cloned().unwrap_or_default() != skel;
                            Ok((sig, body, hash, span))
                        }
                        Err(e) => Err(e),
                    },
                    Err(e) => Err(e),
                };
                let (status, sig, body, hash, span) = match r {
                    Ok((sig, body, hash, span)) => (
                        if dropped { "dropped".to_string() } else { "ok".to_string() },
                        sig,
                        body,
                        hash,
                        span,
                    ),
                    Err(e) => {
                        let sig = sig_db.get(&mode_key(&sp.id)).cloned().unwrap_or_default();
                        (
                            format!("error: {e}"),
                            sig,
                            "{\n assume(false);\n vstd::pervasive::unreached()\n}".to_string(),
                            String::new(),
                            (0, 0),
                        )
                    }
                };
                let contract = sp.sections.get("contract").cloned().unwrap_or_default();
                let _ = writeln!(outp, "// vx-begin {}", sp.id);
                if let Some(a) = sp.sections.get("attr") {
                    outp.push_str(a);
                }
                let _ = writeln!(outp, "{sig}");
                outp.push_str(&contract);
                let _ = writeln!(outp, "{body}");
                let _ = writeln!(outp, "// vx-end {}", sp.id);
                let end_line = outp.lines().count();
                report.push(serde_json::json!({
                    "id": sp.id, "file": sp.file, "path": sp.path, "status": status,
                    "src_lines": [span.0, span.1], "out_lines": [start_line, end_line], "hash": hash,
                    "loops_changed": moved, "inlined": inlined,
                }));
            } else if let Some(rest) = d.strip_prefix("const ").filter(|_| cur.is_none()) {
                // `//@const NAME FILE TYPE DEFAULT`: the constant as the source has it now
                let w: Vec<&str> = rest.split_whitespace().collect();
                let src = std::fs::read_to_string(format!("{}/crates/{}", cfg.repo.display(), w[1])).unwrap_or_default();
                let found = syn::parse_file(&src).ok().and_then(|f| {
                    f.items.iter().find_map(|i| match i {
                        syn::Item::Const(c) if c.ident == w[0] => Some(quote::ToTokens::to_token_stream(&c.expr).to_string()),
                        _ => None,
                    })
                });
                let _ = writeln!(outp, "pub const {}: {} = {};", w[0], w[2], found.unwrap_or(w[3].to_string()));
            } else if let Some((_, sec, _)) = cur.as_mut() {
                *sec = d.trim().to_string();
            } else {
                panic!("directive outside fn: {line}");
            }
        } else if let Some((sp, sec, _)) = cur.as_mut() {
            let s = sp.sections.entry(sec.clone()).or_default();
            s.push_str(line);
            s.push('\n');
        } else {
            outp.push_str(line);
            outp.push('\n');
        }
    }
    assert!(cur.is_none(), "missing endfn for {}", cur.unwrap().0.id);
    std::fs::write(out.expect("--out"), &outp).unwrap();
    if let Some(m) = map {
        std::fs::write(m, serde_json::to_string_pretty(&report).unwrap()).unwrap();
    }
    if write_sigs {
        std::fs::write(
            sigs_path.expect("--sigs"),
            serde_json::to_string_pretty(&sig_db).unwrap(),
        )
        .unwrap();
    }
}

/// Read a template; `//%include f` includes, `//%if K=V` ... `//%endif` conditionals,
/// `//%for X in a b c` ... `//%endfor` repeat with `$X` replaced, `$K` def substitution.
fn load(path: &str, out: &mut String, defs: &HashMap<String, String>) {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let lines: Vec<&str> = s.lines().collect();
    proc(&lines, &dir, out, defs);
}

fn proc(lines: &[&str], dir: &std::path::Path, out: &mut String, defs: &HashMap<String, String>) {
    let mut i = 0;
    while i < lines.len() {
        let line = lines[i];
        let t0 = subst_defs(line.trim_start(), defs);
        let t = if line.trim_start().starts_with("//%") { t0.as_str() } else { line.trim_start() };
        if let Some(f) = t.strip_prefix("//%include ") {
            load(dir.join(f.trim()).to_str().unwrap(), out, defs);
        } else if t.starts_with("//%if ") || t.starts_with("//%for ") {
            let mut depth = 1;
            let mut j = i + 1;
            while depth > 0 {
                let u = lines[j].trim_start();
                if u.starts_with("//%if ") || u.starts_with("//%for ") {
                    depth += 1;
                } else if u.starts_with("//%endif") || u.starts_with("//%endfor") {
                    depth -= 1;
                }
                j += 1;
            }
            let body = &lines[i + 1..j - 1];
            if let Some(c) = t.strip_prefix("//%if ") {
                let c = c.trim();
                let ok = if let Some((k, v)) = c.split_once("!=") {
                    defs.get(k.trim()).map(|s| s.as_str()).unwrap_or(k.trim()) != v.trim()
                } else {
                    let (k, v) = c.split_once('=').unwrap();
                    defs.get(k.trim()).map(|s| s.as_str()).unwrap_or(k.trim()) == v.trim()
                };
                if ok {
                    proc(body, dir, out, defs);
                }
            } else {
                let c = t.strip_prefix("//%for ").unwrap();
                let (x, vs) = c.split_once(" in ").unwrap();
                let names: Vec<&str> = x.split(',').map(|s| s.trim()).collect();
                for v in vs.split_whitespace() {
                    let mut d = defs.clone();
                    for (n, val) in names.iter().zip(v.split(',')) {
                        d.insert(n.to_string(), val.to_string());
                    }
                    proc(body, dir, out, &d);
                }
            }
            i = j;
            continue;
        } else {
            let l = subst_defs(line, defs);
            out.push_str(&l);
            out.push('\n');
        }
        i += 1;
    }
}

fn subst_defs(line: &str, defs: &HashMap<String, String>) -> String {
    let mut l = line.to_string();
    if l.contains('$') {
        let mut keys: Vec<_> = defs.keys().collect();
        keys.sort_by_key(|k| std::cmp::Reverse(k.len()));
        for k in keys {
            l = l.replace(&format!("${k}"), &defs[k]);
        }
    }
    l
}
