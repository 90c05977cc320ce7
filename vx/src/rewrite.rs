use crate::find::Found;
use crate::{printer, Cfg, FnSpec};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// `ops=@num`: every operator on values of the modelled number type
const NUM_OPS: &str = "+->v_add;-->v_sub;*->v_mul;/->v_div;%->v_rem;<<->v_shl;>>->v_shr;&->v_and;==->v_eq;<->v_lt;>->v_gt;<=->v_le;>=->v_ge;u-->v_neg";

const LIMB_METHODS: &[&str] = &[
    "zero", "one", "is_zero", "is_one", "max_value", "min_value", "overflowing_add", "overflowing_sub", "overflowing_mul",
    "widening_mul", "checked_shl", "checked_shr", "from_checked", "truncate_from", "saturate_from", "truncate",
];
const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "Limb",
];

fn prim_size(t: &str, limb: &str) -> Option<usize> {
    Some(match t {
        "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" => 4,
        "u64" | "i64" | "usize" | "isize" => 8,
        "u128" | "i128" => 16,
        "Limb" => prim_size(limb, "")?,
        _ => return None,
    })
}

fn tystr(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn parse_ty(s: &str) -> Type {
    parse_str(s).unwrap_or_else(|e| panic!("type {s}: {e}"))
}

pub struct Rw<'a> {
    cfg: &'a Cfg,
    limb: bool,
    subst: HashMap<String, Type>,
    rename: HashMap<String, Ident>,
    tf: Option<String>,
    fromfn: bool,
    fromfn_len: String,
    nfromfn: usize,
    noall: bool,
    ptr: bool,
    bidx: bool,
    deref: HashMap<String, String>,
    ixcall: HashMap<String, String>,
    iterfn: Vec<String>,
    hoist: bool,
    chain: Vec<String>,
    nchain: usize,
    index: Option<String>,
    methods: HashMap<String, String>,
    calls: HashMap<String, String>,
    ops: HashMap<String, String>,
    consts: HashMap<String, Expr>,
    depth: usize,
    nassert: usize,
    npanic: usize,
    nunwrap: usize,
    nclosure: usize,
    ntmp: usize,
    keep_unsafe: bool,
    precise_unwrap: bool,
    opt_map: bool,
    sections: &'a std::collections::BTreeMap<String, String>,
    err: Option<String>,
}

fn cfg_eval(m: &Meta, debug: bool) -> Option<bool> {
    match m {
        Meta::Path(p) => match tystr(p).as_str() {
            "debug_assertions" => Some(debug),
            "test" => Some(false),
            "unix" => Some(true),
            _ => None,
        },
        Meta::NameValue(nv) => {
            let k = tystr(&nv.path);
            let v = tystr(&nv.value);
            Some(match (k.as_str(), v.trim_matches('"')) {
                ("feature", "std") => true,
                ("feature", _) => false,
                ("target_endian", e) => e == "little",
                ("target_pointer_width", e) => e == "64",
                _ => return None,
            })
        }
        Meta::List(l) => {
            let inner = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .ok()?;
            match tystr(&l.path).as_str() {
                "not" => Some(!cfg_eval(inner.first()?, debug)?),
                "all" => {
                    let mut r = true;
                    for i in &inner {
                        r &= cfg_eval(i, debug)?;
                    }
                    Some(r)
                }
                "any" => {
                    let mut r = false;
                    for i in &inner {
                        r |= cfg_eval(i, debug)?;
                    }
                    Some(r)
                }
                _ => None,
            }
        }
    }
}

fn attrs_enabled(attrs: &[Attribute], debug: bool) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            a.parse_args::<Meta>().ok().and_then(|m| cfg_eval(&m, debug)).unwrap_or(true)
        } else {
            true
        }
    })
}

fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Assign(x) => &mut x.attrs,
        Expr::Binary(x) => &mut x.attrs,
        Expr::Path(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Tuple(x) => &mut x.attrs,
        Expr::Struct(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::Unsafe(x) => &mut x.attrs,
        Expr::Unary(x) => &mut x.attrs,
        Expr::Try(x) => &mut x.attrs,
        _ => return None,
    })
}

/// Is this `X.iter()` / `X.iter_mut()` / `X.into_iter()`? Returns X.
fn strip_method<'e>(e: &'e Expr, name: &str) -> Option<&'e Expr> {
    match e {
        Expr::MethodCall(m) if m.method == name && m.args.is_empty() => Some(&m.receiver),
        Expr::Paren(p) => strip_method(&p.expr, name),
        _ => None,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

enum IterKind {
    Range { lo: Expr, hi: Expr, incl: bool },
    Slice(Expr),
    SliceMut(Expr),
    Zip(Expr, Expr),
    Other(Expr),
}

/// one side of Iterator::zip: (place, how an element is bound: 'm' by &mut, 'r' by &, 'v' by value)
fn zip_side(e: &Expr) -> (Expr, char) {
    let e = strip_paren(e);
    if let Some(x) = strip_method(e, "iter_mut") {
        (x.clone(), 'm')
    } else if let Some(x) = strip_method(e, "iter") {
        (x.clone(), 'r')
    } else if let Some(x) = strip_method(e, "into_iter") {
        (x.clone(), 'v')
    } else if let Expr::Reference(r) = e {
        ((*r.expr).clone(), if r.mutability.is_some() { 'm' } else { 'r' })
    } else {
        (e.clone(), 'v')
    }
}
fn zip_args(e: &Expr) -> Option<(Expr, Expr)> {
    match strip_paren(e) {
        Expr::Call(c) if c.args.len() == 2 && matches!(tystr(&c.func).as_str(), "Iterator::zip" | "core::iter::zip" | "iter::zip" | "zip") => Some((c.args[0].clone(), c.args[1].clone())),
        Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 && ["iter", "iter_mut", "into_iter"].iter().any(|n| strip_method(&m.receiver, n).is_some()) => Some(((*m.receiver).clone(), m.args[0].clone())),
        _ => None,
    }
}

struct IterDesc {
    kind: IterKind,
    enumerate: bool,
    rev: bool,
    copied: bool,
    skip: Option<Expr>,
}

fn classify(e: &Expr) -> Option<IterDesc> {
    let mut rev = false;
    let mut enumerate = false;
    let mut copied = false;
    let mut skip = None;
    let mut cur = strip_paren(e);
    loop {
        if let Some(x) = strip_method(cur, "rev") {
            // rev outermost; `enumerate().rev()` keeps indices. `rev().enumerate()` unsupported.
            if enumerate {
                return None;
            }
            rev = !rev;
            cur = strip_paren(x);
            continue;
        }
        if let Some(x) = strip_method(cur, "enumerate") {
            if enumerate {
                return None;
            }
            enumerate = true;
            cur = strip_paren(x);
            continue;
        }
        if let Some(x) = strip_method(cur, "copied").or_else(|| strip_method(cur, "cloned")) {
            copied = true;
            cur = strip_paren(x);
            continue;
        }
        if let Expr::MethodCall(m) = cur {
            if m.method == "skip" && m.args.len() == 1 && !rev && !enumerate {
                skip = Some(m.args[0].clone());
                cur = strip_paren(&m.receiver);
                continue;
            }
        }
        break;
    }
    if let Some((a, b)) = zip_args(cur) {
        return Some(IterDesc { kind: IterKind::Zip(a, b), enumerate, rev, copied, skip });
    }
    let kind = match cur {
        Expr::Range(r) => IterKind::Range {
            lo: (**r.start.as_ref()?).clone(),
            hi: (**r.end.as_ref()?).clone(),
            incl: matches!(r.limits, RangeLimits::Closed(_)),
        },
        Expr::Reference(r) if r.mutability.is_some() => IterKind::SliceMut((*r.expr).clone()),
        Expr::Reference(r) => IterKind::Slice((*r.expr).clone()),
        _ => {
            if let Some(x) = strip_method(cur, "iter") {
                IterKind::Slice(x.clone())
            } else if let Some(x) = strip_method(cur, "iter_mut") {
                IterKind::SliceMut(x.clone())
            } else {
                IterKind::Other(cur.clone())
            }
        }
    };
    Some(IterDesc { kind, enumerate, rev, copied, skip })
}

impl Rw<'_> {
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }

    /// Bind `pat` to element expression for a by-reference element at place `place`.
    fn bind_ref(&mut self, pat: &Pat, place: TokenStream, copied: bool) -> TokenStream {
        match pat {
            Pat::Reference(r) if !copied => {
                let p = &r.pat;
                quote!(let #p = #place;)
            }
            _ if copied => quote!(let #pat = #place;),
            _ => quote!(let #pat = & #place;),
        }
    }

    fn desugar(&mut self, pat: &Pat, it: &Expr, body: TokenStream) -> Option<TokenStream> {
        let mut d = classify(it)?;
        // `iterfn=X`: X.iter() is the crate's own iterator
        if let IterKind::Slice(x) = &d.kind {
            if self.iterfn.contains(&tystr(x)) {
                d.kind = IterKind::Other(parse2(quote!(#x.iter())).ok()?);
            }
        }
        let k = format_ident!("__k{}", self.depth);
        let e = format_ident!("__e{}", self.depth);
        let s = format_ident!("__s{}", self.depth);
        let (ipat, vpat): (Option<Pat>, Pat) = if d.enumerate {
            match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                _ => return None,
            }
        } else {
            (None, pat.clone())
        };
        Some(match d.kind {
            IterKind::Range { lo, hi, incl } => {
                if d.enumerate || d.copied || d.skip.is_some() {
                    return None;
                }
                match (d.rev, incl) {
                    (false, false) => quote!({
                        let mut #k = #lo; let #e = #hi;
                        while #k < #e { let #vpat = #k; #k = #k + 1; __vxstart!(); #body }
                    }),
                    (false, true) => quote!({
                        let mut #k = #lo; let #e = #hi;
                        while #k <= #e { let #vpat = #k; #k = #k + 1; __vxstart!(); #body }
                    }),
                    (true, false) => quote!({
                        let #e = #lo; let mut #k = #hi;
                        while #k > #e { #k = #k - 1; let #vpat = #k; __vxstart!(); #body }
                    }),
                    (true, true) => quote!({
                        let #e = #lo; let mut #k = (#hi) + 1;
                        while #k > #e { #k = #k - 1; let #vpat = #k; __vxstart!(); #body }
                    }),
                }
            }
            IterKind::Slice(x) => {
                let bi = ipat.map(|p| quote!(let #p = #k;)).unwrap_or_default();
                let bv = self.bind_ref(&vpat, quote!(#s[#k]), d.copied);
                let start = match &d.skip {
                    Some(n) => quote!(#n),
                    None => quote!(0usize),
                };
                if d.rev {
                    if d.skip.is_some() { return None; }
                    quote!({
                        let #s = & #x; let mut #k = #s.len();
                        while #k > 0 { #k = #k - 1; #bi #bv __vxstart!(); #body }
                    })
                } else {
                    if d.skip.is_some() && d.enumerate { return None; }
                    let post = quote!(#k = #k + 1;);
                    quote!({
                        let #s = & #x; let mut #k = #start;
                        while #k < #s.len() { #bi #bv #post __vxstart!(); #body }
                    })
                }
            }
            IterKind::SliceMut(x) => {
                if d.rev || d.copied || d.skip.is_some() {
                    return None;
                }
                let bi = ipat.map(|p| quote!(let #p = #k;)).unwrap_or_default();
                // the loop variable `v: &mut T` becomes a local copy written back at the end of the
                // body; `break`/`continue` would skip the write-back, so `*v` is instead replaced by
                // the place itself.
                let id = match &vpat {
                    Pat::Ident(i) => i.ident.clone(),
                    _ => return None,
                };
                let b: Block = parse2(quote!({ #body })).ok()?;
                let mut r = DerefPlace { id: id.clone(), place: parse2(quote!(#x[__ki])).ok()?, bad: false };
                let mut b2 = b.clone();
                r.visit_block_mut(&mut b2);
                if r.bad {
                    return None;
                }
                let stmts = &b2.stmts;
                let ki = format_ident!("__i{}", self.depth);
                let body2: TokenStream = rename_ident(quote!(#(#stmts)*), "__ki", &ki.to_string());
                quote!({
                    let mut #k = 0usize;
                    while #k < #x.len() { let #ki = #k; #bi #k = #k + 1; __vxstart!(); #body2 }
                })
            }
            IterKind::Zip(a, b) => {
                if d.rev || d.copied || d.skip.is_some() || d.enumerate {
                    return None;
                }
                let (pa, pb) = match &vpat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => return None,
                };
                let ki = format_ident!("__i{}", self.depth);
                let mut body: Block = parse2(quote!({ #body })).ok()?;
                let mut binds = TokenStream::new();
                let mut bounds = vec![];
                for (p, e) in [(pa, a), (pb, b)] {
                    let (x, how) = zip_side(&e);
                    bounds.push(quote!(#k < #x.len()));
                    match how {
                        'm' => {
                            let id = match &p {
                                Pat::Ident(i) => i.ident.clone(),
                                _ => return None,
                            };
                            let mut r = DerefPlace { id, place: parse2(quote!(#x[#ki])).ok()?, bad: false };
                            r.visit_block_mut(&mut body);
                            if r.bad {
                                return None;
                            }
                        }
                        'r' => binds.extend(self.bind_ref(&p, quote!(#x[#ki]), false)),
                        _ => binds.extend(quote!(let #p = #x[#ki];)),
                    }
                }
                let stmts = &body.stmts;
                quote!({
                    let mut #k = 0usize;
                    while #(#bounds)&&* { let #ki = #k; #k = #k + 1; #binds __vxstart!(); #(#stmts)* }
                })
            }
            IterKind::Other(x) => {
                if d.rev || d.copied || d.skip.is_some() {
                    return None;
                }
                let it = format_ident!("__it{}", self.depth);
                if let Some(p) = ipat {
                    quote!({
                        let mut #it = #x; let mut #k = 0usize;
                        while let Some(#vpat) = #it.next() { let #p = #k; #k = #k + 1; __vxstart!(); #body }
                    })
                } else {
                    quote!({
                        let mut #it = #x;
                        while let Some(#vpat) = #it.next() { __vxstart!(); #body }
                    })
                }
            }
        })
    }

    fn hoist_stmts(&mut self, old: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = vec![];
        for mut st in old {
            let mut h = Hoist { found: vec![], chain: self.chain.clone(), nchain: self.nchain };
            h.visit_stmt_mut(&mut st);
            self.nchain = h.nchain;
            out.extend(h.found);
            out.push(st);
        }
        out
    }

    /// the length of the next array::from_fn, in source order (`fromfn=ROW,COL`)
    /// a `:` and the element type may follow each length
    fn next_len(&mut self) -> (TokenStream, TokenStream) {
        let v: Vec<&str> = self.fromfn_len.split(',').collect();
        let r = v[self.nfromfn.min(v.len() - 1)];
        self.nfromfn += 1;
        let (n, t) = r.split_once(':').unwrap_or((r, "_"));
        (n.parse().unwrap(), t.parse().unwrap())
    }

    fn pre(&mut self, e: &mut Expr) {
        // nested element iteration by value
        let new: Option<TokenStream> = match e {
            // overloaded indexing by a pair
            Expr::Assign(a) if self.index.is_some() && pair_index(&a.left).is_some() => {
                let n = format_ident!("{}_mut", self.index.clone().unwrap());
                let (b, i) = pair_index(&a.left).unwrap();
                let r = &a.right;
                Some(quote!({ let __t = #r; *#b.#n(#i) = __t; }))
            }
            Expr::Reference(a) if self.index.is_some() && a.mutability.is_some() && pair_index(&a.expr).is_some() => {
                let n = format_ident!("{}_mut", self.index.clone().unwrap());
                let (b, i) = pair_index(&a.expr).unwrap();
                Some(quote!(#b.#n(#i)))
            }
            // &*X.as_ptr().add(k) and &mut *X.as_ptr().add(k) on the modelled pointer
            Expr::Reference(a) if self.ptr && ptr_at(&a.expr).is_some() => {
                let (x, k) = ptr_at(&a.expr).unwrap();
                if a.mutability.is_some() {
                    Some(quote!(#x.v_ptr_at_mut(#k)))
                } else {
                    Some(quote!(#x.v_ptr_at(#k)))
                }
            }
            // (*p) of a modelled raw pointer
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.deref.contains_key(&tystr(strip_paren(&u.expr))) => {
                let x: Expr = parse_str(&self.deref[&tystr(strip_paren(&u.expr))].replace('~', " ")).expect("deref=");
                Some(quote!((*#x)))
            }
            // X[i] of a modelled container
            Expr::Index(ix) if self.ixcall.contains_key(&tystr(strip_paren(&ix.expr))) => {
                let n = self.ixcall[&tystr(strip_paren(&ix.expr))].replace('~', " ");
                let (n, x) = n.split_once('@').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((n.clone(), String::new()));
                let n = format_ident!("{}", n);
                let x: TokenStream = x.parse().unwrap();
                let (b, i) = (&ix.expr, &ix.index);
                Some(quote!(#b.#n(#i, #x)))
            }
            // &X[i][j] with the bounds check of core as a callee that panics or answers
            Expr::Reference(a) if self.bidx && matches!(strip_paren(&a.expr), Expr::Index(_)) => Some(checked_ref(&a.expr, a.mutability.is_some())),
            // &mut X[a..b] of a slice
            Expr::Reference(a) if self.ptr && a.mutability.is_some() && sub_range(&a.expr).is_some() => {
                let (x, lo, hi) = sub_range(&a.expr).unwrap();
                let lo = lo.map(|l| quote!(#l)).unwrap_or(quote!(0usize));
                hi.map(|hi| quote!(v_sub_mut(#x, #lo, #hi)))
            }
            Expr::Index(_) if self.index.is_some() && pair_index(e).is_some() => {
                let n = format_ident!("{}", self.index.clone().unwrap());
                let (b, i) = pair_index(e).unwrap();
                Some(quote!((*#b.#n(#i))))
            }
            Expr::ForLoop(f) => {
                let stmts = &f.body.stmts;
                let r = self.desugar(&f.pat, &f.expr, quote!(#(#stmts)*));
                if r.is_none() {
                    self.fail("unsupported for loop");
                }
                r
            }
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    if has_return(&c.body) {
                        self.fail("return inside for_each closure");
                    }
                    let body = match &*c.body {
                        Expr::Block(b) => {
                            let s = &b.block.stmts;
                            quote!(#(#s)*)
                        }
                        x => quote!(#x;),
                    };
                    self.desugar(&c.inputs[0], &m.receiver, body)
                } else {
                    None
                }
            }
            Expr::MethodCall(m) if m.method == "rposition" && m.args.len() == 1 => {
                match (strip_method(&m.receiver, "iter"), strip_paren(&m.args[0])) {
                    (Some(x), Expr::Closure(c)) => {
                        let k = format_ident!("__k{}", self.depth);
                        let r = format_ident!("__r{}", self.depth);
                        let s = format_ident!("__s{}", self.depth);
                        let pat = &c.inputs[0];
                        let body = &c.body;
                        let b = self.bind_ref(pat, quote!(#s[#k]), false);
                        Some(quote!({
                            let #s = & #x; let mut #k = #s.len(); let mut #r: Option<usize> = None;
                            while #k > 0 && #r.is_none() { #k = #k - 1; #b __vxstart!(); if #body { #r = Some(#k); } }
                            #r
                        }))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if m.method == "find_map" && m.args.len() == 1 => {
                let (rec, en) = match strip_method(&m.receiver, "enumerate") {
                    Some(x) => (x, true),
                    None => (&*m.receiver, false),
                };
                match (strip_method(rec, "iter"), strip_paren(&m.args[0])) {
                    (Some(x), Expr::Closure(c)) if !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let r = format_ident!("__r{}", self.depth);
                        let s = format_ident!("__s{}", self.depth);
                        let pat = &c.inputs[0];
                        let body = &c.body;
                        let b = if en {
                            match pat {
                                Pat::Tuple(t) if t.elems.len() == 2 => {
                                    let i = &t.elems[0];
                                    let v = self.bind_ref(&t.elems[1], quote!(#s[#k]), false);
                                    Some(quote!(let #i = #k; #v))
                                }
                                _ => None,
                            }
                        } else {
                            Some(self.bind_ref(pat, quote!(#s[#k]), false))
                        };
                        b.map(|b| quote!({
                            let #s = & #x; let mut #k = 0usize; let mut #r = None;
                            while #k < #s.len() && #r.is_none() { #b #k = #k + 1; __vxstart!(); #r = #body; }
                            #r
                        }))
                    }
                    _ => None,
                }
            }
            // Iterator::zip(a, b).map(|p| e).fold(init, |acc, val| f), with or without the map
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 && zip_map(&m.receiver).is_some() => {
                let (z, mp) = zip_map(&m.receiver).unwrap();
                match strip_paren(&m.args[1]) {
                    Expr::Closure(c) if c.inputs.len() == 2 && !has_return(&c.body) => {
                        let acc = format_ident!("__acc{}", self.depth);
                        let (init, body) = (&m.args[0], &c.body);
                        let (pa, pv) = (&c.inputs[0], &c.inputs[1]);
                        let (pat, step) = match mp {
                            Some(mc) => {
                                let e = &mc.body;
                                (mc.inputs[0].clone(), quote!(#acc = { let #pa = #acc; let #pv = #e; #body };))
                            }
                            None => (pv.clone(), quote!(#acc = { let #pa = #acc; #body };)),
                        };
                        self.desugar(&pat, &z, step).map(|l| quote!({ let mut #acc = #init; #l #acc }))
                    }
                    _ => None,
                }
            }
            // (lo..hi).map(|r| e).enumerate().filter(|p| c).min_by(|a, b| o): the first least kept item
            Expr::MethodCall(m) if m.method == "min_by" && m.args.len() == 1 && min_chain(&m.receiver).is_some() => {
                let (lo, hi, mc, en, fc) = min_chain(&m.receiver).unwrap();
                match strip_paren(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.len() == 2 && !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let e = format_ident!("__e{}", self.depth);
                        let b = format_ident!("__m{}", self.depth);
                        let (p1, p2, cmp) = (&c.inputs[0], &c.inputs[1], &c.body);
                        let (mp, mb) = (&mc.inputs[0], &mc.body);
                        let item = if en { quote!((#k - __lo, #mb)) } else { quote!(#mb) };
                        let keep = match &fc {
                            Some(f) => {
                                let (fp, fb) = (&f.inputs[0], &f.body);
                                quote!({ let #fp = &__x; #fb })
                            }
                            None => quote!(true),
                        };
                        Some(quote!({
                            let __lo = #lo; let mut #k = __lo; let #e = #hi; let mut #b = None;
                            while #k < #e {
                                let #mp = #k; let __x = #item; #k = #k + 1; __vxstart!();
                                if #keep {
                                    #b = match #b {
                                        None => Some(__x),
                                        Some(__y) => if matches!({ let #p1 = &__y; let #p2 = &__x; #cmp }, Ordering::Greater) { Some(__x) } else { Some(__y) },
                                    };
                                }
                            }
                            #b
                        }))
                    }
                    _ => None,
                }
            }
            // (lo..hi).fold(init, |acc, i| body), and try_fold with the "go on" constructor of `tf=`
            Expr::MethodCall(m)
                if (m.method == "fold" || m.method == "try_fold") && m.args.len() == 2
                    && matches!(strip_paren(&m.receiver), Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_))) =>
            {
                match (strip_paren(&m.receiver), strip_paren(&m.args[1])) {
                    (Expr::Range(r), Expr::Closure(c)) if c.inputs.len() == 2 && !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let en = format_ident!("__e{}", self.depth);
                        let acc = format_ident!("__acc{}", self.depth);
                        let (lo, hi, init, body) = (&r.start, &r.end, &m.args[0], &c.body);
                        let (pa, pi) = (&c.inputs[0], &c.inputs[1]);
                        if m.method == "fold" {
                            Some(quote!({
                                let mut #k = #lo; let #en = #hi; let mut #acc = #init;
                                while #k < #en { let #pi = #k; #k = #k + 1; __vxstart!(); #acc = { let #pa = #acc; #body }; }
                                #acc
                            }))
                        } else {
                            match self.tf.clone() {
                                Some(t) => {
                                    let t: TokenStream = t.parse().unwrap();
                                    Some(quote!({
                                        let mut #k = #lo; let #en = #hi; let mut #acc = #t(#init);
                                        while #k < #en && matches!(#acc, #t(_)) { let #pi = #k; #k = #k + 1; __vxstart!(); #acc = match #acc { #t(#pa) => #body, __o => __o }; }
                                        #acc
                                    }))
                                }
                                None => None,
                            }
                        }
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if m.method == "map_break" && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(_)) => {
                let (x, c) = (&m.receiver, &m.args[0]);
                Some(quote!((match #x { ControlFlow::Break(__b) => ControlFlow::Break(#c(__b)), ControlFlow::Continue(__c) => ControlFlow::Continue(__c) })))
            }
            // [const { MaybeUninit::uninit() }; N]
            Expr::Repeat(r) if matches!(&*r.expr, Expr::Const(c) if { let st = &c.block.stmts; tystr(&quote!(#(#st)*)) == "MaybeUninit::uninit()" }) => Some(quote!(v_uninit_arr())),
            // array::from_fn(|i| body) and X.each_mut().map(|v| body): calls in index order
            Expr::Call(c) if self.fromfn && c.args.len() == 1 && tystr(&c.func).ends_with("array::from_fn") => {
                match strip_paren(&c.args[0]) {
                    Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let b = format_ident!("__b{}", self.depth);
                        let (pi, body) = (&c.inputs[0], &c.body);
                        let (n, bt) = self.next_len();
                        Some(quote!({
                            let mut #k = 0usize; let mut #b = VBuild::<#bt, _>::v_new();
                            while #k < #n { let #pi = #k; #k = #k + 1; __vxstart!(); #b.v_push(#body); }
                            #b.v_finish()
                        }))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if self.fromfn && m.method == "map" && m.args.len() == 1 && strip_method(&m.receiver, "each_mut").is_some() => {
                match (strip_method(&m.receiver, "each_mut"), strip_paren(&m.args[0])) {
                    (Some(x), Expr::Closure(c)) if c.inputs.len() == 1 && !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let b = format_ident!("__b{}", self.depth);
                        let (pv, body) = (&c.inputs[0], &c.body);
                        let (n, bt) = self.next_len();
                        Some(quote!({
                            let mut #k = 0usize; let mut #b = VBuild::<#bt, _>::v_new();
                            while #k < #n { let #pv = &mut #x[#k]; #k = #k + 1; __vxstart!(); #b.v_push(#body); }
                            #b.v_finish()
                        }))
                    }
                    _ => None,
                }
            }
            // [(); N].map(|_| body): N calls in order
            Expr::MethodCall(m) if self.fromfn && m.method == "map" && m.args.len() == 1 && matches!(strip_paren(&m.receiver), Expr::Repeat(r) if tystr(&r.expr) == "()") => {
                match (strip_paren(&m.receiver), strip_paren(&m.args[0])) {
                    (Expr::Repeat(r), Expr::Closure(c)) if c.inputs.len() == 1 && !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let b = format_ident!("__b{}", self.depth);
                        let (n, body) = (&r.len, &c.body);
                        let (_, bt) = self.next_len();
                        Some(quote!({
                            let mut #k = 0usize; let mut #b = VBuild::<#bt, _>::v_new();
                            while #k < #n { #k = #k + 1; __vxstart!(); let __x = #body; #b.v_push(__x); }
                            #b.v_finish()
                        }))
                    }
                    _ => None,
                }
            }
            // (lo..hi).all(|i| body)
            Expr::MethodCall(m)
                if (m.method == "all" || m.method == "any") && m.args.len() == 1
                    && matches!(strip_paren(&m.receiver), Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_))) =>
            {
                match (strip_paren(&m.receiver), strip_paren(&m.args[0])) {
                    (Expr::Range(r), Expr::Closure(c)) if c.inputs.len() == 1 && !has_return(&c.body) => {
                        let k = format_ident!("__k{}", self.depth);
                        let en = format_ident!("__e{}", self.depth);
                        let rr = format_ident!("__r{}", self.depth);
                        let (lo, hi, body, pi) = (&r.start, &r.end, &c.body, &c.inputs[0]);
                        if m.method == "all" {
                            Some(quote!({
                                let mut #k = #lo; let #en = #hi; let mut #rr: bool = true;
                                while #k < #en && #rr { let #pi = #k; #k = #k + 1; __vxstart!(); #rr = #body; }
                                #rr
                            }))
                        } else {
                            Some(quote!({
                                let mut #k = #lo; let #en = #hi; let mut #rr: bool = false;
                                while #k < #en && !#rr { let #pi = #k; #k = #k + 1; __vxstart!(); #rr = #body; }
                                #rr
                            }))
                        }
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if m.method == "all" && m.args.len() == 1 && !self.noall => {
                let base = strip_method(&m.receiver, "iter").or_else(|| strip_method(&m.receiver, "into_static_iter")).cloned();
                let by_ref = strip_method(&m.receiver, "iter").is_some();
                match (base, strip_paren(&m.args[0])) {
                    (Some(x), Expr::Closure(c)) => {
                        let k = format_ident!("__k{}", self.depth);
                        let r = format_ident!("__r{}", self.depth);
                        let s = format_ident!("__s{}", self.depth);
                        let pat = &c.inputs[0];
                        let body = &c.body;
                        let b = self.bind_ref(pat, quote!(#s[#k]), !by_ref);
                        Some(quote!({
                            let #s = & #x; let mut #k = 0usize; let mut #r: bool = true;
                            while #k < #s.len() && #r { #b #k = #k + 1; __vxstart!(); #r = #body; }
                            #r
                        }))
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(ts) = new {
            match parse2::<Expr>(ts.clone()) {
                Ok(x) => *e = x,
                Err(er) => self.fail(format!("desugar: {er}: {ts}")),
            }
        }
    }

    fn post(&mut self, e: &mut Expr) {
        let mut out: Option<TokenStream> = None;
        match e {
            Expr::Unsafe(u) if !self.keep_unsafe => {
                let s = &u.block.stmts;
                out = Some(quote!({ #(#s)* }));
            }
            Expr::Const(c) => {
                let s = &c.block.stmts;
                out = Some(quote!({ #(#s)* }));
            }
            Expr::Macro(m) => {
                if let Some(ts) = self.macro_expr(&m.mac) {
                    out = Some(ts);
                }
            }
            Expr::Binary(b) => {
                let k = tystr(&b.op);
                if let (true, None, Some(n)) = (k == "!=", self.ops.get("!="), self.ops.get("==")) {
                    // `a != b` is `!(a == b)`
                    let (l, r, n) = (&b.left, &b.right, format_ident!("{}", n));
                    out = Some(quote!((!(#l).#n(#r))));
                } else if let Some(n) = self.ops.get(&k).cloned().filter(|n| n != "_" && !tystr(&b.left).starts_with("__k")) {
                    let (l, r) = (&b.left, &b.right);
                    let n = format_ident!("{}", n);
                    if k.ends_with('=') && !["==", "!=", "<=", ">="].contains(&k.as_str()) {
                        out = Some(quote!(#l.#n(#r)));
                    } else {
                        out = Some(quote!((#l).#n(#r)));
                    }
                }
            }
            Expr::Path(p) if (p.qself.is_some() || p.path.segments.len() > 1) && self.calls.get(&tystr(&p)).is_some_and(|n| !n.contains('@')) => {
                let n: TokenStream = self.calls[&tystr(&p)].parse().unwrap();
                out = Some(quote!(#n));
            }
            Expr::Cast(c) if matches!(tystr(&c.ty).replace(' ', "").as_str(), "&[_]") => {
                let x = &c.expr;
                out = Some(quote!((#x)));
            }
            Expr::Cast(c) if self.ops.contains_key("as") => {
                let (x, ty, n) = (&c.expr, &c.ty, format_ident!("{}", self.ops["as"]));
                out = Some(quote!(VAs::<#ty>::#n(#x)));
            }
            Expr::Unary(u) => {
                let k = format!("u{}", tystr(&u.op));
                if let Some(n) = self.ops.get(&k).cloned() {
                    let x = &u.expr;
                    let n = format_ident!("{}", n);
                    out = Some(quote!((#x).#n()));
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(n) = self.methods.get(&name).cloned() {
                    // `m->n@EXPR`: the model of shared memory is passed as a last argument
                    let (n, x) = n.split_once('@').map(|(a, b)| (a.to_string(), Some(b.to_string()))).unwrap_or((n, None));
                    m.method = format_ident!("{}", n);
                    if let Some(x) = x {
                        m.args.push(parse_str(&x.replace('~', " ")).expect("methods=..@EXPR"));
                    }
                } else if self.limb && (name == "max" || name == "min") && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args);
                    let f = format_ident!("v{}", name);
                    out = Some(quote!(#f(#r, #a)));
                } else if self.limb && name == "set" {
                    m.method = format_ident!("bset");
                } else if name == "unwrap_unchecked" {
                    m.method = format_ident!("unwrap");
                } else if self.limb && LIMB_METHODS.contains(&name.as_str()) {
                    m.method = format_ident!("v_{}", name);
                } else if (name == "unwrap" || name == "expect") && self.precise_unwrap {
                    let r = &m.receiver;
                    let key = format!("unwrap {}", self.nunwrap);
                    self.nunwrap += 1;
                    out = Some(quote!(vunwrap(#r, Ghost(__vxe!(#key)))));
                } else if name == "map" && self.opt_map && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        let r = &m.receiver;
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let b = &c.body;
                        out = Some(quote!((match #r { Some(#p) => Some(#b), None => None })));
                    }
                } else if name == "is_some_and" && m.args.len() == 1 && matches!(strip_paren(&m.args[0]), Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body)) {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        out = Some(quote!((match #r { Some(#p) => #b, None => false })));
                    }
                } else if name == "unwrap_or_else" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        if c.inputs.is_empty() {
                            let r = &m.receiver;
                            let b = &c.body;
                            out = Some(quote!((match #r { Some(__x) => __x, None => #b })));
                        }
                    }
                } else if name == "then_some" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    out = Some(quote!({ let __c = #r; let __v = #a; if __c { Some(__v) } else { None } }));
                } else if name == "then" && m.args.len() == 1 && matches!(strip_paren(&m.args[0]), Expr::Closure(c) if c.inputs.is_empty() && !has_return(&c.body)) {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        let (r, b) = (&m.receiver, &c.body);
                        out = Some(quote!((if #r { Some(#b) } else { None })));
                    }
                } else if name == "and_then" && m.args.len() == 1 && self.opt_map && matches!(strip_paren(&m.args[0]), Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body)) {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        out = Some(quote!((match #r { Some(#p) => #b, None => None })));
                    }
                } else if (name == "map_or" || name == "map_or_else") && m.args.len() == 2 && matches!(strip_paren(&m.args[1]), Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body)) {
                    if let Expr::Closure(c) = strip_paren(&m.args[1]) {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        match strip_paren(&m.args[0]) {
                            Expr::Closure(d) if name == "map_or_else" && d.inputs.is_empty() && !has_return(&d.body) => {
                                let d = &d.body;
                                out = Some(quote!((match #r { Some(#p) => #b, None => #d })));
                            }
                            d if name == "map_or" => out = Some(quote!((match #r { Some(#p) => #b, None => #d }))),
                            _ => {}
                        }
                    }
                } else if name == "ok_or_else" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        if c.inputs.is_empty() {
                            let r = &m.receiver;
                            let b = &c.body;
                            out = Some(quote!((match #r { Some(__x) => Ok(__x), None => Err(#b) })));
                        }
                    }
                } else if name == "fill" && m.args.len() == 1 {
                    // X[a..b].fill(v) / X[..n].fill(v) / X[n..].fill(v)
                    if let Expr::Index(ix) = strip_paren(&m.receiver) {
                        if let Expr::Range(rg) = strip_paren(&ix.index) {
                            let base = &ix.expr;
                            let v = &m.args[0];
                            let lo = rg.start.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(0usize));
                            out = match &rg.end {
                                Some(h) => Some(quote!(vfill(#base, #lo, #h, #v))),
                                None => Some(quote!(vfill_from(#base, #lo, #v))),
                            };
                        }
                    }
                } else if name == "product" && m.args.is_empty() {
                    // (a..=b).product()
                    if let Expr::Range(rg) = strip_paren(&m.receiver) {
                        if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&rg.start, &rg.end, &rg.limits) {
                            out = Some(quote!(v_product_range(#a, #b)));
                        }
                    }
                } else if name == "drain" && m.args.len() == 1 {
                    if let Expr::Range(rg) = strip_paren(&m.args[0]) {
                        if rg.end.is_none() && rg.start.is_some() {
                            let r = &m.receiver;
                            let lo = rg.start.as_ref().unwrap();
                            out = Some(quote!(vdrain_from(&mut #r, #lo)));
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let ps = tystr(&p);
                    if ps == "unreachable_unchecked" || ps.ends_with("::unreachable_unchecked") {
                        out = Some(quote!(vunreachable()));
                    }
                    // a raw pointer does not borrow: the (read-only) later arguments may be read before it is taken
                    if self.ptr && c.args.len() > 1 && matches!(&c.args[0], Expr::MethodCall(m) if m.method == "as_mut_ptr") {
                        let f = &c.func;
                        let a0 = &c.args[0];
                        let rest: Vec<_> = c.args.iter().skip(1).collect();
                        let names: Vec<_> = (0..rest.len()).map(|k| format_ident!("__late{}", k)).collect();
                        out = Some(quote!({ #(let #names = #rest;)* #f(#a0, #(#names),*) }));
                    }
                    if ps.contains("panicking::panic") {
                        let key = format!("panic {}", self.npanic);
                        self.npanic += 1;
                        out = Some(quote!(vpanic(Ghost(__vxe!(#key)))));
                    }
                    let last = ps.rsplit("::").next().unwrap_or("");
                    if (last == "max" || last == "min")
                        && c.args.len() == 2
                        && ["usize::", "cmp::", "core::cmp::", "std::cmp::", "Ord::"].iter().any(|p| ps == format!("{p}{last}"))
                    {
                        let f = format_ident!("v{}", last);
                        let a = &c.args;
                        out = Some(quote!(#f(#a)));
                    }
                }
                if out.is_none() {
                    if let Expr::Path(p) = &mut *c.func {
                        if let Some(seg) = p.path.segments.last() {
                            if seg.ident == "size_of" {
                                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                                    let t = tystr(&a.args);
                                    if let Some(n) = prim_size(&t, &self.cfg.limb) {
                                        let l = LitInt::new(&format!("{n}usize"), Span::call_site());
                                        out = Some(quote!(#l));
                                    }
                                }
                            }
                        }
                    }
                }
                if out.is_none() {
                    if let Expr::Path(p) = &mut *c.func {
                        let ps = tystr(&p);
                        if let Some((n, x)) = self.calls.get(&ps).cloned().as_deref().and_then(|n| n.split_once('@')) {
                            let np: ExprPath = parse_str(n).expect("calls=..@EXPR");
                            *p = np;
                            c.args.push(parse_str(&x.replace('~', " ")).expect("calls=..@EXPR"));
                        } else if let Some(n) = self.calls.get(&ps) {
                            if let Ok(np) = parse_str::<ExprPath>(n) {
                                *p = np;
                            }
                        } else {
                            // `f::<.., { N }>(a)`: the const argument becomes the first value argument
                            let mut bare = p.clone();
                            let mut consts = vec![];
                            if let Some(seg) = bare.path.segments.last_mut() {
                                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                                    for x in &a.args {
                                        if let GenericArgument::Const(Expr::Block(b)) = x {
                                            consts.push(Expr::Block(b.clone()));
                                        }
                                    }
                                }
                                seg.arguments = PathArguments::None;
                            }
                            if !consts.is_empty() {
                                if let Some(n) = self.calls.get(&format!("{}@", tystr(&bare))).cloned() {
                                    for c in consts.iter_mut() {
                                        self.visit_expr_mut(c);
                                    }
                                    let a = &c.args;
                                    let np: ExprPath = parse_str(&n).unwrap();
                                    out = Some(quote!(#np(#(#consts,)* #a)));
                                }
                            }
                        }
                    }
                }
            }
            Expr::Closure(c) => {
                // `//@closure N`: first line `T0; T1 -> R`, then requires/ensures over __a0, __a1, __r
                let key = format!("closure {}", self.nclosure);
                self.nclosure += 1;
                if self.sections.contains_key(&key) {
                    let mut binds = TokenStream::new();
                    for (i, p) in c.inputs.iter().enumerate() {
                        let p = match p {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let a = format_ident!("__a{}", i);
                        match &p {
                            Pat::Wild(_) => {}
                            Pat::Reference(r) => {
                                let q = &r.pat;
                                binds.extend(quote!(let #q = *#a;));
                            }
                            _ => binds.extend(quote!(let #p = #a;)),
                        }
                    }
                    let b = &c.body;
                    if self.hoist {
                        let stmts: Vec<Stmt> = match &**b {
                            Expr::Block(x) => x.block.stmts.clone(),
                            x => vec![Stmt::Expr(x.clone(), None)],
                        };
                        let stmts = self.hoist_stmts(stmts);
                        out = Some(quote!(__vxclosure!(#key { #binds #(#stmts)* })));
                    } else {
                        out = Some(quote!(__vxclosure!(#key { #binds #b })));
                    }
                }
            }
            _ => {}
        }
        if let Some(ts) = out {
            match parse2::<Expr>(ts.clone()) {
                Ok(x) => *e = x,
                Err(er) => self.fail(format!("post: {er}: {ts}")),
            }
        }
    }

    fn macro_expr(&mut self, mac: &Macro) -> Option<TokenStream> {
        let name = mac.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "assert" | "debug_assert" => {
                if name == "debug_assert" && !self.cfg.debug {
                    return Some(quote!({}));
                }
                let args = mac
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?;
                let mut c = args.first()?.clone();
                let key = format!("assert {}", self.nassert);
                self.nassert += 1;
                self.visit_expr_mut(&mut c);
                Some(quote!(vassert(#c, Ghost(__vxe!(#key)))))
            }
 "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if name.starts_with("debug_") && !self.cfg.debug {
                    return Some(quote!({}));
                }
                let args = mac
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?;
                let (a, b) = (args.first()?.clone(), args.iter().nth(1)?.clone());
                let mut c: Expr = if name.ends_with("_ne") { parse2(quote!((#a) != (#b))).ok()? } else { parse2(quote!((#a) == (#b))).ok()? };
                let key = format!("assert {}", self.nassert);
                self.nassert += 1;
                self.visit_expr_mut(&mut c);
                Some(quote!(vassert(#c, Ghost(__vxe!(#key)))))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let key = format!("panic {}", self.npanic);
                self.npanic += 1;
                Some(quote!(vpanic(Ghost(__vxe!(#key)))))
            }
            "cfg" => {
                let m: Meta = mac.parse_body().ok()?;
                let v = cfg_eval(&m, self.cfg.debug)?;
                Some(if v { quote!(true) } else { quote!(false) })
            }
            "matches" => {
                let ts: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
                let pos = ts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let ex: TokenStream = ts[..pos].iter().cloned().collect();
                let pat: TokenStream = ts[pos + 1..].iter().cloned().collect();
                let mut x: Expr = parse2(ex).ok()?;
                self.visit_expr_mut(&mut x);
                Some(quote!((match #x { #pat => true, _ => false })))
            }
            "write" => {
                let args = mac
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?;
                let mut w = args.first()?.clone();
                self.visit_expr_mut(&mut w);
                let lit = match args.iter().nth(1)? {
                    Expr::Lit(ExprLit { lit: Lit::Str(x), .. }) => x.value(),
                    _ => return None,
                };
                if args.len() == 2 && !lit.contains('{') && !lit.contains('}') {
                    Some(quote!(#w.v_write_str(#lit)))
                } else if args.len() == 3 && lit == "{}" {
                    let mut x = args.iter().nth(2)?.clone();
                    self.visit_expr_mut(&mut x);
                    Some(quote!(#w.v_write_num(#x)))
                } else {
                    None
                }
            }
            "vec" => {
                let ts: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
                if let Some(pos) = ts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
                    let a: TokenStream = ts[..pos].iter().cloned().collect();
                    let b: TokenStream = ts[pos + 1..].iter().cloned().collect();
                    let mut a: Expr = parse2(a).ok()?;
                    let mut b: Expr = parse2(b).ok()?;
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    Some(quote!(vvec(#a, #b)))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

fn checked_ref(e: &Expr, m: bool) -> TokenStream {
    match strip_paren(e) {
        Expr::Index(x) => {
            let b = checked_ref(&x.expr, m);
            let i = &x.index;
            if m { quote!(v_at_mut(#b, #i)) } else { quote!(v_at(#b, #i)) }
        }
        x if m => quote!(&mut #x),
        x => quote!(&#x),
    }
}
fn pair_index(e: &Expr) -> Option<(Expr, Expr)> {
    match strip_paren(e) {
        Expr::Index(ix) if matches!(strip_paren(&ix.index), Expr::Tuple(_)) => Some(((*ix.expr).clone(), (*ix.index).clone())),
        _ => None,
    }
}
fn ptr_at(e: &Expr) -> Option<(Expr, Expr)> {
    match strip_paren(e) {
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match strip_paren(&u.expr) {
            Expr::MethodCall(m) if m.method == "add" && m.args.len() == 1 => {
                strip_method(&m.receiver, "as_ptr").map(|x| (x.clone(), m.args[0].clone()))
            }
            _ => None,
        },
        _ => None,
    }
}
fn sub_range(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>)> {
    match strip_paren(e) {
        Expr::Index(ix) => match strip_paren(&ix.index) {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => Some(((*ix.expr).clone(), r.start.as_ref().map(|x| (**x).clone()), r.end.as_ref().map(|x| (**x).clone()))),
            _ => None,
        },
        _ => None,
    }
}
fn zip_map(e: &Expr) -> Option<(Expr, Option<ExprClosure>)> {
    let e = strip_paren(e);
    if zip_args(e).is_some() {
        return Some((e.clone(), None));
    }
    match e {
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && zip_args(&m.receiver).is_some() => match strip_paren(&m.args[0]) {
            Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body) => Some(((*m.receiver).clone(), Some(c.clone()))),
            _ => None,
        },
        _ => None,
    }
}
fn closure1(m: &ExprMethodCall) -> Option<ExprClosure> {
    match (m.args.len(), m.args.first().map(strip_paren)) {
        (1, Some(Expr::Closure(c))) if c.inputs.len() == 1 && !has_return(&c.body) => Some(c.clone()),
        _ => None,
    }
}
#[allow(clippy::type_complexity)]
fn min_chain(e: &Expr) -> Option<(Expr, Expr, ExprClosure, bool, Option<ExprClosure>)> {
    let mut cur = strip_paren(e);
    let mut filter = None;
    let mut en = false;
    if let Expr::MethodCall(m) = cur {
        if m.method == "filter" {
            filter = Some(closure1(m)?);
            cur = strip_paren(&m.receiver);
        }
    }
    if let Some(x) = strip_method(cur, "enumerate") {
        en = true;
        cur = strip_paren(x);
    }
    let m = match cur {
        Expr::MethodCall(m) if m.method == "map" => m,
        _ => return None,
    };
    let mc = closure1(m)?;
    match strip_paren(&m.receiver) {
        Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => Some(((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone(), mc, en, filter)),
        _ => None,
    }
}

struct Hoist {
    found: Vec<Stmt>,
    /// methods whose receiver and result are named (`chain=`)
    chain: Vec<String>,
    nchain: usize,
}
impl VisitMut for Hoist {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("__vxclosure") {
                let n = m.mac.tokens.clone().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                let n: String = n.chars().filter(|c| c.is_ascii_digit()).collect();
                let id = format_ident!("__c{}", n);
                let x: Expr = parse2(quote!(#id)).unwrap();
                let m = std::mem::replace(e, x);
                self.found.push(parse2(quote!(let #id = #m;)).unwrap());
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if self.chain.contains(&m.method.to_string()) {
                let (mi, vi) = (format_ident!("__m{}", self.nchain), format_ident!("__v{}", self.nchain));
                let key = format!("chain {}", self.nchain);
                self.nchain += 1;
                let r = std::mem::replace(&mut *m.receiver, parse2(quote!(#mi)).unwrap());
                self.found.push(parse2(quote!(let #mi = #r;)).unwrap());
                let c = std::mem::replace(e, parse2(quote!(#vi)).unwrap());
                self.found.push(parse2(quote!(let #vi = #c;)).unwrap());
                self.found.push(parse2(quote!(__vx!(#key);)).unwrap());
            }
        }
    }
    fn visit_block_mut(&mut self, _: &mut Block) {}
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

struct DerefPlace {
    id: Ident,
    place: Expr,
    bad: bool,
}
impl VisitMut for DerefPlace {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = strip_paren(&u.expr) {
                    if p.path.is_ident(&self.id) {
                        *e = self.place.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.id) {
                self.bad = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn rename_ident(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == from => TokenTree::Ident(Ident::new(to, i.span())),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_ident(g.stream(), from, to));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

impl VisitMut for Rw<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let debug = self.cfg.debug;
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let keep = match &mut s {
                Stmt::Local(l) => {
                    let k = attrs_enabled(&l.attrs, debug);
                    l.attrs.clear();
                    k
                }
                Stmt::Expr(e, _) => match expr_attrs(e) {
                    Some(a) => {
                        let k = attrs_enabled(a, debug);
                        a.clear();
                        k
                    }
                    None => true,
                },
                Stmt::Macro(m) => attrs_enabled(&m.attrs, debug),
                Stmt::Item(Item::Const(c)) => {
                    let mut e = (*c.expr).clone();
                    self.visit_expr_mut(&mut e);
                    self.consts.insert(c.ident.to_string(), e);
                    false
                }
                Stmt::Item(Item::Static(c)) if matches!(c.mutability, StaticMutability::None) => {
                    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                    match parse2::<Stmt>(quote!(let #n: #t = #e;)) {
                        Ok(x) => { s = x; true }
                        Err(_) => { self.fail("local static"); false }
                    }
                }
                Stmt::Item(Item::Use(_)) => false,
                Stmt::Item(_) => {
                    self.fail("nested item");
                    false
                }
            };
            if !keep {
                continue;
            }
            if let Stmt::Macro(m) = &s {
                if let Some(ts) = self.macro_expr(&m.mac) {
                    let semi = m.semi_token.is_some();
                    if let Ok(e) = parse2::<Expr>(ts) {
                        let semi_t = if semi { Some(Default::default()) } else { None };
                        b.stmts.push(Stmt::Expr(e, semi_t));
                        continue;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Local(l) = &s {
                // let [a, b] = e;  ->  let __a = e; let a = __a[0]; let b = __a[1];
                if let (Pat::Slice(ps), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && ps.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))) {
                        let t = format_ident!("__arr{}", self.ntmp);
                        self.ntmp += 1;
                        let e = &init.expr;
                        b.stmts.push(parse2(quote!(let #t = #e;)).unwrap());
                        for (i, p) in ps.elems.iter().enumerate() {
                            if matches!(p, Pat::Ident(_)) {
                                b.stmts.push(parse2(quote!(let #p = #t[#i];)).unwrap());
                            }
                        }
                        continue;
                    }
                }
            }
            if let Stmt::Expr(Expr::Assign(a), _) = &s {
                // (x, y) = e;  ->  let (__d0, __d1) = e; x = __d0; y = __d1;
                if let Expr::Tuple(t) = &*a.left {
                    let n = self.ntmp;
                    self.ntmp += 1;
                    let ids: Vec<Ident> = (0..t.elems.len()).map(|i| format_ident!("__d{}_{}", n, i)).collect();
                    let r = &a.right;
                    b.stmts.push(parse2(quote!(let (#(#ids),*) = #r;)).unwrap());
                    for (i, l) in ids.iter().zip(t.elems.iter()) {
                        if !matches!(l, Expr::Infer(_)) {
                            b.stmts.push(parse2(quote!(#l = #i;)).unwrap());
                        }
                    }
                    continue;
                }
            }
            b.stmts.push(s);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(a) = expr_attrs(e) {
            a.clear();
        }
        self.pre(e);
        let is_loop = matches!(e, Expr::While(_) | Expr::Loop(_));
        if is_loop {
            self.depth += 1;
        }
        // constants
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some(c) = self.consts.get(&id.to_string()) {
                    *e = c.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if is_loop {
            self.depth -= 1;
        }
        self.post(e);
    }

    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.rename.get(&i.to_string()) {
            *i = n.clone();
        }
    }

    // `S { x }` stays a field x even when the variable x is renamed
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_pat_mut(self, &mut f.pat);
    }

    // do not rename fields or methods
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        if let Some(t) = &mut m.turbofish {
            visit_mut::visit_angle_bracketed_generic_arguments_mut(self, t);
        }
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = tystr(t);
        if self.limb && (s == "Self::Bit" || s == "T::Bit" || s == "<SelfasBitSliceExt>::Bit") {
            *t = parse_ty("Limb");
            return;
        }
        if let Some(n) = self.subst.get(&s) {
            *t = n.clone();
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        if self.limb {
            if p.segments.last().map(|s| s.ident == "BitSliceExt" || s.ident == "BitVecExt").unwrap_or(false) {
                p.segments.last_mut().unwrap().arguments = PathArguments::None;
            }
            if p.segments.len() >= 2 && p.segments[1].ident == "Bit" {
                let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
                let mut n: Path = parse_str("Limb").unwrap();
                n.segments.extend(rest);
                *p = n;
            }
        }
        // substituted type parameter as path head (T::zero)
        if p.segments.len() >= 2 {
            let h = p.segments[0].ident.to_string();
            if let Some(Type::Path(tp)) = self.subst.get(&h) {
                if tp.qself.is_none() && tp.path.segments.len() == 1 && matches!(tp.path.segments[0].arguments, PathArguments::None) {
                    let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                    let mut n = tp.path.clone();
                    n.segments.extend(rest);
                    *p = n;
                }
            }
        }
        if self.limb && p.segments.len() == 2 {
            let h = p.segments[0].ident.to_string();
            if PRIMS.contains(&h.as_str()) {
                let l = p.segments[1].ident.to_string();
                if LIMB_METHODS.contains(&l.as_str()) {
                    p.segments[1].ident = format_ident!("v_{}", l);
                } else if l == "BIT_LEN" {
                    *p = parse_str("LIMB_BIT_LEN").unwrap();
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        // <T as Trait>::f  with T a limb type -> T::v_f
        if let Some(q) = &mut p.qself {
            let mut t = (*q.ty).clone();
            self.visit_type_mut(&mut t);
            let ts = tystr(&t);
            let l = p.path.segments.last().unwrap().ident.to_string();
            if self.limb && PRIMS.contains(&ts.as_str()) && LIMB_METHODS.contains(&l.as_str()) {
                let i = format_ident!("v_{}", l);
                *p = parse2(quote!(#t::#i)).unwrap();
                return;
            }
            *q.ty = t;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}

struct Number<'a> {
    n: usize,
    sp: &'a FnSpec,
    lets: HashMap<String, usize>,
    ret: bool,
}

impl Number<'_> {
    fn body(&mut self, b: &mut Block) -> usize {
        let n = self.n;
        self.n += 1;
        let has_start = b.stmts.iter().any(|s| tystr(s).starts_with("__vxstart!"));
        let mut v: Vec<Stmt> = vec![];
        v.push(parse2({ let n = n.to_string(); quote!(__vxinv!(#n);) }).unwrap());
        let sk = format!("start {n}");
        let ek = format!("end {n}");
        if !has_start {
            v.push(parse2(quote!(__vx!(#sk);)).unwrap());
        }
        for s in std::mem::take(&mut b.stmts) {
            if tystr(&s).starts_with("__vxstart!") {
                v.push(parse2(quote!(__vx!(#sk);)).unwrap());
            } else {
                v.push(s);
            }
        }
        if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
            if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_)) {
                *semi = Some(Default::default());
            }
        }
        v.push(parse2(quote!(__vx!(#ek);)).unwrap());
        b.stmts = v;
        n
    }
}

impl VisitMut for Number<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                self.body(&mut w.body);
                self.visit_block_mut(&mut w.body);
            }
            Expr::Loop(w) => {
                self.body(&mut w.body);
                self.visit_block_mut(&mut w.body);
            }
            Expr::Return(r) if self.ret => {
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                    let x = &r.expr;
                    *e = parse2(quote!({ let __ret = #x; __vx!("return"); return __ret; })).unwrap();
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut v = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let before = self.n;
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _));
            let mut names = vec![];
            if let Stmt::Local(l) = &s {
                collect_names(&l.pat, &mut names);
            }
            self.visit_stmt_mut(&mut s);
            if is_loop {
                // desugared loops are statements of their own block; force statement position
                if let Stmt::Expr(Expr::While(_) | Expr::Loop(_), _) = &s {}
            }
            v.push(s);
            if is_loop {
                let k = format!("after {before}");
                if self.sp.sections.contains_key(&k) {
                    v.push(parse2(quote!(__vx!(#k);)).unwrap());
                }
            }
            for n in names {
                let c = self.lets.entry(n.clone()).or_insert(0);
                let k = format!("let {n}#{c}");
                *c += 1;
                if self.sp.sections.contains_key(&k) {
                    v.push(parse2(quote!(__vx!(#k);)).unwrap());
                }
            }
        }
        b.stmts = v;
    }
}

fn collect_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|e| collect_names(e, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|e| collect_names(e, out)),
        Pat::Type(t) => collect_names(&t.pat, out),
        _ => {}
    }
}

/// split at `;` outside brackets
pub fn split_top(s: &str) -> Vec<String> {
    let mut parts = vec![String::new()];
    let mut depth = 0;
    for c in s.chars() {
        match c {
            '[' => depth += 1,
            ']' => depth -= 1,
            ';' if depth == 0 => {
                parts.push(String::new());
                continue;
            }
            _ => {}
        }
        parts.last_mut().unwrap().push(c);
    }
    parts
}

fn pairs(s: Option<&String>) -> HashMap<String, String> {
    s.map(|s| {
        let parts = split_top(s);
        parts
            .iter()
            .filter(|x| !x.is_empty())
            .map(|kv| {
                let (k, v) = kv.split_once("->").unwrap_or_else(|| panic!("bad pair {kv}"));
                (k.to_string(), v.replace("~", " "))
            })
            .collect()
    })
    .unwrap_or_default()
}

pub fn emit(cfg: &Cfg, sp: &FnSpec, f: &Found, dropped: bool, base: Option<&str>) -> std::result::Result<(String, String, String, String, Vec<String>), String> {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut inlined = vec![];
    if !f.helpers.fns.is_empty() || !f.helpers.consts.is_empty() {
        let tps = |g: &Generics| g.type_params().map(|t| t.ident.to_string()).collect::<Vec<_>>();
        let mut own = f.impl_generics.as_ref().map(tps).unwrap_or_default();
        own.extend(tps(&sig.generics));
        let mut inl = crate::inline::Inliner { h: &f.helpers, limb: sp.opts.contains_key("limb"), own, depth: 0, done: vec![], tail: true };
        inl.visit_block_mut(&mut block);
        inlined = inl.done;
    }
    crate::inline::bool_ops(&sig, &mut block);
    // the proof at the end of the body covers every exit: early returns become branches
    if sp.sections.contains_key("tail") && !sp.sections.contains_key("return") {
        if let Some(b) = crate::inline::lower(&block.stmts) {
            block.stmts = b;
        }
    }
    let mut skel = crate::inline::skeleton(&block);
    if base.is_some_and(|b| b != skel) {
        let n = crate::inline::normalize(&block);
        let k = crate::inline::skeleton(&n);
        if base == Some(&k) {
            block = n;
            skel = k;
            inlined.push("loop form".to_string());
        }
    }
    let hash = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        sig.to_token_stream().to_string().hash(&mut h);
        block.to_token_stream().to_string().hash(&mut h);
        format!("{:016x}", h.finish())
    };
    let subst: HashMap<String, Type> =
        pairs(sp.opts.get("subst")).into_iter().map(|(k, v)| (k, parse_ty(&v))).collect();
    let mut rw = Rw {
        cfg,
        limb: sp.opts.contains_key("limb"),
        subst: subst.clone(),
        rename: HashMap::new(),
        tf: sp.opts.get("tf").cloned(),
        fromfn: sp.opts.contains_key("fromfn"),
        fromfn_len: sp.opts.get("fromfn").cloned().unwrap_or_default(),
        nfromfn: 0,
        hoist: sp.opts.contains_key("hoist"),
        chain: sp.opts.get("chain").map(|c| c.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        nchain: 0,
        ptr: sp.opts.contains_key("ptr"),
        bidx: sp.opts.contains_key("bidx"),
        deref: pairs(sp.opts.get("deref")),
        ixcall: pairs(sp.opts.get("ixcall")),
        iterfn: sp.opts.get("iterfn").map(|x| x.split(',').map(|y| y.to_string()).collect()).unwrap_or_default(),
        noall: sp.opts.contains_key("noall"),
        index: sp.opts.get("index").cloned(),
        methods: {
            let mut m = pairs(sp.opts.get("methods"));
            if sp.opts.get("ops").is_some_and(|x| x.contains("@num")) {
                for k in ["clone", "cmp", "partial_cmp"] {
                    m.entry(k.to_string()).or_insert_with(|| format!("v_{k}"));
                }
            }
            m
        },
        calls: pairs(sp.opts.get("calls")),
        ops: pairs(sp.opts.get("ops").map(|x| x.replace("@num", NUM_OPS)).as_ref()),
        consts: HashMap::new(),
        depth: 0,
        nassert: 0,
        npanic: 0,
        nunwrap: 0,
        nclosure: 0,
        ntmp: 0,
        keep_unsafe: sp.opts.contains_key("unsafe"),
        precise_unwrap: sp.opts.contains_key("unwrap"),
        opt_map: !sp.opts.contains_key("nooptmap"),
        sections: &sp.sections,
        err: None,
    };
    // `X.m(|p| body)` as the result of the function becomes `{ let p = X.n(); body }`
    for (k, v) in pairs(sp.opts.get("beta")) {
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            let mut new = None;
            if let Expr::MethodCall(m) = &*e {
                if m.method == k && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        if c.inputs.len() == 1 {
                            let (x, p, b, n) = (&m.receiver, &c.inputs[0], &c.body, format_ident!("{}", v));
                            new = parse2::<Expr>(quote!({ let #p = #x.#n(); #b })).ok();
                        }
                    }
                }
            }
            if let Some(n) = new { *e = n; }
        }
    }
    for (k, v) in pairs(sp.opts.get("rename")) {
        rw.rename.insert(k, format_ident!("{}", v));
    }
    // canonical parameter names and `mut` parameters
    let canon: Vec<String> =
        sp.opts.get("params").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut prelude: Vec<Stmt> = vec![];
    let mut idx = 0;
    let mut mutself = false;
    for inp in sig.inputs.iter_mut() {
        match inp {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.mutability.is_some() && r.reference.is_none() {
                    r.mutability = None;
                    mutself = true;
                }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                if let Pat::Ident(pi) = &mut *t.pat {
                    if let Some(c) = canon.get(idx) {
                        if pi.ident != c {
                            rw.rename.insert(pi.ident.to_string(), format_ident!("{}", c));
                            pi.ident = format_ident!("{}", c);
                        }
                    }
                    if pi.mutability.take().is_some() {
                        let id = &pi.ident;
                        prelude.push(parse2(quote!(let mut #id = #id;)).unwrap());
                    }
                } else if matches!(&*t.pat, Pat::Wild(_)) {
                    let n = format_ident!("__p{}", idx);
                    *t.pat = parse2::<PatIdentWrap>(quote!(#n)).unwrap().0;
                }
                idx += 1;
            }
        }
    }
    // `x: impl Bounds` becomes a named type parameter
    for (n, inp) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = inp {
            if let Type::ImplTrait(it) = &*t.ty {
                let (g, b) = (format_ident!("IT{}", n), it.bounds.clone());
                sig.generics.params.push(parse2(quote!(#g: #b)).unwrap());
                sig.generics.lt_token.get_or_insert(Default::default());
                sig.generics.gt_token.get_or_insert(Default::default());
                *t.ty = parse2(quote!(#g)).unwrap();
            }
        }
    }
    if let Some(g) = sp.opts.get("addgen") {
        for g in g.split(',') {
            let g: GenericParam = parse_str(&g.replace('~', " ")).expect("addgen=");
            sig.generics.params.insert(0, g);
        }
        sig.generics.lt_token.get_or_insert(Default::default());
        sig.generics.gt_token.get_or_insert(Default::default());
    }
    // ghost-state parameter
    if let Some(x) = sp.opts.get("extra") {
        let (n, t) = x.split_once(':').expect("extra=name:type");
        let n = format_ident!("{}", n);
        let t = parse_ty(&t.replace('~', " "));
        sig.inputs.push(parse2(quote!(#n: #t)).unwrap());
    }
    if sp.opts.contains_key("nowhere") {
        sig.generics.where_clause = None;
    }
    if let Some(w) = sp.opts.get("where") {
        sig.generics.where_clause = Some(parse_str(&format!("where {}", w.replace('~', " "))).expect("where="));
    }
    // generics
    let kill: Vec<String> = subst.keys().cloned().collect();
    if sp.opts.contains_key("implgen") {
        if let Some(g) = &f.impl_generics {
            let only = sp.opts["implgen"].clone();
            let mut params: punctuated::Punctuated<GenericParam, Token![,]> = g
                .params
                .iter()
                .filter(|p| {
                    let n = match p {
                        GenericParam::Type(t) => t.ident.to_string(),
                        GenericParam::Const(t) => t.ident.to_string(),
                        GenericParam::Lifetime(l) => l.lifetime.to_string(),
                    };
                    only.is_empty() || only.split(',').any(|o| o == n)
                })
                .cloned()
                .collect();
            params.extend(sig.generics.params.clone());
            sig.generics.params = params;
            if let Some(w) = g.where_clause.as_ref().filter(|_| !sp.opts.contains_key("nowhere")) {
                let wc = sig.generics.make_where_clause();
                wc.predicates.extend(w.predicates.clone());
            }
        }
    }
    sig.generics.params = sig
        .generics
        .params
        .into_iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !kill.contains(&t.ident.to_string()),
            GenericParam::Const(t) => !kill.contains(&t.ident.to_string()),
            _ => true,
        })
        .collect();
    if let Some(w) = &mut sig.generics.where_clause {
        w.predicates = std::mem::take(&mut w.predicates)
            .into_iter()
            .filter(|p| match p {
                WherePredicate::Type(t) => !kill.contains(&tystr(&t.bounded_ty)),
                _ => true,
            })
            .collect();
    }
    sig.constness = None;
    sig.unsafety = None;
    if let Some(n) = sp.opts.get("name") {
        sig.ident = format_ident!("{}", n);
    }
    rw.visit_block_mut(&mut block);
    if rw.hoist {
        let old = std::mem::take(&mut block.stmts);
        block.stmts = rw.hoist_stmts(old);
    }
    {
        // signature types
        rw.visit_generics_mut(&mut sig.generics);
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = i {
                rw.visit_type_mut(&mut t.ty);
            }
        }
        if let ReturnType::Type(_, t) = &mut sig.output {
            rw.visit_type_mut(t);
        }
    }
    for k in sp.sections.keys() {
        if let Some(n) = k.strip_prefix("closure ") {
            if rw.nclosure > 0 && n.parse::<usize>().map(|n| n >= rw.nclosure).unwrap_or(true) && rw.err.is_none() {
                rw.err = Some(format!("anchor lost: {k}"));
            }
        }
    }
    if let Some(e) = rw.err {
        if !dropped {
            return Err(e);
        }
    }
    if !prelude.is_empty() {
        let old = std::mem::take(&mut block.stmts);
        block.stmts = prelude;
        block.stmts.extend(old);
    }
    let mut num = Number { n: 0, sp, lets: HashMap::new(), ret: sp.sections.contains_key("return") };
    num.visit_block_mut(&mut block);
    let nloops = num.n;
    // sections referring to loops that no longer exist: anchors lost
    for k in sp.sections.keys() {
        for pre in ["loop ", "start ", "end ", "after "] {
            if let Some(r) = k.strip_prefix(pre) {
                if r.parse::<usize>().map(|n| n >= nloops).unwrap_or(true) && !dropped {
                    return Err(format!("anchor lost: {k} (function now has {nloops} loops)"));
                }
            }
        }
        if let Some(r) = k.strip_prefix("let ") {
            let (n, c) = r.split_once('#').unwrap_or((r, "0"));
            let have = num.lets.get(n).copied().unwrap_or(0);
            // its ghost code is left out: the function may still verify, a failure is no evidence
            if c.parse::<usize>().unwrap() >= have && !dropped {
                inlined.push(format!("(lost anchor: {k})"));
            }
        }
    }
    let nspec = sp.sections.keys().filter(|k| k.starts_with("loop ")).count();
    if nspec != nloops && !dropped {
        return Err(format!("anchor lost: function has {nloops} loops, contract annotates {nspec}"));
    }
    // closures with a contract become named values ahead of their statement
    if sp.sections.contains_key("tail") {
        if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
            if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                if let Some(t) = sp.sections.get("tailty") {
                    let t: Type = parse_ty(t.trim());
                    block.stmts.push(parse2(quote!(let __ret: #t = #e;)).unwrap());
                } else {
                    block.stmts.push(parse2(quote!(let __ret = #e;)).unwrap());
                }
                block.stmts.push(parse2(quote!(__vx!("tail");)).unwrap());
                block.stmts.push(Stmt::Expr(parse2(quote!(__ret)).unwrap(), None));
            }
        } else {
            block.stmts.push(parse2(quote!(__vx!("tail");)).unwrap());
        }
    }
    // --probe exit: the end of the body must be reachable under the contracts
    if cfg.probe == "exit" && !dropped {
        if matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) {
            if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                if matches!(&e, Expr::Path(p) if p.path.is_ident("__ret")) {
                    block.stmts.push(parse2(quote!(__vx!("probe");)).unwrap());
                    block.stmts.push(Stmt::Expr(e, None));
                } else if !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::Return(_)) {
                    match (&sig.output, sp.opts.get("ret")) {
                        (ReturnType::Type(_, t), None) if !matches!(**t, Type::ImplTrait(_)) => block.stmts.push(parse2(quote!(let __ret: #t = #e;)).unwrap()),
                        _ => block.stmts.push(parse2(quote!(let __ret = #e;)).unwrap()),
                    }
                    block.stmts.push(parse2(quote!(__vx!("probe");)).unwrap());
                    block.stmts.push(Stmt::Expr(parse2(quote!(__ret)).unwrap(), None));
                } else {
                    block.stmts.push(Stmt::Expr(e, None));
                }
            }
        } else if !matches!(block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
            block.stmts.push(parse2(quote!(__vx!("probe");)).unwrap());
        }
    }
    // print the signature
    let mut s = String::new();
    if sp.opts.contains_key("pub") {
        s.push_str("pub ");
    }
    let (gens, wh) = (&sig.generics, &sig.generics.where_clause);
    let id = &sig.ident;
    let lt = &gens.lt_token;
    let gt = &gens.gt_token;
    let ps = &gens.params;
    let gts = if ps.is_empty() { quote!() } else if lt.is_some() { quote!(#lt #ps #gt) } else { quote!(<#ps>) };
    let inputs = &sig.inputs;
    s.push_str(&printer::print(quote!(fn #id #gts (#inputs)), &Default::default()));
    if let ReturnType::Type(_, t) = &sig.output {
        let t = match sp.opts.get("ret") {
            Some(x) => parse_ty(&x.replace("~", " ")),
            None => (**t).clone(),
        };
        s.push_str(&format!("-> (r: {})", printer::print(quote!(#t), &Default::default())));
    }
    if let Some(w) = wh {
        if !w.predicates.is_empty() {
            let mut ts = printer::print(quote!(#w), &Default::default());
            if !ts.trim_end().ends_with(',') {
                ts.push(',');
            }
            s.push(' ');
            s.push_str(&ts);
        }
    }
    let body = if dropped {
        "{\n assume(false);\n vstd::pervasive::unreached()\n}".to_string()
    } else {
        let mut stmts = TokenStream::new();
        let bs = &block.stmts;
        stmts.extend(quote!(#(#bs)*));
        let mut secs = sp.sections.clone();
        secs.insert("probe".into(), "proof { assert(false); } // vx-probe\n".into());
        let mut t = printer::print(stmts, &secs);
        if mutself {
            let ts: TokenStream = t.parse().map_err(|e| format!("mutself: {e}"))?;
            let _ = ts;
            t = replace_self(&t);
            t = format!("let mut __self = self;\n{t}");
        }
        let entry = sp.sections.get("entry").cloned().unwrap_or_default();
        let entry = if cfg.probe == "entry" { format!("proof {{ assert(false); }} // vx-probe\n{entry}") } else { entry };
        format!("{{\n{entry}{t}\n}}")
    };
    Ok((s, body, hash, skel, inlined))
}

fn replace_self(t: &str) -> String {
    // whole-word `self` -> `__self`
    let mut o = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(&['s', 'e', 'l', 'f'])
            && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_'))
            && (i + 4 >= b.len() || !(b[i + 4].is_alphanumeric() || b[i + 4] == '_'))
        {
            o.push_str("__self");
            i += 4;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct PatIdentWrap(Pat);
impl parse::Parse for PatIdentWrap {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        Ok(PatIdentWrap(Pat::parse_single(input)?))
    }
}
