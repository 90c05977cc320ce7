//! Helper functions that the pinned tree does not have (a refactoring extracted them) are inlined
//! into the functions under contract that call them, before any other rewriting: the contract then
//! still decides the code.  A call is inlined only where that is plainly the same computation;
//! otherwise it is left, the verifier's front end does not know the name, and the function counts
//! as undecided.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
}

#[derive(Default, Clone)]
pub struct Helpers {
    pub fns: HashMap<String, Option<Helper>>,
    pub consts: HashMap<String, Expr>,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn ident_of(e: &Expr) -> Option<Ident> {
    match strip(e) {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().cloned(),
        _ => None,
    }
}

/// a variable, or a field of one
fn place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.0.insert(i.to_string());
    }
}

struct Locals(BTreeSet<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        self.0.insert(i.ident.to_string());
    }
}

struct Rename(HashMap<String, Ident>);
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
        visit_mut::visit_pat_ident_mut(self, i);
        if let Some(n) = self.0.get(&i.ident.to_string()) {
            i.ident = n.clone();
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = ident_of(e).and_then(|i| self.0.get(&i.to_string()).cloned()) {
            *e = parse_quote!(#n);
        }
    }
}

/// how a parameter is replaced: `by` in place positions, `val` where the parameter itself is used
struct Sub {
    by: Expr,
    val: Expr,
}

struct Subst {
    m: HashMap<String, Sub>,
    tys: HashMap<String, Type>,
    bad: bool,
}
impl Subst {
    fn look(&self, e: &Expr) -> Option<&Sub> {
        ident_of(e).and_then(|i| self.m.get(&i.to_string()))
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if self.look(&m.receiver).is_some() => {
                *m.receiver = self.look(&m.receiver).unwrap().by.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if self.look(&f.base).is_some() => {
                *f.base = self.look(&f.base).unwrap().by.clone();
                return;
            }
            Expr::Index(f) if self.look(&f.expr).is_some() => {
                *f.expr = self.look(&f.expr).unwrap().by.clone();
                self.visit_expr_mut(&mut f.index);
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(self.look(&u.expr), Some(s) if matches!(s.val, Expr::Reference(_))) => {
                let by = self.look(&u.expr).unwrap().by.clone();
                *e = by;
                return;
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    f.colon_token.get_or_insert_with(Default::default);
                }
            }
            _ => {}
        }
        if let Some(s) = self.look(e) {
            *e = s.val.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // parameters inside macro arguments: only the plain replacement is tried
        let mut ids = Idents(BTreeSet::new());
        fn toks(t: TokenStream, ids: &mut Idents) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => ids.visit_ident(&i),
                    proc_macro2::TokenTree::Group(g) => toks(g.stream(), ids),
                    proc_macro2::TokenTree::Literal(l) if l.to_string().contains('{') => {
                        ids.0.insert(l.to_string());
                    }
                    _ => {}
                }
            }
        }
        toks(m.tokens.clone(), &mut ids);
        if self.m.keys().any(|k| ids.0.iter().any(|i| i == k || i.contains(&format!("{{{k}")))) {
            self.bad = true;
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_none() {
            if let Some(t) = self.tys.get(&p.segments[0].ident.to_string()) {
                if let Type::Path(tp) = t {
                    if tp.qself.is_none() {
                        let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                        let mut segs: Vec<PathSegment> = tp.path.segments.iter().cloned().collect();
                        // `S::Bit` of a bit slice is the one limb type
                        if rest.first().is_some_and(|s| s.ident == "Bit") && segs.last().is_some_and(|s| s.ident == "Bit") {
                            segs.pop();
                        }
                        segs.extend(rest);
                        *p = parse_quote!(#(#segs)::*);
                    }
                }
            }
        }
    }
}

fn returns(s: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    for x in s {
        v.visit_stmt(x);
    }
    v.0
}

/// `if c { ..; return x; } rest` as `if c { ..; x } else { rest }`, and a final `return x;` as `x`
pub fn lower(s: &[Stmt]) -> Option<Vec<Stmt>> {
    if !returns(s) {
        return Some(s.to_vec());
    }
    for (i, st) in s.iter().enumerate() {
        match st {
            Stmt::Expr(Expr::Return(r), _) if i + 1 == s.len() => {
                let x = r.expr.as_ref().map(|x| x.to_token_stream()).unwrap_or(quote!(()));
                let mut o = s[..i].to_vec();
                o.push(Stmt::Expr(parse2(x).ok()?, None));
                return if returns(&o) { None } else { Some(o) };
            }
            Stmt::Expr(Expr::If(f), _) if returns(std::slice::from_ref(st)) => {
                let then = lower(&f.then_branch.stmts)?;
                let c = &f.cond;
                let ends = matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                if i + 1 == s.len() && f.else_branch.is_some() {
                    let (_, e) = f.else_branch.as_ref().unwrap();
                    let els = match &**e {
                        Expr::Block(b) => lower(&b.block.stmts)?,
                        x => lower(&[Stmt::Expr(x.clone(), None)])?,
                    };
                    let mut o = s[..i].to_vec();
                    o.push(Stmt::Expr(parse_quote!(if #c { #(#then)* } else { #(#els)* }), None));
                    return Some(o);
                }
                if !ends || f.else_branch.is_some() {
                    return None;
                }
                let rest = lower(&s[i + 1..])?;
                let mut o = s[..i].to_vec();
                o.push(Stmt::Expr(parse_quote!(if #c { #(#then)* } else { #(#rest)* }), None));
                return Some(o);
            }
            _ if returns(std::slice::from_ref(st)) => return None,
            _ => {}
        }
    }
    Some(s.to_vec())
}

pub struct Inliner<'a> {
    pub h: &'a Helpers,
    pub limb: bool,
    /// type parameters of the function under contract and its impl
    pub own: Vec<String>,
    pub depth: usize,
    pub done: Vec<String>,
    /// the expression is the result of the function, so that a `return` may stay
    pub tail: bool,
}

impl Inliner<'_> {
    fn expand(&mut self, name: &str, args: Vec<Expr>, turbofish: Option<&PathArguments>, tail: bool) -> Option<Expr> {
        let h = self.h.fns.get(name)?.clone()?;
        if h.sig.inputs.len() != args.len() || self.depth > 6 || h.sig.asyncness.is_some() {
            return None;
        }
        let stmts = if tail { h.block.stmts.clone() } else { lower(&h.block.stmts)? };
        let mut block = Block { brace_token: Default::default(), stmts };
        // type parameters
        let mut tys: HashMap<String, Type> = HashMap::new();
        let tp: Vec<&TypeParam> = h.sig.generics.type_params().collect();
        let given: Vec<Type> = match turbofish {
            Some(PathArguments::AngleBracketed(a)) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect(),
            _ => vec![],
        };
        for (i, t) in tp.iter().enumerate() {
            let ty: Type = if given.len() == tp.len() && given[i].to_token_stream().to_string() != "_" {
                given[i].clone()
            } else if self.limb {
                parse_quote!(Self::Bit)
            } else if self.own.contains(&t.ident.to_string()) {
                continue;
            } else if self.own.len() == 1 {
                let o = format_ident!("{}", self.own[0]);
                parse_quote!(#o)
            } else {
                continue;
            };
            tys.insert(t.ident.to_string(), ty);
        }
        // parameters
        let mut sub = Subst { m: HashMap::new(), tys, bad: false };
        let (mut pats, mut vals): (Vec<TokenStream>, Vec<TokenStream>) = (vec![], vec![]);
        let mut used = Idents(BTreeSet::new());
        for (inp, a) in h.sig.inputs.iter().zip(&args) {
            let a = strip(a).clone();
            match inp {
                FnArg::Receiver(r) => {
                    let inner = match &a {
                        Expr::Reference(x) if place(&x.expr) => (*x.expr).clone(),
                        x if place(x) => x.clone(),
                        _ => return None,
                    };
                    if r.mutability.is_some() && r.reference.is_none() {
                        return None;
                    }
                    used.visit_expr(&inner);
                    let val: Expr = if r.reference.is_none() || ident_of(&inner).is_some() && !matches!(a, Expr::Reference(_)) {
                        inner.clone()
                    } else if r.mutability.is_some() {
                        parse_quote!(&mut #inner)
                    } else {
                        parse_quote!(&#inner)
                    };
                    sub.m.insert("self".into(), Sub { by: inner, val });
                }
                FnArg::Typed(t) => {
                    let Pat::Ident(p) = &*t.pat else { return None };
                    let n = p.ident.to_string();
                    match &a {
                        _ if p.mutability.is_some() || p.by_ref.is_some() => {
                            let ty = &t.ty;
                            let prim = matches!(ty.to_token_stream().to_string().as_str(), "usize" | "bool" | "u8" | "u32" | "u64" | "i32" | "isize");
                            pats.push(p.to_token_stream());
                            vals.push(if prim && matches!(a, Expr::Lit(_)) { quote!((#a as #ty)) } else { quote!(#a) });
                        }
                        Expr::Path(_) if ident_of(&a).is_some() => {
                            used.visit_expr(&a);
                            sub.m.insert(n, Sub { by: a.clone(), val: a.clone() });
                        }
                        Expr::Lit(_) => {
                            sub.m.insert(n, Sub { by: a.clone(), val: a.clone() });
                        }
                        Expr::Reference(r) if place(&r.expr) => {
                            used.visit_expr(&a);
                            sub.m.insert(n, Sub { by: (*r.expr).clone(), val: a.clone() });
                        }
                        _ => {
                            pats.push(p.to_token_stream());
                            vals.push(quote!(#a));
                        }
                    }
                }
            }
        }
        // locals of the helper that would capture an argument
        let mut loc = Locals(BTreeSet::new());
        loc.visit_block(&block);
        let clash: HashMap<String, Ident> = loc.0.iter().filter(|l| used.0.contains(*l)).map(|l| (l.clone(), format_ident!("{}_h", l))).collect();
        // a local that shadows a parameter is renamed only if the name is not a parameter any more
        if clash.keys().chain(sub.m.keys().filter(|k| loc.0.contains(*k))).any(|k| sub.m.contains_key(k)) {
            // a parameter is shadowed inside: bind it instead of replacing it
            for (inp, a) in h.sig.inputs.iter().zip(&args) {
                if let FnArg::Typed(t) = inp {
                    if let Pat::Ident(p) = &*t.pat {
                        let n = p.ident.to_string();
                        if loc.0.contains(&n) && sub.m.remove(&n).is_some() {
                            pats.push(p.to_token_stream());
                            vals.push(quote!(#a));
                        }
                    }
                }
            }
        }
        let clash: HashMap<String, Ident> = clash.into_iter().filter(|(k, _)| !sub.m.contains_key(k) && !pats.iter().any(|p| p.to_string().split(' ').any(|w| w == k))).collect();
        Rename(clash).visit_block_mut(&mut block);
        sub.visit_block_mut(&mut block);
        if sub.bad {
            return None;
        }
        let st = &block.stmts;
        let bind = match pats.len() {
            0 => quote!(),
            1 => {
                let (p, v) = (&pats[0], &vals[0]);
                quote!(let #p = #v;)
            }
            _ => quote!(let (#(#pats),*) = (#(#vals),*);),
        };
        self.done.push(name.to_string());
        let single = pats.is_empty() && st.len() == 1 && matches!(st[0], Stmt::Expr(_, None));
        let ts = if single { quote!((#(#st)*)) } else { quote!({ #bind #(#st)* }) };
        parse2(ts).ok()
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let tail = self.tail;
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            self.tail = tail && i + 1 == n && matches!(s, Stmt::Expr(_, None));
            visit_mut::visit_stmt_mut(self, s);
        }
        self.tail = tail;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = self.tail;
        // constants
        if let Some(c) = ident_of(e).and_then(|i| self.h.consts.get(&i.to_string()).cloned()) {
            *e = parse_quote!((#c));
        }
        let new = match e {
            Expr::Call(c) => match strip(&c.func) {
                Expr::Path(p) => {
                    let last = p.path.segments.last().unwrap();
                    let n = last.ident.to_string();
                    if self.h.fns.contains_key(&n) {
                        self.expand(&n, c.args.iter().cloned().collect(), Some(&last.arguments), tail)
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) if self.h.fns.contains_key(&m.method.to_string()) => {
                let n = m.method.to_string();
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                self.expand(&n, a, None, tail)
            }
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
            self.depth += 1;
            self.visit_expr_mut(e);
            self.depth -= 1;
            return;
        }
        match e {
            Expr::Return(r) => {
                self.tail = true;
                if let Some(x) = r.expr.as_mut() {
                    self.visit_expr_mut(x);
                }
            }
            Expr::Block(b) => self.visit_block_mut(&mut b.block),
            Expr::Unsafe(b) => self.visit_block_mut(&mut b.block),
            Expr::If(f) => {
                self.tail = false;
                self.visit_expr_mut(&mut f.cond);
                self.tail = tail;
                self.visit_block_mut(&mut f.then_branch);
                if let Some((_, x)) = f.else_branch.as_mut() {
                    self.visit_expr_mut(x);
                }
            }
            Expr::Match(m) => {
                self.tail = false;
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = a.guard.as_mut() {
                        self.tail = false;
                        self.visit_expr_mut(g);
                    }
                    self.tail = tail;
                    self.visit_expr_mut(&mut a.body);
                }
            }
            _ => {
                self.tail = false;
                visit_mut::visit_expr_mut(self, e);
            }
        }
        self.tail = tail;
    }
}

/// loops of a function: their kinds and nesting, and the iterator calls that act as loops
pub fn skeleton(b: &Block) -> String {
    struct V(String);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            let k = match e {
                Expr::ForLoop(_) => "for",
                Expr::While(_) => "while",
                Expr::Loop(_) => "loop",
                Expr::MethodCall(m) if ["for_each", "fold", "try_fold", "all", "any", "find", "position", "collect", "filter", "min_by", "rev", "try_for_each", "sum", "product", "take_while", "skip_while"].contains(&m.method.to_string().as_str()) => "it",
                _ => "",
            };
            if k.is_empty() {
                syn::visit::visit_expr(self, e);
            } else {
                self.0.push_str(k);
                self.0.push('(');
                syn::visit::visit_expr(self, e);
                self.0.push(')');
            }
        }
    }
    let mut v = V(String::new());
    v.visit_block(b);
    v.0
}

/// Other ways of writing the same loop, brought back to the form the pinned tree has.  Used only when
/// the loops of a function are no longer those of the pinned tree, and kept only if they then are.
pub fn normalize(b: &Block) -> Block {
    let mut b = b.clone();
    Norm.visit_block_mut(&mut b);
    b
}

struct Uses<'a> {
    id: &'a Ident,
    read: bool,
    write: bool,
}
impl<'b> Visit<'b> for Uses<'_> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Assign(a) if ident_of(&a.left).as_ref() == Some(self.id) => self.write = true,
            Expr::Binary(x) if ident_of(&x.left).as_ref() == Some(self.id) && x.op.to_token_stream().to_string().ends_with('=') && !matches!(x.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => self.write = true,
            Expr::Reference(r) if r.mutability.is_some() && ident_of(&r.expr).as_ref() == Some(self.id) => self.write = true,
            _ => {}
        }
        if ident_of(e).as_ref() == Some(self.id) {
            self.read = true;
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().contains(&self.id.to_string()) {
            self.read = true;
            self.write = true;
        }
    }
}
fn uses(id: &Ident, s: &[Stmt]) -> (bool, bool) {
    let mut u = Uses { id, read: false, write: false };
    for x in s {
        u.visit_stmt(x);
    }
    (u.read, u.write)
}
fn has_continue(s: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    }
    let mut v = V(false);
    for x in s {
        v.visit_stmt(x);
    }
    v.0
}
/// `i += 1` / `i -= 1` / `i = i + 1`
fn step(s: &Stmt, up: bool) -> Option<Ident> {
    let Stmt::Expr(e, _) = s else { return None };
    let t: String = e.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
    let id = match e {
        Expr::Binary(b) => ident_of(&b.left)?,
        Expr::Assign(a) => ident_of(&a.left)?,
        _ => return None,
    };
    let o = if up { '+' } else { '-' };
    (t == format!("{id}{o}=1") || t == format!("{id}={id}{o}1")).then_some(id)
}

struct Norm;
impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `loop { if c { break; } .. }` is `while !c { .. }`
        for s in b.stmts.iter_mut() {
            if let Stmt::Expr(Expr::Loop(l), _) = s {
                if let (None, Some(Stmt::Expr(Expr::If(f), _))) = (&l.label, l.body.stmts.first()) {
                    let brk = f.else_branch.is_none() && f.then_branch.stmts.len() == 1 && matches!(&f.then_branch.stmts[0], Stmt::Expr(Expr::Break(k), _) if k.expr.is_none() && k.label.is_none());
                    if brk {
                        let c = negate(&f.cond);
                        let rest = &l.body.stmts[1..];
                        let w: Expr = parse_quote!(while #c { #(#rest)* });
                        *s = Stmt::Expr(w, None);
                    }
                }
            }
        }
        let mut i = 0;
        while i < b.stmts.len() {
            if let Some((decl, f)) = counter(&b.stmts, i) {
                b.stmts[i] = Stmt::Expr(f, None);
                b.stmts.remove(decl);
            } else {
                i += 1;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

fn negate(c: &Expr) -> Expr {
    if let Expr::Binary(b) = strip(c) {
        let (l, r) = (&b.left, &b.right);
        match b.op {
            BinOp::Eq(_) => return parse_quote!(#l != #r),
            BinOp::Ne(_) => return parse_quote!(#l == #r),
            BinOp::Lt(_) => return parse_quote!(#l >= #r),
            BinOp::Ge(_) => return parse_quote!(#l < #r),
            BinOp::Gt(_) => return parse_quote!(#l <= #r),
            BinOp::Le(_) => return parse_quote!(#l > #r),
            _ => {}
        }
    }
    if let Expr::Unary(u) = strip(c) {
        if matches!(u.op, UnOp::Not(_)) {
            return (*u.expr).clone();
        }
    }
    parse_quote!(!(#c))
}

/// `let mut i = A; .. while i < B { ..; i += 1; }` is `for i in A..B { .. }` (likewise `<=`), and
/// `let mut i = B; .. while i > 0 { i -= 1; .. }` is `for i in (0..B).rev() { .. }`
fn counter(s: &[Stmt], w: usize) -> Option<(usize, Expr)> {
    let Stmt::Expr(Expr::While(wh), _) = &s[w] else { return None };
    if wh.label.is_some() {
        return None;
    }
    let Expr::Binary(c) = strip(&wh.cond) else { return None };
    let body = &wh.body.stmts;
    if body.is_empty() || has_continue(body) {
        return None;
    }
    let id = ident_of(&c.left)?;
    let find = |id: &Ident| {
        let d = (0..w).rev().find(|&j| matches!(&s[j], Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == *id && p.mutability.is_some()) || matches!(&l.pat, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(p) if p.ident == *id && p.mutability.is_some()))))?;
        let Stmt::Local(l) = &s[d] else { return None };
        let init = (*l.init.as_ref()?.expr).clone();
        // the counter lives for the loop alone
        if uses(id, &s[d + 1..w]).0 || uses(id, &s[w + 1..]).0 {
            return None;
        }
        Some((d, init))
    };
    let (d, init) = find(&id)?;
    let up = matches!(c.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Ne(_)) && step(body.last()?, true).as_ref() == Some(&id);
    let down = matches!(c.op, BinOp::Gt(_) | BinOp::Ne(_)) && c.right.to_token_stream().to_string() == "0" && step(&body[0], false).as_ref() == Some(&id);
    // a count of iterations still to make
    let last = &body[..body.len() - 1];
    let count = matches!(c.op, BinOp::Gt(_) | BinOp::Ne(_)) && c.right.to_token_stream().to_string() == "0" && step(body.last()?, false).as_ref() == Some(&id) && !uses(&id, last).0;
    let rest = if up || count {
        last
    } else if down {
        &body[1..]
    } else {
        return None;
    };
    if uses(&id, rest).1 {
        return None;
    }
    // the bound does not change in the body
    let mut bi = Idents(BTreeSet::new());
    bi.visit_expr(&c.right);
    bi.visit_expr(&init);
    if bi.0.iter().any(|n| uses(&format_ident!("{}", n), rest).1) {
        return None;
    }
    let var = if uses(&id, rest).0 { quote!(#id) } else { quote!(_) };
    let b = &c.right;
    let f: TokenStream = if count {
        quote!(for _ in 0..#init { #(#rest)* })
    } else if up {
        match c.op {
            BinOp::Le(_) => quote!(for #var in #init..=#b { #(#rest)* }),
            _ => quote!(for #var in #init..#b { #(#rest)* }),
        }
    } else {
        let hi = if matches!(strip(&init), Expr::Path(_) | Expr::Lit(_) | Expr::MethodCall(_) | Expr::Field(_)) { quote!(#init) } else { quote!((#init)) };
        quote!(for #var in (0..#hi).rev() { #(#rest)* })
    };
    Some((d, parse2(f).ok()?))
}

/// Names every binding of which is visibly boolean.
#[derive(Default)]
struct BoolNames {
    yes: HashSet<String>,
    no: HashSet<String>,
}
impl BoolNames {
    fn is(&self, n: &str) -> bool {
        self.yes.contains(n) && !self.no.contains(n)
    }
    fn note(&mut self, p: &Pat, boolean: bool) {
        match p {
            Pat::Ident(i) => {
                let s = if boolean { &mut self.yes } else { &mut self.no };
                s.insert(i.ident.to_string());
            }
            Pat::Type(t) => {
                let ty = t.ty.to_token_stream().to_string();
                self.note(&t.pat, ty == "bool" || (ty == "_" && boolean));
            }
            Pat::Paren(q) => self.note(&q.pat, boolean),
            _ => {
                let mut ids = Binders(vec![]);
                ids.visit_pat(p);
                self.no.extend(ids.0);
            }
        }
    }
    fn expr(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && self.expr(&u.expr),
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
                BinOp::BitOr(_) | BinOp::BitAnd(_) | BinOp::BitXor(_) => self.expr(&b.left) && self.expr(&b.right),
                _ => false,
            },
            Expr::MethodCall(m) => m.args.is_empty() && m.method.to_string().starts_with("is_"),
            e => ident_of(e).is_some_and(|i| self.is(&i.to_string())),
        }
    }
}
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        self.0.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}
impl<'a> Visit<'a> for BoolNames {
    fn visit_local(&mut self, l: &'a Local) {
        visit::visit_local(self, l);
        let init = l.init.as_ref().map(|i| &*i.expr);
        if let (Pat::Tuple(t), Some(e)) = (&l.pat, init) {
            let call = match strip(e) {
                Expr::MethodCall(m) => Some(m.method.to_string()),
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                    _ => None,
                },
                Expr::Tuple(v) if v.elems.len() == t.elems.len() => {
                    for (p, x) in t.elems.iter().zip(&v.elems) {
                        let b = self.expr(x);
                        self.note(p, b);
                    }
                    return;
                }
                _ => None,
            };
            if t.elems.len() == 2 && call.is_some_and(|n| n.contains("overflowing")) {
                self.note(&t.elems[0], false);
                self.note(&t.elems[1], true);
                return;
            }
        }
        let b = init.is_some_and(|e| self.expr(e));
        self.note(&l.pat, b);
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        self.note(&a.pat, false);
        visit::visit_arm(self, a);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        for p in &c.inputs {
            self.note(p, false);
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.note(&f.pat, false);
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_let(&mut self, l: &'a ExprLet) {
        self.note(&l.pat, false);
        visit::visit_expr_let(self, l);
    }
}
struct BoolOps(BoolNames);
impl VisitMut for BoolOps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        // both operands are evaluated; that is the same as the short-circuit form when the
        // right one is a plain name, literal or comparison of such
        if !self.0.expr(&b.left) || !self.0.expr(&b.right) || !pure(&b.right) {
            return;
        }
        let (l, r) = (&b.left, &b.right);
        let new: Option<Expr> = match b.op {
            BinOp::BitOr(_) => parse2(quote!((#l || #r))).ok(),
            BinOp::BitAnd(_) => parse2(quote!((#l && #r))).ok(),
            BinOp::BitXor(_) => parse2(quote!((#l != #r))).ok(),
            BinOp::BitOrAssign(_) => parse2(quote!(#l = #l || #r)).ok(),
            BinOp::BitAndAssign(_) => parse2(quote!(#l = #l && #r)).ok(),
            BinOp::BitXorAssign(_) => parse2(quote!(#l = #l != #r)).ok(),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
fn pure(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Unary(u) => pure(&u.expr),
        Expr::Reference(u) => pure(&u.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Binary(b) => matches!(
            b.op,
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::BitOr(_) | BinOp::BitAnd(_) | BinOp::BitXor(_)
        ) && pure(&b.left) && pure(&b.right),
        Expr::MethodCall(m) => m.args.is_empty() && m.method.to_string().starts_with("is_") && pure(&m.receiver),
        _ => false,
    }
}
/// `|`, `&`, `^` (and their assignments) between names that are visibly boolean become `||`,
/// `&&`, `!=`: the verifier has no non-short-circuit boolean operators.
pub fn bool_ops(sig: &Signature, b: &mut Block) {
    let mut n = BoolNames::default();
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            n.note(&t.pat, t.ty.to_token_stream().to_string() == "bool");
        }
    }
    n.visit_block(b);
    BoolOps(n).visit_block_mut(b);
}
