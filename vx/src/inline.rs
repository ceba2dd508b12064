//! Calls of functions without a contract are replaced by their bodies, so that a helper someone extracts is judged with the
//! function that calls it: `h(a, b)` becomes `({ let p: P = a; let q: Q = b; BODY })`.  Only free functions and methods called on
//! `self`, of the same module; bodies that return early are rewritten to if/else first, others with `return` or `?` are left alone.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Copy, PartialEq)]
enum Recv {
    None,
    Val,
    Ref,
    Mut,
}
#[derive(Clone)]
struct Helper {
    path: String,
    name: String,
    /// the type whose impl it is in
    of: Option<String>,
    recv: Recv,
    params: Vec<(String, String)>, // pattern, type ("" where it cannot be written)
    ret: String,
    body: String,
    /// `cmp`, `partial_cmp` or `eq` of an impl of std's comparison traits: taken in only by the other ones of the same type,
    /// because the verifier does not yet know there what the type's comparisons are specified to be
    order: bool,
}
fn ordering(path: &str) -> bool {
    ["Ord>::cmp", "PartialOrd>::partial_cmp", "PartialEq>::eq"].iter().any(|s| path.ends_with(&format!(" as {s}")))
}
fn ordering_caller(path: &str) -> bool {
    [" as Ord>::", " as PartialOrd>::", " as PartialEq>::"].iter().any(|s| path.contains(s))
}

fn recv(sig: &syn::Signature) -> Recv {
    match sig.inputs.first() {
        Some(syn::FnArg::Receiver(r)) if r.colon_token.is_some() => Recv::None,
        Some(syn::FnArg::Receiver(r)) => match (&r.reference, &r.mutability) {
            (Some(_), Some(_)) => Recv::Mut,
            (Some(_), None) => Recv::Ref,
            (None, _) => Recv::Val,
        },
        _ => Recv::None,
    }
}
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
    fn visit_expr_await(&mut self, _: &'ast syn::ExprAwait) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        if t.contains("return") || t.contains('?') { self.0 = true; }
    }
}
fn leaves(f: impl FnOnce(&mut Leaves)) -> bool {
    let mut l = Leaves(false);
    f(&mut l);
    l.0
}
/// the block as one that does not return early, if it can be written so
fn block(stmts: &[syn::Stmt]) -> Option<String> {
    let mut out = String::from("{ ");
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                if r.expr.as_ref().map_or(false, |e| leaves(|l| l.visit_expr(e))) { return None; }
                out.push_str(&r.expr.as_ref().map(|e| e.to_token_stream().to_string()).unwrap_or_default());
                out.push_str(" }");
                return Some(out);
            }
            syn::Stmt::Expr(e, semi) if leaves(|l| l.visit_expr(e)) => match e {
                syn::Expr::If(x) if x.else_branch.is_none() && !rest.is_empty() && matches!(x.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _))) => {
                    if leaves(|l| l.visit_expr(&x.cond)) { return None; }
                    let t = block(&x.then_branch.stmts)?;
                    out.push_str(&format!("if {} {t} else {} }}", x.cond.to_token_stream(), block(rest)?));
                    return Some(out);
                }
                _ if rest.is_empty() => {
                    let _ = semi;
                    out.push_str(&tail(e)?);
                    out.push_str(" }");
                    return Some(out);
                }
                _ => return None,
            },
            _ => {
                if leaves(|l| l.visit_stmt(s)) { return None; }
                out.push_str(&s.to_token_stream().to_string());
                out.push(' ');
            }
        }
    }
    out.push('}');
    Some(out)
}
fn tail(e: &syn::Expr) -> Option<String> {
    if !leaves(|l| l.visit_expr(e)) { return Some(e.to_token_stream().to_string()); }
    match e {
        syn::Expr::Return(r) => match &r.expr {
            Some(e) => tail(e),
            None => Some("()".into()),
        },
        syn::Expr::If(x) => {
            if leaves(|l| l.visit_expr(&x.cond)) { return None; }
            let t = block(&x.then_branch.stmts)?;
            let e = match &x.else_branch { Some((_, e)) => format!("else {}", tail(e)?), None => String::new() };
            Some(format!("if {} {t} {e}", x.cond.to_token_stream()))
        }
        syn::Expr::Block(b) if b.label.is_none() => block(&b.block.stmts),
        syn::Expr::Match(m) => {
            if leaves(|l| l.visit_expr(&m.expr)) { return None; }
            let mut out = format!("match {} {{ ", m.expr.to_token_stream());
            for a in &m.arms {
                let g = match &a.guard { Some((_, g)) if !leaves(|l| l.visit_expr(g)) => format!("if {}", g.to_token_stream()), Some(_) => return None, None => String::new() };
                out.push_str(&format!("{} {g} => {{ {} }} ", a.pat.to_token_stream(), tail(&a.body)?));
            }
            out.push('}');
            Some(out)
        }
        _ => None,
    }
}
fn has_word(s: &str, w: &str) -> bool { s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w) }

fn helper(path: String, of: Option<String>, sig: &syn::Signature, b: &syn::Block) -> Option<Helper> {
    if sig.asyncness.is_some() || sig.unsafety.is_some() || sig.abi.is_some() || sig.generics.const_params().next().is_some() { return None; }
    let name = sig.ident.to_string();
    let body = block(&b.stmts)?;
    let order = ordering(&path);
    if !order && has_word(&body, &name) || body.contains(&format!("self . {name} (")) { return None; } // recursive
    let generics: BTreeSet<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
    if generics.iter().any(|g| has_word(&body, g)) { return None; }
    let writable = |t: &str| !t.contains("impl ") && !t.contains('\'') && !generics.iter().any(|g| has_word(t, g));
    let mut params = vec![];
    let rv = recv(sig);
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => { if r.colon_token.is_some() || r.mutability.is_some() && r.reference.is_none() { return None; } }
            syn::FnArg::Typed(t) => {
                let ty = t.ty.to_token_stream().to_string();
                params.push((t.pat.to_token_stream().to_string(), if writable(&ty) { ty } else { String::new() }));
            }
        }
    }
    let ret = match &sig.output { syn::ReturnType::Type(_, t) => { let t = t.to_token_stream().to_string(); if writable(&t) { t } else { String::new() } } _ => String::new() };
    Some(Helper { path, name, of, recv: rv, params, ret, body, order })
}

/// every function of a list of items, with its impl's type; nested modules are other scopes
pub fn functions<'x>(items: &'x [syn::Item], modpath: &str, out: &mut Vec<(String, Option<String>, bool, &'x syn::Signature, &'x syn::Block)>) {
    let q = |n: &str| if modpath.is_empty() { n.to_string() } else { format!("{modpath}::{n}") };
    for it in items {
        match it {
            syn::Item::Fn(f) if crate::attrs_active(&f.attrs) => out.push((q(&f.sig.ident.to_string()), None, false, &f.sig, &f.block)),
            syn::Item::Impl(im) if crate::attrs_active(&im.attrs) => {
                let ty = crate::type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let base = match &tr { Some(t) => format!("<{ty} as {t}>"), None => ty.clone() };
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if crate::attrs_active(&f.attrs) {
                            out.push((q(&format!("{base}::{}", f.sig.ident)), Some(ty.clone()), tr.is_some(), &f.sig, &f.block));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

struct Calls<'x> {
    helpers: &'x [Helper],
    of: Option<String>,
    recv: Recv,
    edits: Vec<(usize, usize, String)>,
    used: BTreeSet<String>,
    ordered: BTreeSet<String>,
    order: bool,
    src: &'x str,
    n: &'x mut usize,
    depth: usize,
}
impl Calls<'_> {
    fn text(&self, e: &syn::Expr) -> String {
        let r = e.span().byte_range();
        self.src[r.start..r.end].to_string()
    }
    fn put(&mut self, h: &Helper, whole: proc_macro2::Span, selfbind: Option<String>, args: Vec<String>) {
        *self.n += 1;
        let k = *self.n;
        let mut s = String::from("({ ");
        let mut body = h.body.clone();
        if let Some(b) = selfbind {
            s.push_str(&format!("let vxi{k}_self = {b}; "));
            body = swap_self(&body, &format!("vxi{k}_self"));
        }
        // an argument that is the parameter's own name needs no binding
        let plain: Vec<bool> = h.params.iter().zip(&args).map(|((p, _), a)| p == a).collect();
        for (i, ((p, t), a)) in h.params.iter().zip(&args).enumerate() {
            if plain[i] { continue; }
            if args.len() == 1 {
                s.push_str(&format!("let {p}{}{t} = {a}; ", if t.is_empty() { "" } else { ": " }));
            } else {
                s.push_str(&format!("let vxi{k}_{i}{}{t} = {a}; ", if t.is_empty() { "" } else { ": " }));
            }
        }
        if args.len() > 1 {
            for (i, (p, _)) in h.params.iter().enumerate() {
                if !plain[i] { s.push_str(&format!("let {p} = vxi{k}_{i}; ")); }
            }
        }
        if h.ret.is_empty() {
            s.push_str(body.trim().strip_prefix('{').unwrap().strip_suffix('}').unwrap());
        } else {
            s.push_str(&format!("let vxi{k}_r: {} = {body}; vxi{k}_r", h.ret));
        }
        s.push_str(" })");
        let r = whole.byte_range();
        self.edits.push((r.start, r.end, s.replace('\n', " ")));
        if h.order { self.ordered.insert(h.path.clone()); } else { self.used.insert(h.path.clone()); }
    }
}
fn swap_self(s: &str, to: &str) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' { w.push(c); continue; }
        out.push_str(if w == "self" { to } else { &w });
        w.clear();
        out.push(c);
    }
    out
}
impl<'ast> Visit<'ast> for Calls<'_> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if let Ok(p) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            for e in p.iter() { visit_owned(self, e); }
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let n0 = self.edits.len();
        visit::visit_expr_call(self, c);
        if self.edits.len() > n0 { return; } // its arguments first; the call in the next round
        if let syn::Expr::Path(p) = &*c.func {
            let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = seg.last().unwrap().clone();
            let of = match seg.len() {
                1 => None,
                2 if seg[0] == "Self" => self.of.clone(),
                2 if seg[0] == "self" => None,
                2 => Some(seg[0].clone()),
                _ => return,
            };
            let hs = self.helpers;
            // `Ord::cmp(self, other)`
            if self.order && self.depth == 0 && seg.len() == 2 && ["Ord", "PartialOrd", "PartialEq"].contains(&seg[0].as_str()) && c.args.len() == 2 && c.args[0].to_token_stream().to_string() == "self" {
                if let Some(h) = hs.iter().find(|h| h.order && h.name == name && h.of == self.of && h.recv == self.recv) {
                    let args = vec![self.text(&c.args[1])];
                    self.put(h, c.span(), None, args);
                }
                return;
            }
            if let Some(h) = hs.iter().find(|h| h.name == name && h.of == of && h.recv == Recv::None && !h.order && h.params.len() == c.args.len()) {
                if h.of.is_some() && has_word(&h.body, "Self") && self.of != h.of { return; }
                let args = c.args.iter().map(|a| self.text(a)).collect();
                self.put(h, c.span(), None, args);
            }
        }
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        let n0 = self.edits.len();
        visit::visit_expr_method_call(self, c);
        if self.edits.len() > n0 { return; }
        let r = c.receiver.to_token_stream().to_string();
        if self.of.is_none() || r != "self" || self.depth > 0 { return; }
        let hs = self.helpers;
        if let Some(h) = hs.iter().find(|h| c.method == h.name && h.of == self.of && h.recv != Recv::None && (!h.order || self.order) && h.params.len() == c.args.len()) {
            let bind = match (h.recv, self.recv) {
                (a, b) if a == b => None,
                (Recv::Val, Recv::Ref) | (Recv::Val, Recv::Mut) => Some("*self".to_string()),
                (Recv::Ref, Recv::Val) => Some("&self".to_string()),
                (Recv::Ref, Recv::Mut) => Some("&*self".to_string()),
                _ => return,
            };
            let args = c.args.iter().map(|a| self.text(a)).collect();
            self.put(h, c.span(), bind, args);
        }
    }
}
// expressions parsed out of a macro live no longer than the visit
fn visit_owned(c: &mut Calls<'_>, e: &syn::Expr) {
    match e {
        syn::Expr::Call(x) => c.visit_expr_call(x),
        syn::Expr::MethodCall(x) => c.visit_expr_method_call(x),
        _ => c.visit_expr(e),
    }
}

/// Constants and functions declared inside a body move to the end of the module, where they mean the same: the verifier takes none
/// inside a body.  Those that would meet another item of their name there, or speak of `Self`, stay.
fn lift(mut src: String) -> String {
    struct Local {
        found: Vec<(usize, usize, String, String)>,
        /// constants that are only read as values may as well be locals: `let`
        lets: Vec<(usize, usize, String)>,
        block: Vec<String>,
    }
    /// names in patterns, types and lengths, where only a constant can stand
    struct Fixed(BTreeSet<String>);
    impl Fixed {
        fn take(&mut self, t: impl ToTokens) {
            self.0.extend(t.to_token_stream().to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).map(String::from));
        }
    }
    impl<'ast> Visit<'ast> for Fixed {
        fn visit_pat(&mut self, p: &'ast syn::Pat) { self.take(p); }
        fn visit_type(&mut self, p: &'ast syn::Type) { self.take(p); }
        fn visit_generic_argument(&mut self, p: &'ast syn::GenericArgument) { self.take(p); }
        fn visit_expr_repeat(&mut self, p: &'ast syn::ExprRepeat) { self.take(&p.len); self.visit_expr(&p.expr); }
        fn visit_item(&mut self, i: &'ast syn::Item) { if let syn::Item::Const(c) = i { self.take(&c.ty); if !matches!(&*c.expr, syn::Expr::Lit(_)) { self.take(&c.expr); } } else { self.take(i); } }
    }
    impl<'ast> Visit<'ast> for Local {
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            if let syn::Stmt::Item(it) = s {
                let name = match it {
                    syn::Item::Const(c) => c.ident.to_string(),
                    syn::Item::Fn(f) => f.sig.ident.to_string(),
                    _ => return,
                };
                let r = it.span().byte_range();
                if let syn::Item::Const(c) = it {
                    if !self.block.contains(&name) {
                        self.lets.push((r.start, r.end, format!("let {}: {} = {};", c.ident, c.ty.to_token_stream(), c.expr.to_token_stream())));
                        return;
                    }
                }
                self.found.push((r.start, r.end, name, it.to_token_stream().to_string()));
                return;
            }
            visit::visit_stmt(self, s);
        }
    }
    for _ in 0..4 {
        let Ok(ast) = syn::parse_file(&src) else { return src };
        let mut fns = vec![];
        functions(&ast.items, "", &mut fns);
        let mut l = Local { found: vec![], lets: vec![], block: vec![] };
        for (_, _, _, _, b) in &fns {
            let mut f = Fixed(BTreeSet::new());
            f.visit_block(b);
            l.block = f.0.into_iter().collect();
            l.visit_block(b);
        }
        if !l.lets.is_empty() {
            l.lets.sort();
            for (a, b, t) in l.lets.into_iter().rev() { src.replace_range(a..b, &t); }
            continue;
        }
        let mut taken: BTreeMap<String, String> = BTreeMap::new();
        for it in &ast.items {
            let n = match it {
                syn::Item::Const(x) => x.ident.to_string(),
                syn::Item::Static(x) => x.ident.to_string(),
                syn::Item::Fn(x) => x.sig.ident.to_string(),
                _ => continue,
            };
            taken.insert(n, String::new());
        }
        let mut edits = vec![];
        let mut tail = String::new();
        for (a, b, name, text) in l.found {
            if has_word(&text, "Self") || has_word(&text, "self") { continue; }
            match taken.get(&name) {
                Some(x) if *x != text => continue,
                Some(_) => {}
                None => {
                    tail.push_str(&format!("\n{text}\n"));
                    taken.insert(name, text);
                }
            }
            edits.push((a, b));
        }
        if edits.is_empty() { break; }
        edits.sort();
        for (a, b) in edits.into_iter().rev() { src.replace_range(a..b, ""); }
        src.push_str(&tail);
    }
    src
}

/// `continue` in a `for` loop, which the verifier does not take, becomes the else branch it stands for
fn without_continue(mut src: String) -> String {
    struct Own(bool, bool);
    impl<'ast> Visit<'ast> for Own {
        fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) { if c.label.is_none() { self.0 = true } else { self.1 = true } }
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.1 = true; }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.1 = true; }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'ast syn::Item) {}
    }
    fn swap(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        ts.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), swap(g.stream()))),
                proc_macro2::TokenTree::Ident(i) if i == "continue" => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new("return", i.span())),
                t => t,
            })
            .collect()
    }
    struct Loops(Vec<(usize, usize, String)>);
    impl<'ast> Visit<'ast> for Loops {
        fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
            let n = self.0.len();
            visit::visit_expr_for_loop(self, f);
            if self.0.len() > n { return; } // the inner ones first
            let mut o = Own(false, false);
            for s in &f.body.stmts { o.visit_stmt(s); }
            if !o.0 || o.1 { return; }
            let text = f.body.to_token_stream().to_string();
            if text.contains("while") || text.contains("loop") || text.contains("for ") && text.matches("continue").count() != 1 { return; }
            let Ok(b) = syn::parse2::<syn::Block>(swap(f.body.to_token_stream())) else { return };
            if let Some(t) = block(&b.stmts) {
                let r = f.body.span().byte_range();
                self.0.push((r.start, r.end, t));
            }
        }
    }
    for _ in 0..6 {
        let Ok(ast) = syn::parse_file(&src) else { return src };
        let mut fns = vec![];
        functions(&ast.items, "", &mut fns);
        let mut l = Loops(vec![]);
        for (_, _, _, _, b) in &fns { l.visit_block(b); }
        if l.0.is_empty() { break; }
        l.0.sort();
        for (a, b, t) in l.0.into_iter().rev() { src.replace_range(a..b, &t); }
    }
    src
}

fn loops_of(b: &syn::Block) -> usize {
    struct N(usize);
    impl<'ast> Visit<'ast> for N {
        fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) { self.0 += 1; visit::visit_expr_for_loop(self, f); }
        fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) { self.0 += 1; visit::visit_expr_while(self, f); }
        fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) { self.0 += 1; visit::visit_expr_loop(self, f); }
    }
    let mut n = N(0);
    n.visit_block(b);
    n.0
}
/// Other spellings of a `for` loop become one, so that the loop's invariant meets it: `E.for_each(|p| B);`, `while let Some(p) =
/// x.next() { B }` where x is not used otherwise, a function's last expression `E.all(|p| B)` or `E.any(|p| B)`, and, where the
/// contract expects a loop more, its last expression `E.fold(i, |a, p| B)`.
fn for_loops(mut src: String, modpath: &str, wants: &dyn Fn(&str) -> usize) -> String {
    struct Count(String, usize);
    impl Count {
        fn run(&mut self, ts: proc_macro2::TokenStream) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Group(g) => self.run(g.stream()),
                    proc_macro2::TokenTree::Ident(i) if i == self.0 => self.1 += 1,
                    _ => {}
                }
            }
        }
    }
    struct Forms<'x> {
        src: &'x str,
        whole: proc_macro2::TokenStream,
        mutable: bool,
        edits: Vec<(usize, usize, String)>,
    }
    struct Assigns(bool);
    impl<'ast> Visit<'ast> for Assigns {
        fn visit_expr_assign(&mut self, _: &'ast syn::ExprAssign) { self.0 = true; }
        fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) { self.0 = true; }
            visit::visit_expr_binary(self, b);
        }
    }
    impl Forms<'_> {
        fn text(&self, e: &impl Spanned) -> String {
            let r = e.span().byte_range();
            self.src[r.start..r.end].to_string()
        }
    }
    fn one(c: &syn::ExprMethodCall, name: &str) -> Option<(String, syn::Expr)> {
        if c.method != name || c.args.len() != 1 { return None; }
        let syn::Expr::Closure(k) = &c.args[0] else { return None };
        if k.inputs.len() != 1 || k.asyncness.is_some() || leaves(|l| l.visit_expr(&k.body)) { return None; }
        let p = match &k.inputs[0] { syn::Pat::Type(t) => t.pat.to_token_stream().to_string(), p => p.to_token_stream().to_string() };
        Some((p, (*k.body).clone()))
    }
    impl<'ast> Visit<'ast> for Forms<'_> {
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            if let syn::Stmt::Expr(syn::Expr::MethodCall(c), Some(_)) = s {
                if let Some((p, b)) = one(c, "for_each") {
                    let r = s.span().byte_range();
                    let b = self.text(&b);
                    let b = if b.starts_with('{') { b } else { format!("{{ {b}; }}") };
                    self.edits.push((r.start, r.end, format!("for {p} in {} {b}", self.text(&c.receiver))));
                    return;
                }
            }
            visit::visit_stmt(self, s);
        }
        fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
            if let (None, syn::Expr::Let(l)) = (&w.label, &*w.cond) {
                if let (syn::Pat::TupleStruct(p), syn::Expr::MethodCall(c)) = (&*l.pat, &*l.expr) {
                    if p.path.is_ident("Some") && p.elems.len() == 1 && c.method == "next" && c.args.is_empty() {
                        let x = c.receiver.to_token_stream().to_string();
                        let mut n = Count(x.clone(), 0);
                        n.run(self.whole.clone());
                        if syn::parse_str::<syn::Ident>(&x).is_ok() && n.1 == 2 && x != "self" {
                            let r = w.span().byte_range();
                            self.edits.push((r.start, r.end, format!("for {} in {x} {}", self.text(&p.elems[0]), self.text(&w.body))));
                            return;
                        }
                    }
                }
            }
            visit::visit_expr_while(self, w);
        }
    }
    for _ in 0..6 {
        let Ok(ast) = syn::parse_file(&src) else { return src };
        let mut fns = vec![];
        functions(&ast.items, modpath, &mut fns);
        let mut edits = vec![];
        for (path, _, _, sig, b) in &fns {
            let mut whole = sig.to_token_stream();
            whole.extend(b.to_token_stream());
            let mut f = Forms { src: &src, whole, mutable: false, edits: vec![] };
            f.visit_block(b);
            if f.edits.is_empty() {
                if let Some(syn::Stmt::Expr(syn::Expr::MethodCall(c), None)) = b.stmts.last() {
                    if wants(path) > loops_of(b) && c.method == "fold" && c.args.len() == 2 {
                        if let syn::Expr::Closure(k) = &c.args[1] {
                            let acc = match k.inputs.first() {
                                Some(syn::Pat::Ident(i)) => Some(i.ident.to_string()),
                                Some(syn::Pat::Type(t)) => match &*t.pat { syn::Pat::Ident(i) => Some(i.ident.to_string()), _ => None },
                                _ => None,
                            };
                            if let (Some(a), 2, false) = (acc, k.inputs.len(), leaves(|l| l.visit_expr(&k.body))) {
                                let p = match &k.inputs[1] { syn::Pat::Type(t) => t.pat.to_token_stream().to_string(), p => p.to_token_stream().to_string() };
                                let r = c.span().byte_range();
                                f.edits.push((r.start, r.end, format!("let mut {a} = {}; for {p} in {} {{ {a} = {}; }} {a}", f.text(&c.args[0]), f.text(&c.receiver), f.text(&k.body))));
                            }
                        }
                    }
                    for (m, stop) in [("all", "false"), ("any", "true")] {
                        if let Some((p, body)) = one(c, m) {
                            let mut a = Assigns(false);
                            a.visit_expr(&body);
                            f.mutable = a.0;
                            if f.mutable {
                                let r = c.span().byte_range();
                                let (neg, end) = if m == "all" { ("!", "true") } else { ("", "false") };
                                f.edits.push((r.start, r.end, format!("for {p} in {} {{ let vx_go: bool = {}; if {neg}vx_go {{ return {stop}; }} }} {end}", f.text(&c.receiver), f.text(&body))));
                            }
                        }
                    }
                }
            }
            edits.extend(f.edits);
        }
        if edits.is_empty() { break; }
        edits.sort();
        for (a, b, t) in edits.into_iter().rev() { src.replace_range(a..b, &t); }
    }
    src
}

/// What conditional compilation takes out of bodies and types is taken out, as the compiler does; what stays loses the attribute.
fn strip_cfg(mut src: String) -> String {
    struct Cfg<'x> {
        src: &'x str,
        edits: Vec<(usize, usize)>,
        inside: bool,
    }
    impl Cfg<'_> {
        /// false if the node went
        fn node(&mut self, attrs: &[syn::Attribute], whole: proc_macro2::Span, comma: bool) -> bool {
            if !attrs.iter().any(|a| a.path().is_ident("cfg")) { return true; }
            if !crate::attrs_active(attrs) {
                let r = whole.byte_range();
                let mut e = r.end;
                if comma {
                    let rest = &self.src[e..];
                    let n = rest.len() - rest.trim_start().len();
                    if rest[n..].starts_with(',') { e += n + 1; }
                }
                self.edits.push((r.start, e));
                return false;
            }
            for a in attrs.iter().filter(|a| a.path().is_ident("cfg")) {
                let r = a.span().byte_range();
                self.edits.push((r.start, r.end));
            }
            true
        }
    }
    fn attrs(e: &syn::Expr) -> &[syn::Attribute] {
        use syn::Expr::*;
        match e {
            Block(x) => &x.attrs,
            If(x) => &x.attrs,
            Match(x) => &x.attrs,
            ForLoop(x) => &x.attrs,
            While(x) => &x.attrs,
            Loop(x) => &x.attrs,
            Call(x) => &x.attrs,
            MethodCall(x) => &x.attrs,
            Assign(x) => &x.attrs,
            Binary(x) => &x.attrs,
            Return(x) => &x.attrs,
            Macro(x) => &x.attrs,
            Unsafe(x) => &x.attrs,
            Path(x) => &x.attrs,
            Lit(x) => &x.attrs,
            Struct(x) => &x.attrs,
            Unary(x) => &x.attrs,
            Paren(x) => &x.attrs,
            Break(x) => &x.attrs,
            Continue(x) => &x.attrs,
            _ => &[],
        }
    }
    impl<'ast> Visit<'ast> for Cfg<'_> {
        fn visit_block(&mut self, b: &'ast syn::Block) {
            let old = std::mem::replace(&mut self.inside, true);
            visit::visit_block(self, b);
            self.inside = old;
        }
        fn visit_item(&mut self, i: &'ast syn::Item) {
            // items of modules are seen to elsewhere
            visit::visit_item(self, i);
        }
        fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
            if crate::attrs_active(&m.attrs) { visit::visit_item_mod(self, m); }
        }
        fn visit_item_fn(&mut self, m: &'ast syn::ItemFn) {
            if self.inside && !self.node(&m.attrs, m.span(), false) { return; }
            if crate::attrs_active(&m.attrs) { visit::visit_item_fn(self, m); }
        }
        fn visit_item_const(&mut self, m: &'ast syn::ItemConst) {
            if self.inside && !self.node(&m.attrs, m.span(), false) { return; }
            visit::visit_item_const(self, m);
        }
        fn visit_item_use(&mut self, m: &'ast syn::ItemUse) {
            if self.inside { self.node(&m.attrs, m.span(), false); }
        }
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            let keep = match s {
                syn::Stmt::Local(l) => self.node(&l.attrs, s.span(), false),
                syn::Stmt::Macro(m) => self.node(&m.attrs, s.span(), false),
                syn::Stmt::Expr(e, _) => self.node(attrs(e), s.span(), false),
                syn::Stmt::Item(_) => true,
            };
            if keep { visit::visit_stmt(self, s); }
        }
        fn visit_arm(&mut self, a: &'ast syn::Arm) { if self.node(&a.attrs, a.span(), true) { visit::visit_arm(self, a); } }
        fn visit_field(&mut self, a: &'ast syn::Field) { if self.node(&a.attrs, a.span(), true) { visit::visit_field(self, a); } }
        fn visit_variant(&mut self, a: &'ast syn::Variant) { if self.node(&a.attrs, a.span(), true) { visit::visit_variant(self, a); } }
        fn visit_field_value(&mut self, a: &'ast syn::FieldValue) { if self.node(&a.attrs, a.span(), true) { visit::visit_field_value(self, a); } }
        fn visit_field_pat(&mut self, a: &'ast syn::FieldPat) { if self.node(&a.attrs, a.span(), true) { visit::visit_field_pat(self, a); } }
    }
    let Ok(ast) = syn::parse_file(&src) else { return src };
    let mut c = Cfg { src: &src, edits: vec![], inside: false };
    c.visit_file(&ast);
    let mut e = c.edits;
    e.sort();
    for (a, b) in e.into_iter().rev() {
        let lines = "\n".repeat(src[a..b].matches('\n').count());
        src.replace_range(a..b, &lines);
    }
    src
}

/// The file in the forms the verifier takes and the invariants expect.
pub fn normal(src: String, modpath: &str, wants: &dyn Fn(&str) -> usize) -> String { without_continue(for_loops(lift(strip_cfg(src)), modpath, wants)) }

/// The file with the calls replaced, which helpers each function took in, and the helpers.
pub fn inline(mut src: String, modpath: &str, contracts: &dyn Fn(&str) -> bool) -> (String, BTreeMap<String, BTreeSet<String>>, BTreeSet<String>) {
    let mut took: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut gone = BTreeSet::new();
    let mut n = 0;
    for _ in 0..12 {
        let Ok(ast) = syn::parse_file(&src) else { break };
        let mut fns = vec![];
        functions(&ast.items, modpath, &mut fns);
        let helpers: Vec<Helper> = fns.iter().filter(|(p, _, tr, _, _)| if *tr { ordering(p) } else { !contracts(p) }).filter_map(|(p, of, _, sig, b)| helper(p.clone(), of.clone(), sig, b)).collect();
        if helpers.is_empty() { break; }
        let mut edits = vec![];
        for (p, of, _, sig, b) in &fns {
            let mut c = Calls { helpers: &helpers, of: of.clone(), recv: recv(sig), edits: vec![], used: BTreeSet::new(), ordered: BTreeSet::new(), order: ordering_caller(p), src: &src, n: &mut n, depth: 0 };
            c.visit_block(b);
            if !c.edits.is_empty() {
                let e = took.entry(p.clone()).or_default();
                e.extend(c.used.clone());
                e.extend(c.ordered);
                gone.extend(c.used);
                edits.extend(c.edits);
            }
        }
        if edits.is_empty() { break; }
        edits.sort();
        for (a, b, t) in edits.into_iter().rev() { src.replace_range(a..b, &t); }
    }
    (src, took, gone)
}
