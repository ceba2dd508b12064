//! Renamed locals, parameters and private functions get the names back under which the contracts know them.  A renaming is only
//! undone where it cannot meet another name: the old name occurs nowhere in the function (for functions: nowhere in the crate),
//! so the text verified differs from the text that runs by names alone.
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit::{self, Visit};

pub struct Known {
    sig: String,
    /// bound names in order, with what each is bound to
    binders: Vec<Bound>,
}
type Bound = (String, String);
pub type Names = BTreeMap<String, Known>;

struct Binders(Vec<Bound>, String);
impl Binders {
    fn under(&mut self, origin: String, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.1, origin);
        f(self);
        self.1 = old;
    }
}
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.push((n, self.1.clone())); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_fn_arg(&mut self, a: &'ast syn::FnArg) {
        if let syn::FnArg::Typed(t) = a { self.under(t.ty.to_token_stream().to_string(), |s| s.visit_pat(&t.pat)); }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let o = l.init.as_ref().map(|i| i.expr.to_token_stream().to_string()).unwrap_or_default();
        self.under(if o.len() < 80 { o } else { String::new() }, |s| s.visit_pat(&l.pat));
        if let Some(i) = &l.init {
            self.under(String::new(), |s| {
                s.visit_expr(&i.expr);
                if let Some((_, d)) = &i.diverge { s.visit_expr(d); }
            });
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let o = f.expr.to_token_stream().to_string();
        self.under(if o.len() < 80 { format!("for {o}") } else { String::new() }, |s| s.visit_pat(&f.pat));
        self.under(String::new(), |s| {
            s.visit_expr(&f.expr);
            s.visit_block(&f.body);
        });
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
fn binders(sig: &syn::Signature, b: &syn::Block) -> Vec<Bound> {
    let mut v = Binders(vec![], String::new());
    v.visit_signature(sig);
    v.visit_block(b);
    v.0
}
/// the types of a signature, without the names
fn shape(sig: &syn::Signature) -> String {
    let mut s = String::new();
    for a in &sig.inputs {
        s.push_str(&match a {
            syn::FnArg::Receiver(r) => r.to_token_stream().to_string(),
            syn::FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
        });
        s.push(';');
    }
    format!("{} -> {} {}", s, sig.output.to_token_stream(), sig.generics.params.len())
}
fn rs_files(dir: &Path, modpath: &str, out: &mut Vec<(PathBuf, String)>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        let q = if modpath.is_empty() { stem.clone() } else { format!("{modpath}::{stem}") };
        if p.is_dir() {
            rs_files(&p, &q, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push((p, if stem == "lib" || stem == "mod" { modpath.to_string() } else { q }));
        }
    }
}
fn idents(ts: proc_macro2::TokenStream, out: &mut Vec<(String, usize, usize)>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                let r = i.span().byte_range();
                out.push((i.to_string(), r.start, r.end));
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

pub fn scan(src: &Path) -> Names {
    let mut files = vec![];
    rs_files(src, "", &mut files);
    let mut out = Names::new();
    for (f, m) in files {
        let Ok(ast) = syn::parse_file(&std::fs::read_to_string(&f).unwrap_or_default()) else { continue };
        let mut fns = vec![];
        crate::inline::functions(&ast.items, &m, &mut fns);
        for (p, _, _, sig, b) in fns { out.insert(p, Known { sig: shape(sig), binders: binders(sig, b) }); }
    }
    out
}
pub fn to_json(n: &Names) -> Value {
    Value::Object(n.iter().map(|(k, v)| (k.clone(), json!({"sig": v.sig, "binders": v.binders}))).collect())
}
pub fn from_file(f: &Path) -> Names {
    let Ok(t) = std::fs::read_to_string(f) else { return Names::new() };
    let Ok(Value::Object(m)) = serde_json::from_str::<Value>(&t) else { return Names::new() };
    m.into_iter()
        .map(|(k, v)| {
            let sig = v["sig"].as_str().unwrap_or("").to_string();
            let binders = v["binders"].as_array().map(|a| a.iter().filter_map(|x| Some((x[0].as_str()?.to_string(), x[1].as_str()?.to_string()))).collect()).unwrap_or_default();
            (k, Known { sig, binders })
        })
        .collect()
}

/// private functions that only changed their name: new name to old name
pub fn functions(src: &Path, known: &Names) -> BTreeMap<String, String> {
    let now = scan(src);
    let split = |p: &str| match p.rfind("::") { Some(i) => (p[..i].to_string(), p[i + 2..].to_string()), None => (String::new(), p.to_string()) };
    let mut classes: BTreeMap<(String, String), (Vec<String>, Vec<String>)> = BTreeMap::new();
    for (p, k) in known {
        if !now.contains_key(p) { classes.entry((split(p).0, k.sig.clone())).or_default().0.push(split(p).1); }
    }
    for (p, k) in &now {
        if !known.contains_key(p) { classes.entry((split(p).0, k.sig.clone())).or_default().1.push(split(p).1); }
    }
    let mut words: BTreeMap<String, usize> = BTreeMap::new();
    let mut files = vec![];
    rs_files(src, "", &mut files);
    for (f, _) in files {
        let Ok(ts) = std::fs::read_to_string(&f).unwrap_or_default().parse::<proc_macro2::TokenStream>() else { return BTreeMap::new() };
        let mut v = vec![];
        idents(ts, &mut v);
        for (w, _, _) in v { *words.entry(w).or_default() += 1; }
    }
    let mut out = BTreeMap::new();
    for ((_, _), (gone, fresh)) in classes {
        if let ([g], [f]) = (&gone[..], &fresh[..]) {
            // the old name is free, the new one names one function only
            let defs = now.keys().filter(|p| split(p).1 == *f).count();
            if !words.contains_key(g) && defs == 1 && !out.contains_key(f) && !out.values().any(|x| x == g) { out.insert(f.clone(), g.clone()); }
        }
    }
    out
}

struct Uses<'x> {
    map: &'x BTreeMap<String, String>,
    edits: Vec<(usize, usize, String)>,
    bad: BTreeSet<String>,
}
impl Uses<'_> {
    fn put(&mut self, i: &proc_macro2::Ident) {
        if let Some(t) = self.map.get(&i.to_string()) {
            let r = i.span().byte_range();
            self.edits.push((r.start, r.end, t.clone()));
        }
    }
}
impl<'ast> Visit<'ast> for Uses<'_> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.put(&p.ident);
        if let Some((_, s)) = &p.subpat { self.visit_pat(s); }
    }
    fn visit_field_pat(&mut self, p: &'ast syn::FieldPat) {
        if p.colon_token.is_none() {
            if let (syn::Pat::Ident(i), syn::Member::Named(m)) = (&*p.pat, &p.member) {
                if let Some(t) = self.map.get(&i.ident.to_string()) {
                    let r = i.ident.span().byte_range();
                    if i.by_ref.is_some() || i.mutability.is_some() { self.bad.insert(m.to_string()); }
                    self.edits.push((r.start, r.end, format!("{m}: {t}")));
                    return;
                }
            }
        }
        visit::visit_pat(self, &p.pat);
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(m) = &f.member {
                if let Some(t) = self.map.get(&m.to_string()) {
                    let r = m.span().byte_range();
                    self.edits.push((r.start, r.end, format!("{m}: {t}")));
                }
                return;
            }
        }
        self.visit_expr(&f.expr);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() { self.bad.insert(i.to_string()); }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() { self.put(i); }
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        for k in self.map.keys() {
            if t.contains(&format!("{{{k}}}")) || t.contains(&format!("{{{k}:")) { self.bad.insert(k.clone()); }
        }
        fn walk(u: &mut Uses<'_>, ts: proc_macro2::TokenStream) {
            let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
            for (n, t) in v.iter().enumerate() {
                match t {
                    proc_macro2::TokenTree::Group(g) => walk(u, g.stream()),
                    proc_macro2::TokenTree::Ident(i) => {
                        let p = |k: usize, c: char| matches!(v.get(k), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == c);
                        if u.map.contains_key(&i.to_string()) {
                            let path = n > 1 && p(n - 1, ':') && p(n - 2, ':') || p(n + 1, ':') && p(n + 2, ':');
                            let field = n > 0 && p(n - 1, '.') && !(n > 1 && p(n - 2, '.'));
                            if p(n + 1, ':') || p(n + 1, '!') || p(n + 1, '=') && !p(n + 2, '=') || path { u.bad.insert(i.to_string()); }
                            if !field { u.put(i); }
                        }
                    }
                    _ => {}
                }
            }
        }
        walk(self, m.tokens.clone());
    }
    fn visit_item(&mut self, i: &'ast syn::Item) {
        for (w, _, _) in { let mut v = vec![]; idents(i.to_token_stream(), &mut v); v } { self.bad.insert(w); }
    }
}

/// pairs (new, old) where the sequences of bound names differ by a name in the same place, or one bound to the same
fn pairs(old: &[Bound], new: &[Bound]) -> Vec<(String, String)> {
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i].0 == new[j].0 { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j, mut gi, mut gj) = (0, 0, 0, 0);
    let mut out = vec![];
    let mut gap = |a: &[Bound], b: &[Bound]| {
        if a.len() == b.len() {
            out.extend(b.iter().zip(a).map(|(x, y)| (x.0.clone(), y.0.clone())));
        } else {
            for x in b {
                let c: Vec<&Bound> = a.iter().filter(|y| !x.1.is_empty() && y.1 == x.1).collect();
                if let [y] = c[..] { out.push((x.0.clone(), y.0.clone())); }
            }
        }
    };
    while i < n && j < m {
        if old[i].0 == new[j].0 && l[i][j] == l[i + 1][j + 1] + 1 {
            gap(&old[gi..i], &new[gj..j]);
            i += 1;
            j += 1;
            gi = i;
            gj = j;
        } else if l[i + 1][j] >= l[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    gap(&old[gi..], &new[gj..]);
    out
}

/// The file with the old names, and what was renamed in which function.
pub fn undo(mut src: String, modpath: &str, known: &Names, fnames: &BTreeMap<String, String>) -> (String, BTreeMap<String, BTreeSet<String>>) {
    let mut took: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    if !fnames.is_empty() {
        if let Ok(ts) = src.parse::<proc_macro2::TokenStream>() {
            let mut v = vec![];
            idents(ts, &mut v);
            for (w, a, b) in v.into_iter().rev() {
                if let Some(t) = fnames.get(&w) { src.replace_range(a..b, t); }
            }
        }
    }
    let Ok(ast) = syn::parse_file(&src) else { return (src, took) };
    let mut fns = vec![];
    crate::inline::functions(&ast.items, modpath, &mut fns);
    let mut edits = vec![];
    for (p, _, _, sig, b) in &fns {
        if let Some((f, o)) = fnames.iter().find(|(_, o)| p.ends_with(&format!("::{o}"))) {
            took.entry(p.clone()).or_default().insert(format!("function-{f}-back-to-{o}"));
        }
        let Some(k) = known.get(p) else { continue };
        let now = binders(sig, b);
        if now.iter().map(|x| &x.0).eq(k.binders.iter().map(|x| &x.0)) { continue; }
        let mut all = vec![];
        idents(sig.to_token_stream(), &mut all);
        idents(b.to_token_stream(), &mut all);
        let words: BTreeSet<String> = all.into_iter().map(|x| x.0).collect();
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let mut bad: BTreeSet<String> = BTreeSet::new();
        for (new, old) in pairs(&k.binders, &now) {
            if words.contains(&old) || k.binders.iter().any(|x| x.0 == new) || new == "_" || old == "_" { continue; }
            match map.get(&new) {
                Some(o) if *o != old => { bad.insert(new); }
                Some(_) => {}
                None if map.values().any(|o| *o == old) => { bad.insert(new); }
                None => { map.insert(new, old); }
            }
        }
        loop {
            map.retain(|n, _| !bad.contains(n));
            if map.is_empty() { break; }
            let mut u = Uses { map: &map, edits: vec![], bad: BTreeSet::new() };
            u.visit_signature(sig);
            u.visit_block(b);
            let hit: BTreeSet<String> = u.bad.into_iter().filter(|x| map.contains_key(x)).collect();
            if hit.is_empty() {
                took.entry(p.clone()).or_default().extend(map.iter().map(|(n, o)| format!("{n}-back-to-{o}")));
                edits.extend(u.edits);
                break;
            }
            bad.extend(hit);
        }
    }
    edits.sort();
    edits.dedup();
    for (a, b, t) in edits.into_iter().rev() { src.replace_range(a..b, &t); }
    (src, took)
}
