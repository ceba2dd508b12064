//! vx: mechanical extractor.  Reads the crate under /repo/src, weaves the contract overlay
//! (/verif/contracts/*.vc) around the *verbatim* text of its functions and writes one file that
//! Verus accepts.  Only the rewriting rules listed in DESIGN.md ("What the extraction changes") are applied.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod alpha;
mod inline;

// ------------------------------------------------------------------ overlay
#[derive(Default, Clone, Debug)]
struct ClosureOv {
    header: String,
    spec: String,
}
#[derive(Default, Clone, Debug)]
struct FnOv {
    ret: Option<String>,
    attrs: String,
    spec: String,
    start: String,
    end: String,
    tail: Option<String>, // proof text run after the tail expression was evaluated (bound to `vx_r`)
    loop_it: BTreeMap<usize, String>,
    loop_inv: BTreeMap<usize, String>,
    loop_start: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    loop_before: BTreeMap<usize, String>,
    loop_after: BTreeMap<usize, String>,
    closures: BTreeMap<usize, ClosureOv>,
    at: Vec<(String, usize, bool, String)>, // pattern, nth, before, text
    renames: BTreeSet<String>, // methods of this function that get the name vx_… (receivers whose type the verifier has no model of)
    external: bool,
    loops_expected: Option<usize>,
}
#[derive(Default)]
struct Overlay {
    top: String,
    head: String,
    fns: BTreeMap<String, FnOv>,
    consts: BTreeMap<String, String>,
    mods: BTreeMap<String, String>,
    traits: BTreeMap<String, String>,
    items: BTreeMap<String, String>, // attributes for items
    impls: BTreeMap<String, String>, // items added to an impl block
    drops: BTreeSet<String>,
    pubfields: BTreeSet<String>,
    noderive: BTreeSet<String>,
    deps: Vec<(String, String, String, Vec<String>)>, // crate, file, module to put it in, the items taken
}

fn parse_overlay(dir: &Path) -> Overlay {
    let mut ov = Overlay::default();
    let mut files: Vec<PathBuf> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
    // sections for one check only: files the driver names
    files.extend(std::env::var("VX_ONLY").ok().filter(|s| !s.is_empty()).map(PathBuf::from));
    files.sort();
    for f in files {
        let text = fs::read_to_string(&f).unwrap();
        let mut kind = String::new();
        let mut key = String::new();
        let mut sub: Option<(String, String)> = None;
        let mut buf = String::new();
        let flush = |ov: &mut Overlay, kind: &str, key: &str, sub: &Option<(String, String)>, buf: &mut String| {
            let t = std::mem::take(buf);
            match kind {
                "" => {}
                "top" => ov.top.push_str(&t),
                "head" => ov.head.push_str(&t),
                "mod" => ov.mods.entry(key.into()).or_default().push_str(&t),
                "trait" => ov.traits.entry(key.into()).or_default().push_str(&t),
                "impl" => ov.impls.entry(key.into()).or_default().push_str(&t),
                "item" => ov.items.entry(key.into()).or_default().push_str(&t),
                "const" => {
                    ov.consts.entry(key.into()).or_default().push_str(&t);
                }
                "dep" => {
                    let w: Vec<&str> = key.split_whitespace().collect();
                    ov.deps.push((w[0].into(), w[1].into(), w[2].into(), t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()));
                }
                "drop" => {
                    ov.drops.insert(key.into());
                }
                "noderive" => {
                    ov.noderive.insert(key.into());
                }
                "pubfields" => {
                    ov.pubfields.insert(key.into());
                }
                "fn" => {
                    let e = ov.fns.entry(key.into()).or_default();
                    if let Some((d, arg)) = sub {
                        let num = || arg.split_whitespace().next().unwrap_or("").parse::<usize>().unwrap_or_else(|_| panic!("bad arg {arg} in {key}"));
                        match d.as_str() {
                            "spec" => e.spec.push_str(&t),
                            "attr" => e.attrs.push_str(&t),
                            "start" => e.start.push_str(&t),
                            "end" => e.end.push_str(&t),
                            "tail" => e.tail = Some(t),
                            "loop" => {
                                let n = num();
                                if let Some(i) = arg.split("iter=").nth(1) {
                                    e.loop_it.insert(n, i.trim().to_string());
                                }
                                e.loop_inv.insert(n, t);
                            }
                            "loop-start" => {
                                e.loop_start.insert(num(), t);
                            }
                            "loop-end" => {
                                e.loop_end.insert(num(), t);
                            }
                            "loop-before" => {
                                e.loop_before.insert(num(), t);
                            }
                            "loop-after" => {
                                e.loop_after.insert(num(), t);
                            }
                            "closure" => {
                                let n = num();
                                let header = arg.trim_start().trim_start_matches(|c: char| c.is_ascii_digit()).trim().to_string();
                                e.closures.insert(n, ClosureOv { header, spec: t });
                            }
                            "before" | "after" => {
                                let (nth, pat) = match arg.split_once(' ') {
                                    Some((n, p)) if n.parse::<usize>().is_ok() => (n.parse().unwrap(), p.to_string()),
                                    _ => (0, arg.clone()),
                                };
                                e.at.push((norm(&pat), nth, d == "before", t));
                            }
                            "rename" => e.renames.extend(arg.split_whitespace().map(String::from)),
                            "external" => e.external = true,
                            "loops" => e.loops_expected = Some(num()),
                            x => panic!("unknown directive @{x} in {key}"),
                        }
                    } else if !t.trim().is_empty() {
                        panic!("text without directive in fn {key}: {t}");
                    }
                }
                x => panic!("unknown section {x}"),
            }
        };
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("@@ ") {
                flush(&mut ov, &kind, &key, &sub, &mut buf);
                sub = None;
                let (k, r) = rest.trim().split_once(' ').unwrap_or((rest.trim(), ""));
                kind = k.to_string();
                key = r.trim().to_string();
                if kind == "drop" || kind == "pubfields" || kind == "noderive" {
                    flush(&mut ov, &kind, &key, &sub, &mut String::new());
                    kind = String::new();
                }
                if kind == "fn" {
                    if ov.fns.contains_key(&key) {
                        panic!("duplicate contract for {key}");
                    }
                    ov.fns.entry(key.clone()).or_default();
                }
            } else if kind == "fn" && line.starts_with('@') {
                flush(&mut ov, &kind, &key, &sub, &mut buf);
                let rest = &line[1..];
                let (d, a) = rest.split_once(' ').unwrap_or((rest, ""));
                if d == "ret" {
                    ov.fns.get_mut(&key).unwrap().ret = Some(a.trim().to_string());
                    sub = None;
                } else {
                    sub = Some((d.trim().to_string(), a.trim().to_string()));
                }
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        flush(&mut ov, &kind, &key, &sub, &mut buf);
    }
    ov
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// ------------------------------------------------------------------ cfg
/// what rustc sets on this host
fn host_cfg() -> &'static BTreeSet<String> {
    static C: std::sync::OnceLock<BTreeSet<String>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let o = std::process::Command::new("rustc").args(["--print", "cfg"]).output();
        let t = o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        let mut s: BTreeSet<String> = t.lines().map(|l| l.replace(' ', "")).collect();
        if s.is_empty() { s.extend(["unix", "target_pointer_width=\"64\"", "target_os=\"linux\"", "target_family=\"unix\"", "target_arch=\"x86_64\"", "target_endian=\"little\""].map(String::from)); }
        s
    })
}
/// conditions that differ between builds of the same source on this host: what depends on them is not settled by one text
static MODES: std::sync::Mutex<BTreeSet<String>> = std::sync::Mutex::new(BTreeSet::new());
fn modal(n: &str) -> bool { ["debug_assertions", "overflow_checks", "panic", "target_feature"].contains(&n) }
fn cfg_true(meta: &syn::Meta) -> bool {
    let name = meta.path().to_token_stream().to_string();
    if modal(&name) {
        MODES.lock().unwrap().insert(meta.to_token_stream().to_string());
    }
    match meta {
        syn::Meta::Path(p) if p.is_ident("debug_assertions") || p.is_ident("overflow_checks") => true,
        syn::Meta::Path(p) => host_cfg().contains(&p.to_token_stream().to_string()),
        syn::Meta::NameValue(nv) => {
            let v = nv.value.to_token_stream().to_string();
            nv.path.is_ident("feature") && v.contains("rand") || host_cfg().contains(&format!("{name}={v}"))
        }
        syn::Meta::List(l) => {
            let inner: syn::punctuated::Punctuated<syn::Meta, syn::Token![,]> = l.parse_args_with(syn::punctuated::Punctuated::parse_terminated).unwrap_or_default();
            let v: Vec<bool> = inner.iter().map(cfg_true).collect();
            if l.path.is_ident("not") {
                !v.iter().all(|x| *x)
            } else if l.path.is_ident("any") {
                v.iter().any(|x| *x)
            } else {
                v.iter().all(|x| *x)
            }
        }
    }
}
fn attrs_active(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("test") {
            return false;
        }
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<syn::Meta>() {
                return cfg_true(&m);
            }
        }
        true
    })
}

// ------------------------------------------------------------------ redirects (assumed dependency contracts)
const REDIRECTS: &[(&[&str], &str)] = &[
    (&["core", "u32", "MAX"], "u32::MAX"),
    (&["std", "fmt"], "crate::vxdeps::fmt"),
    (&["core", "fmt"], "crate::vxdeps::fmt"),
    (&["std", "hash"], "crate::vxdeps::hash"),
    (&["core", "hash"], "crate::vxdeps::hash"),
    (&["rustc_hash"], "crate::vxdeps::rustc_hash"),
    (&["itertools"], "crate::vxdeps::itertools"),
    (&["rand"], "crate::vxdeps::rand"),
];
/// the same in the bodies of exported macros
const MACRO_RENAMES: &[&str] = &["copied", "chain"];
const METHOD_RENAMES: &[&str] = &["fold", "count", "size_hint", "filter_map", "filter", "join", "copied", "chain"];
/// renamed where the number of arguments is that of the iterator's method
const METHOD_RENAMES_N: &[(&str, usize)] = &[("enumerate", 0), ("position", 1), ("max", 0), ("min", 0), ("nth", 1), ("step_by", 1), ("cloned", 0), ("max_by_key", 1), ("min_by_key", 1), ("reduce", 1), ("windows", 1)];
fn redirect(segs: &[String]) -> Option<(usize, String)> {
    for (from, to) in REDIRECTS {
        if segs.len() >= from.len() && from.iter().zip(segs).all(|(a, b)| a == b) {
            return Some((from.len(), to.to_string()));
        }
    }
    None
}
fn flatten_use(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten_use(&p.tree, pre, out);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        syn::UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((v, Some(r.rename.to_string())));
        }
        syn::UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                flatten_use(x, pre, out);
            }
        }
    }
}
fn render_use(vis: &str, u: &syn::ItemUse) -> String {
    let mut out = vec![];
    flatten_use(&u.tree, &mut vec![], &mut out);
    let mut s = String::new();
    for (segs, ren) in out {
        let p = match redirect(&segs) {
            Some((n, to)) => {
                let mut x = to;
                for y in &segs[n..] {
                    x.push_str("::");
                    x.push_str(y);
                }
                x
            }
            None => segs.join("::"),
        };
        let lead = if u.leading_colon.is_some() && !p.starts_with("crate") { "::" } else { "" };
        match ren {
            Some(r) => writeln!(s, "{vis}use {lead}{p} as {r};").unwrap(),
            None => writeln!(s, "{vis}use {lead}{p};").unwrap(),
        }
    }
    s
}

// ------------------------------------------------------------------ edits
struct Edits {
    e: Vec<(usize, usize, i32, String)>, // start, end, priority, text
}
impl Edits {
    fn rep(&mut self, s: usize, e: usize, t: impl Into<String>) {
        self.e.push((s, e, 0, t.into()));
    }
    fn ins(&mut self, s: usize, t: impl Into<String>) {
        self.e.push((s, s, 0, t.into()));
    }
    fn ins_pri(&mut self, s: usize, p: i32, t: impl Into<String>) {
        self.e.push((s, s, p, t.into()));
    }
    fn apply(mut self, src: &str, from: usize, to: usize) -> String {
        // replacements that contain others win; insertions at the same point keep priority order
        let idx: Vec<usize> = (0..self.e.len()).collect();
        let mut order = idx;
        order.sort_by_key(|&i| (self.e[i].0, self.e[i].1 > self.e[i].0, self.e[i].2, i));
        let mut out = String::new();
        let mut pos = from;
        for i in order {
            let (s, e, _, t) = std::mem::take(&mut self.e[i]);
            if s < pos {
                continue;
            }
            if s > to {
                break;
            }
            out.push_str(&src[pos..s]);
            out.push_str(&t);
            pos = e.max(s);
        }
        if pos < to {
            out.push_str(&src[pos..to]);
        }
        out
    }
}

fn r(s: Span) -> (usize, usize) {
    let b = s.byte_range();
    (b.start, b.end)
}

struct FnInfo {
    path: String,
    file: String,
    lines: (usize, usize),
    contract: bool,
    lost: Vec<String>,
    calls: BTreeSet<String>,
    loops: usize,
    closures: usize,
    rewrites: Vec<String>,
    external: bool,
    /// the function's tokens, without comments and attributes
    tokens: String,
}

struct Ctx<'a> {
    ov: &'a Overlay,
    external: BTreeSet<String>,
    fns: Vec<FnInfo>,
    derives: Vec<String>, // records
    macros: String,       // macro_rules text
    dropped: Vec<String>,
    tests_on: bool,
    /// the calls replaced by the bodies of functions without a contract: caller -> those functions
    took: BTreeMap<String, BTreeSet<String>>,
    known: alpha::Names,
    fnames: BTreeMap<String, String>,
    renamed: BTreeMap<String, BTreeSet<String>>,
    inlined: BTreeSet<String>,
}

// body visitor
struct Body<'a> {
    src: &'a str,
    ed: &'a mut Edits,
    ov: Option<&'a FnOv>,
    loops: usize,
    closures: usize,
    lost: Vec<String>,
    calls: BTreeSet<String>,
    at_count: HashMap<String, usize>,
    at_hit: BTreeSet<usize>,
    rewrites: BTreeSet<String>,
    depth_stmt: usize,
    tmp: usize,
}

/// the last two segments of a path used as a value
fn call_name(p: &syn::Path) -> String {
    let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    v[v.len().saturating_sub(2)..].join("::")
}
impl<'a> Body<'a> {
    fn text(&self, s: Span) -> &'a str {
        let (a, b) = r(s);
        &self.src[a..b]
    }
    /// Desugar a pattern into (simple name, lets)
    fn simple_pat(&mut self, p: &syn::Pat) -> Option<(String, String)> {
        // returns Some((param text, let statements)) if it needs desugaring
        match p {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => None,
            syn::Pat::Wild(_) => None,
            syn::Pat::Type(t) => {
                let (n, l) = self.simple_pat(&t.pat)?;
                Some((format!("{n}: {}", self.text(t.ty.span())), l))
            }
            _ => {
                self.tmp += 1;
                let n = format!("vx_p{}", self.tmp);
                let mut lets = String::new();
                if self.destruct(p, &n, &mut lets) {
                    self.rewrites.insert("pattern-desugar".into());
                    Some((n, lets))
                } else {
                    None
                }
            }
        }
    }
    fn destruct(&mut self, p: &syn::Pat, place: &str, out: &mut String) -> bool {
        match p {
            syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                let m = if i.mutability.is_some() { "mut " } else { "" };
                write!(out, "let {m}{} = {place}; ", i.ident).unwrap();
                true
            }
            syn::Pat::Wild(_) => true,
            syn::Pat::Reference(rf) => self.destruct(&rf.pat, &format!("(*{place})"), out),
            syn::Pat::Paren(q) => self.destruct(&q.pat, place, out),
            syn::Pat::Tuple(t) => t.elems.iter().enumerate().all(|(i, q)| self.destruct(q, &format!("{place}.{i}"), out)),
            syn::Pat::Slice(t) => t.elems.iter().enumerate().all(|(i, q)| !matches!(q, syn::Pat::Rest(_)) && self.destruct(q, &format!("{place}[{i}]"), out)),
            syn::Pat::Type(t) => self.destruct(&t.pat, place, out),
            _ => false,
        }
    }
    fn loop_common(&mut self, body: &syn::Block, whole: Span, n: usize, prelude: &str) {
        let (bs, be) = r(body.span());
        let mut start = String::new();
        start.push_str(prelude);
        if let Some(ov) = self.ov {
            if let Some(inv) = ov.loop_inv.get(&n) {
                self.ed.ins(bs, format!("\n{inv}"));
            }
            if let Some(t) = ov.loop_start.get(&n) {
                start.push_str(&format!("\n{t}"));
            }
            if let Some(t) = ov.loop_end.get(&n) {
                self.ed.ins_pri(be - 1, 5, format!("\n{t}"));
            }
            if let Some(t) = ov.loop_before.get(&n) {
                self.ed.ins_pri(r(whole).0, -5, format!("\n{t}"));
            }
            if let Some(t) = ov.loop_after.get(&n) {
                self.ed.ins_pri(r(whole).1, -4, format!("\n{t}"));
            }
        }
        if !start.is_empty() {
            self.ed.ins_pri(bs + 1, -3, format!(" {start}"));
        }
    }
    fn macro_args(&mut self, m: &syn::Macro) -> Option<Vec<syn::Expr>> {
        m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
    }
    fn do_macro(&mut self, m: &syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (ms, me) = r(m.span());
        match name.as_str() {
            "write" | "writeln" => {
                let Some(args) = self.macro_args(m) else { return };
                if args.len() < 2 {
                    return;
                }
                let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(ls), .. }) = &args[1] else { return };
                let mut fmt = ls.value();
                if name == "writeln" {
                    fmt.push('\n');
                }
                // split the literal at the `{}` placeholders
                let mut pieces: Vec<String> = vec![String::new()];
                let mut holes: Vec<Option<String>> = vec![];
                let cs: Vec<char> = fmt.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                        pieces.last_mut().unwrap().push('{');
                        i += 2;
                    } else if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                        pieces.last_mut().unwrap().push('}');
                        i += 2;
                    } else if cs[i] == '{' {
                        let mut j = i + 1;
                        let mut inner = String::new();
                        while j < cs.len() && cs[j] != '}' {
                            inner.push(cs[j]);
                            j += 1;
                        }
                        if inner.contains(':') {
                            self.lost.push("write!-with-format-spec".into());
                            return;
                        }
                        holes.push(if inner.is_empty() { None } else { Some(inner) });
                        pieces.push(String::new());
                        i = j + 1;
                    } else {
                        pieces.last_mut().unwrap().push(cs[i]);
                        i += 1;
                    }
                }
                self.rewrites.insert("write!".into());
                let n = holes.len();
                let mut parts: Vec<String> = vec![];
                let fmt_arg = self.text(args[0].span()).to_string();
                let mut next = 2;
                parts.push(fmt_arg);
                for k in 0..=n {
                    parts.push(format!("{:?}", pieces[k]).replace("\\'", "'"));
                    if k < n {
                        let a = match &holes[k] {
                            None => {
                                if next >= args.len() {
                                    return;
                                }
                                let t = self.render_expr(&args[next]);
                                next += 1;
                                t
                            }
                            Some(x) => match x.parse::<usize>() {
                                Ok(ix) if ix + 2 < args.len() => self.render_expr(&args[ix + 2]),
                                Ok(_) => return,
                                Err(_) => {
                                    // named: look for `name = expr`, else captured identifier
                                    let mut found = x.clone();
                                    for a in &args[2..] {
                                        if let syn::Expr::Assign(asg) = a {
                                            if asg.left.to_token_stream().to_string() == *x {
                                                found = self.render_expr(&asg.right);
                                            }
                                        }
                                    }
                                    found
                                }
                            },
                        };
                        parts.push(format!("&({a})"));
                    }
                }
                for a in &args[2..] {
                    self.collect_calls(a);
                }
                self.ed.rep(ms, me, format!("crate::vxdeps::fmt::write{}({})", n, parts.join(", ")));
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                self.rewrites.insert(format!("{name}!"));
                self.ed.rep(ms, me, "crate::vxdeps::rt_panic()");
            }
            "cfg" => {
                if let Ok(c) = m.parse_body::<syn::Meta>() {
                    let text = c.to_token_stream().to_string();
                    let v = if ["debug_assertions", "overflow_checks", "panic", "target_feature"].iter().any(|x| text.contains(x)) { "crate::vxdeps::rt_debug()".to_string() } else { cfg_true(&c).to_string() };
                    self.rewrites.insert("cfg!".into());
                    self.ed.rep(ms, me, v);
                }
            }
            "assert" | "debug_assert" => {
                if let Some(args) = self.macro_args(m) {
                    if !args.is_empty() {
                        self.rewrites.insert(format!("{name}!"));
                        let t = self.render_expr(&args[0]);
                        self.ed.rep(ms, me, format!("{}crate::vxdeps::rt_assert({t}){}", if name.starts_with("debug") { "if crate::vxdeps::rt_debug() { " } else { "" }, if name.starts_with("debug") { " }" } else { "" }));
                    }
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if let Some(args) = self.macro_args(m) {
                    if args.len() >= 2 {
                        self.rewrites.insert(format!("{name}!"));
                        let a = self.render_expr(&args[0]);
                        let b = self.render_expr(&args[1]);
                        let op = if name.contains("eq") { "==" } else { "!=" };
                        self.ed.rep(ms, me, format!("{}crate::vxdeps::rt_assert({a} {op} {b}){}", if name.starts_with("debug") { "if crate::vxdeps::rt_debug() { " } else { "" }, if name.starts_with("debug") { " }" } else { "" }));
                    }
                }
            }
            _ => {
                if let Some(args) = self.macro_args(m) {
                    for a in &args {
                        self.collect_calls(a);
                    }
                }
            }
        }
    }
    fn collect_calls(&mut self, e: &syn::Expr) {
        struct C<'b>(&'b mut BTreeSet<String>);
        impl<'b, 'c> Visit<'c> for C<'b> {
            fn visit_expr_call(&mut self, i: &'c syn::ExprCall) {
                visit::visit_expr_call(self, i);
            }
            fn visit_expr_method_call(&mut self, i: &'c syn::ExprMethodCall) {
                self.0.insert(format!(".{}", i.method));
                visit::visit_expr_method_call(self, i);
            }
            fn visit_expr_path(&mut self, i: &'c syn::ExprPath) {
                self.0.insert(call_name(&i.path));
                visit::visit_expr_path(self, i);
            }
        }
        C(&mut self.calls).visit_expr(e);
    }
    /// render an expression with its own nested edits applied
    fn render_expr(&mut self, e: &syn::Expr) -> String {
        let (s, t) = r(e.span());
        let mut ed = Edits { e: vec![] };
        {
            let mut sub = Body { src: self.src, ed: &mut ed, ov: self.ov, loops: self.loops, closures: self.closures, lost: vec![], calls: BTreeSet::new(), at_count: HashMap::new(), at_hit: BTreeSet::new(), rewrites: BTreeSet::new(), depth_stmt: 0, tmp: self.tmp + 100 };
            sub.visit_expr(e);
            self.loops = sub.loops;
            self.closures = sub.closures;
            let (l, c, rw) = (std::mem::take(&mut sub.lost), std::mem::take(&mut sub.calls), std::mem::take(&mut sub.rewrites));
            self.lost.extend(l);
            self.calls.extend(c);
            self.rewrites.extend(rw);
        }
        ed.apply(self.src, s, t)
    }
    fn handle_at(&mut self, span: Span) {
        let Some(ov) = self.ov else { return };
        if ov.at.is_empty() {
            return;
        }
        let t = norm(self.text(span));
        let (s, e) = r(span);
        let mut bumped: BTreeSet<String> = BTreeSet::new();
        for (k, (pat, nth, before, text)) in ov.at.iter().enumerate() {
            if t.starts_with(pat.as_str()) {
                let c = *self.at_count.get(pat).unwrap_or(&0);
                if c == *nth {
                    self.at_hit.insert(k);
                    if *before {
                        self.ed.ins_pri(s, -6, format!("\n{text}"));
                    } else {
                        self.ed.ins_pri(e, -4, format!("\n{text}"));
                    }
                }
                bumped.insert(pat.clone());
            }
        }
        for p in bumped {
            *self.at_count.entry(p).or_insert(0) += 1;
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Body<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Local(l) = s {
            if !attrs_active(&l.attrs) {
                let (a, b) = r(s.span());
                self.ed.rep(a, b, "");
                return;
            }
        }
        self.handle_at(s.span());
        if let syn::Stmt::Item(syn::Item::Use(u)) = s {
            let (a, b) = r(u.span());
            self.ed.rep(a, b, render_use("", u));
            return;
        }
        if let syn::Stmt::Macro(m) = s {
            self.do_macro(&m.mac);
            return;
        }
        if let syn::Stmt::Local(l) = s {
            // `let &x = e` / `let [a, b] = e`
            let needs = match &l.pat {
                syn::Pat::Reference(_) | syn::Pat::Slice(_) => true,
                _ => false,
            };
            if needs && l.init.as_ref().map_or(false, |i| i.diverge.is_none()) {
                if let Some((n, lets)) = self.simple_pat(&l.pat) {
                    let (a, b) = r(l.pat.span());
                    self.ed.rep(a, b, n);
                    self.ed.ins_pri(r(l.span()).1, -5, format!(" {lets}"));
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let n = self.loops;
        self.loops += 1;
        let mut prelude = String::new();
        if let Some((nm, lets)) = self.simple_pat(&f.pat) {
            let (a, b) = r(f.pat.span());
            self.ed.rep(a, b, nm);
            prelude = lets;
        }
        if let Some(it) = self.ov.and_then(|o| o.loop_it.get(&n)) {
            if let Some(it) = it.strip_suffix(" arr") {
                // iteration over an array by value: through a wrapper that has a contract
                let (a, b) = r(f.expr.span());
                self.ed.ins_pri(a, -9, format!("{it}: crate::vxstd2::arr("));
                self.ed.ins_pri(b, 9, ")");
                self.rewrites.insert("array-iteration".into());
            } else {
                self.ed.ins(r(f.expr.span()).0, format!("{it}: "));
            }
        }
        self.loop_common(&f.body, f.span(), n, &prelude);
        self.visit_expr(&f.expr);
        self.visit_block(&f.body);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        let n = self.loops;
        self.loops += 1;
        self.loop_common(&f.body, f.span(), n, "");
        visit::visit_expr_while(self, f);
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        let n = self.loops;
        self.loops += 1;
        self.loop_common(&f.body, f.span(), n, "");
        visit::visit_expr_loop(self, f);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        let mut lets = String::new();
        let hdr = self.ov.and_then(|o| o.closures.get(&n)).cloned();
        let (bs, be) = r(c.body.span());
        let o1 = r(c.or1_token.span()).0;
        if let Some(h) = hdr {
            // positional parameter names come from the overlay header
            let names: Vec<String> = {
                let inner = h.header.trim_start_matches("wrap ").trim_start_matches('|');
                let inner = inner.split('|').next().unwrap_or("");
                split_top(inner).into_iter().map(|p| p.split(':').next().unwrap_or("").trim().to_string()).collect()
            };
            if names.len() != c.inputs.len() {
                self.lost.push(format!("closure {n} arity"));
                visit::visit_expr_closure(self, c);
                return;
            }
            for (nm, p) in names.iter().zip(&c.inputs) {
                let p = if let syn::Pat::Type(t) = p { &*t.pat } else { p };
                match p {
                    syn::Pat::Ident(i) if i.ident == nm.as_str() => {}
                    syn::Pat::Wild(_) => {}
                    _ => {
                        if !self.destruct(p, nm, &mut lets) {
                            self.lost.push(format!("closure {n} pattern"));
                        }
                    }
                }
            }
            let mv = if c.capture.is_some() { "move " } else { "" };
            self.ed.rep(o1, r(c.or2_token.span()).1, format!("{}{} {}", if h.header.starts_with("wrap ") { "crate::vxstd2::vx_closure(" } else { "" }, h.header.trim_start_matches("wrap "), if h.spec.trim().is_empty() { "".into() } else { format!("\n{}", h.spec) }));
            let _ = mv;
            self.ed.ins_pri(bs, -8, format!("{{ {lets}"));
            self.ed.ins_pri(be, 8, if h.header.starts_with("wrap ") { " })" } else { " }" });
            self.rewrites.insert("closure-spec".into());
        } else {
            let mut any = false;
            for p in &c.inputs {
                if let Some((nm, l)) = self.simple_pat(p) {
                    let (a, b) = r(p.span());
                    self.ed.rep(a, b, nm);
                    lets.push_str(&l);
                    any = true;
                }
            }
            if any {
                self.ed.ins_pri(bs, -8, format!("{{ {lets}"));
                self.ed.ins_pri(be, 8, " }");
            }
        }
        self.visit_expr(&c.body);
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if let syn::Expr::Reference(rf) = &*i.index {
            let (s, _e) = r(i.span());
            let es = r(i.expr.span()).1;
            let is = r(i.index.span());
            self.ed.ins_pri(s, -7, "(*(");
            self.ed.rep(es, is.0, ").vx_index(");
            self.ed.rep(is.1, r(i.span()).1, "))");
            self.rewrites.insert("map-index".into());
            self.visit_expr(&i.expr);
            self.visit_expr(&rf.expr);
            return;
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.do_macro(&m.mac);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        self.path_redirect(&p.path);
        self.calls.insert(call_name(&p.path));
        visit::visit_expr_path(self, p);
    }
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        self.path_redirect(&p.path);
        visit::visit_type_path(self, p);
    }
    fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
        trait_bound(self.src, self.ed, b);
        if b.lifetimes.is_none() {
            self.path_redirect(&b.path);
            visit::visit_trait_bound(self, b);
        }
    }
    fn visit_expr_call(&mut self, i: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, i);
    }
    fn visit_expr_method_call(&mut self, i: &'ast syn::ExprMethodCall) {
        let m = i.method.to_string();
        if METHOD_RENAMES.contains(&m.as_str()) || METHOD_RENAMES_N.contains(&(m.as_str(), i.args.len())) || self.ov.map_or(false, |o| o.renames.contains(&m)) {
            let (a, b) = r(i.method.span());
            self.ed.rep(a, b, format!("vx_{m}"));
            self.rewrites.insert(format!("method-rename {m}"));
        }
        self.calls.insert(format!(".{m}"));
        visit::visit_expr_method_call(self, i);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = r(a.span());
        self.ed.rep(s, e, "");
    }
}
impl<'a> Body<'a> {
    fn path_redirect(&mut self, p: &syn::Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some((n, to)) = redirect(&segs) {
            if segs.len() >= n {
                let s = r(p.span()).0;
                let e = r(p.segments[n - 1].ident.span()).1;
                self.ed.rep(s, e, to);
            }
        }
    }
}
fn trait_bound(src: &str, ed: &mut Edits, b: &syn::TraitBound) {
    if b.lifetimes.is_some() && b.path.segments.last().map_or(false, |s| s.ident == "Index") {
        let (s, e) = r(b.span());
        let txt = &src[s..e];
        let out = txt.split("Output").nth(1).map(|x| x.trim_start().trim_start_matches('=').trim().trim_end_matches('>').trim().to_string()).unwrap_or_default();
        ed.rep(s, e, format!("crate::vxdeps::MapIndex<{out}>"));
    }
}
/// the string literals of a body, and the pieces of the ones that are format strings
fn literals(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => literals(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                if let syn::Lit::Str(s) = syn::Lit::new(l) {
                    let v = s.value();
                    let mut cur = String::new();
                    let mut cs = v.chars().peekable();
                    while let Some(c) = cs.next() {
                        match c {
                            '{' | '}' if cs.peek() == Some(&c) => {
                                cs.next();
                                cur.push(c);
                            }
                            '{' => {
                                for c in cs.by_ref() {
                                    if c == '}' {
                                        break;
                                    }
                                }
                                out.insert(std::mem::take(&mut cur));
                            }
                            c => cur.push(c),
                        }
                    }
                    out.insert(cur);
                    out.insert(v);
                }
            }
            _ => {}
        }
    }
}
fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out
}

// ------------------------------------------------------------------ items
struct FileCx<'a, 'b> {
    cx: &'a mut Ctx<'b>,
    src: &'a str,
    file: String,
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => norm(&t.to_token_stream().to_string()),
    }
}

impl<'a, 'b> FileCx<'a, 'b> {
    fn func(&mut self, path: &str, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>, span: Span, is_trait_item: bool, in_ext_impl: bool) -> String {
        let ov = self.cx.ov.fns.get(path);
        let (fs, fe) = r(span);
        let mut ed = Edits { e: vec![] };
        let sig_start = r(sig.span()).0;
        // everything before the signature (attributes, visibility) is re-rendered
        let mut head = String::new();
        let external = ov.map_or(false, |o| o.external) || self.cx.external.contains(path) || in_ext_impl || self.cx.inlined.contains(path);
        if external && block.is_some() {
            head.push_str("#[verifier::external_body] ");
        }
        if let Some(o) = ov {
            head.push_str(o.attrs.trim());
            if !o.attrs.trim().is_empty() {
                head.push('\n');
            }
        }
        let _ = attrs;
        if vis.is_some() {
            head.push_str("pub ");
        }
        ed.rep(fs, sig_start, head);
        // return name + spec
        let sig_end_for_spec = block.map(|b| r(b.span()).0).unwrap_or(fe - 1);
        if let Some(o) = ov {
            if let (Some(n), syn::ReturnType::Type(_, ty)) = (&o.ret, &sig.output) {
                let (a, b) = r(ty.span());
                ed.ins_pri(a, -9, format!("({n}: "));
                ed.ins_pri(b, 9, ")");
            }
            if !o.spec.trim().is_empty() {
                ed.ins_pri(sig_end_for_spec, 20, format!("\n{}\n", o.spec));
            }
        }
        let mut body = Body { src: self.src, ed: &mut ed, ov, loops: 0, closures: 0, lost: vec![], calls: BTreeSet::new(), at_count: HashMap::new(), at_hit: BTreeSet::new(), rewrites: BTreeSet::new(), depth_stmt: 0, tmp: 0 };
        body.visit_signature(sig);
        if let Some(b) = block {
            let (bs, be) = r(b.span());
            if external {
                body.ov = None;
                if norm(&sig.output.to_token_stream().to_string()).contains("implIterator") {
                    body.visit_block(b);
                } else {
                    body.ed.rep(bs, be, "{ unimplemented!() }");
                }
            } else {
                body.visit_block(b);
                // what vstd says of std's own types, known here too (contracts/03_ready.vc)
                body.ed.ins_pri(bs + 1, -8, "\nproof { crate::vxready::ready(); }".to_string());
                if sig.ident == "fmt" {
                    // the characters of the literals, for texts put together differently
                    let mut lits = BTreeSet::new();
                    literals(b.to_token_stream(), &mut lits);
                    if !lits.is_empty() {
                        let reveals: String = lits.iter().map(|l| format!("reveal_strlit({}); ", format!("{l:?}").replace("\\'", "'"))).collect();
                        body.ed.ins_pri(bs + 1, -10, format!("\nproof {{ {reveals}}}"));
                    }
                }
            }
            if let (Some(o), false) = (ov, external) {
                if !o.start.is_empty() {
                    body.ed.ins_pri(bs + 1, -9, format!("\n{}", o.start));
                }
                let tail_expr = match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => Some(r(e.span())),
                    Some(syn::Stmt::Macro(m)) if m.semi_token.is_none() => Some(r(m.span())),
                    _ => None,
                };
                if !o.end.is_empty() {
                    let pos = tail_expr.map(|x| x.0).unwrap_or(be - 1);
                    body.ed.ins_pri(pos, -5, format!("\n{}\n", o.end));
                }
                if std::env::var("VX_VACUITY").is_ok() {
                    // every one of these must fail: what the contracts assume does not contradict itself
                    let pos = tail_expr.map(|x| x.0).unwrap_or(be - 1);
                    body.ed.ins_pri(pos, -4, "\nproof { assert(false); }\n".to_string());
                }
                if let Some(t) = &o.tail {
                    match tail_expr {
                        Some((a, z)) => {
                            body.ed.ins_pri(a, -4, "let vx_r = ");
                            body.ed.ins_pri(z, 9, format!(";\n{t}\nvx_r"));
                        }
                        None => body.ed.ins_pri(be - 1, 9, format!("\n{t}\n")),
                    }
                }
                for (k, a) in o.at.iter().enumerate() {
                    if !body.at_hit.contains(&k) {
                        body.lost.push(format!("statement anchor `{}` #{}", a.0, a.1));
                    }
                }
                let maxl = o.loop_inv.keys().chain(o.loop_start.keys()).chain(o.loop_end.keys()).max().map(|x| x + 1).unwrap_or(0);
                let want = o.loops_expected.unwrap_or(maxl);
                if want != body.loops {
                    body.lost.push(format!("{} loops expected, {} found", want, body.loops));
                }
                let maxc = o.closures.keys().max().map(|x| x + 1).unwrap_or(0);
                if maxc != body.closures {
                    body.lost.push(format!("{} closures expected, {} found", maxc, body.closures));
                }
            }
        }
        let (loops, closures, lost, calls, mut rewrites) = (body.loops, body.closures, body.lost, body.calls, body.rewrites);
        rewrites.extend(self.cx.renamed.get(path).into_iter().flatten().map(|h| format!("renamed-{h}")));
        rewrites.extend(self.cx.took.get(path).into_iter().flatten().map(|h| format!("call-of-{h}-replaced-by-its-body")));
        let text = ed.apply(self.src, fs, fe);
        let l0 = self.src[..fs].matches('\n').count() + 1;
        let l1 = self.src[..fe].matches('\n').count() + 1;
        self.cx.fns.push(FnInfo { path: path.to_string(), file: self.file.clone(), lines: (l0, l1), contract: ov.is_some(), lost, calls, loops, closures, rewrites: rewrites.into_iter().collect(), external: external && block.is_some(), tokens: format!("{} {}", sig.to_token_stream(), block.map(|b| b.to_token_stream().to_string()).unwrap_or_default()) });
        let _ = is_trait_item;
        format!("\n//<vx:fn {path}>\n{text}\n//</vx:fn>\n")
    }

    fn items(&mut self, items: &[syn::Item], modpath: &str, dir: &Path) -> String {
        let mut out = String::new();
        let q = |n: &str| if modpath.is_empty() { n.to_string() } else { format!("{modpath}::{n}") };
        for (nth, it) in items.iter().enumerate() {
            let attrs: &[syn::Attribute] = match it {
                syn::Item::Fn(x) => &x.attrs,
                syn::Item::Struct(x) => &x.attrs,
                syn::Item::Enum(x) => &x.attrs,
                syn::Item::Impl(x) => &x.attrs,
                syn::Item::Trait(x) => &x.attrs,
                syn::Item::Const(x) => &x.attrs,
                syn::Item::Static(x) => &x.attrs,
                syn::Item::Mod(x) => &x.attrs,
                syn::Item::Use(x) => &x.attrs,
                syn::Item::Type(x) => &x.attrs,
                syn::Item::Macro(x) => &x.attrs,
                _ => &[],
            };
            if !attrs_active(attrs) {
                continue;
            }
            // an item the verifier does not take (the driver names it) is left out, a type is left opaque
            let key = format!("item {modpath}#{nth}");
            let opaque = self.cx.external.contains(&key);
            if self.cx.external.contains(&format!("{key}!")) || opaque && !matches!(it, syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Mod(_)) {
                self.cx.dropped.push(key);
                continue;
            }
            let marked = !matches!(it, syn::Item::Mod(_));
            if marked {
                write!(out, "\n//<vx:item {key}>\n").unwrap();
            }
            match it {
                syn::Item::Struct(s) if opaque => {
                    let (a, b) = (r(s.struct_token.span()).0, r(s.span()).1);
                    write!(out, "#[verifier::external_body]\npub {}\n", &self.src[a..b]).unwrap();
                }
                syn::Item::Enum(s) if opaque => {
                    let (a, b) = (r(s.enum_token.span()).0, r(s.span()).1);
                    write!(out, "#[verifier::external_body]\npub {}\n", &self.src[a..b]).unwrap();
                }
                syn::Item::Use(u) => {
                    let vis = if matches!(u.vis, syn::Visibility::Inherited) { "" } else { "pub " };
                    out.push_str(&render_use(vis, u));
                }
                syn::Item::Mod(m) => {
                    let name = m.ident.to_string();
                    let p = q(&name);
                    if self.cx.ov.drops.contains(&p) {
                        self.cx.dropped.push(p);
                        continue;
                    }
                    let inner = if let Some((_, its)) = &m.content {
                        self.items(its, &p, &dir.join(&name))
                    } else {
                        let f1 = dir.join(format!("{name}.rs"));
                        let f2 = dir.join(&name).join("mod.rs");
                        let f = if f1.exists() { f1 } else { f2 };
                        extract_file(self.cx, &f, &p, &dir.join(&name))
                    };
                    let app = self.cx.ov.mods.get(&p).cloned().unwrap_or_default();
                    out.push_str(&module(&name, &p, &app, &inner));
                }
                syn::Item::Fn(f) => {
                    let p = q(&f.sig.ident.to_string());
                    if self.cx.ov.drops.contains(&p) {
                        self.cx.dropped.push(p);
                        out.push_str("//</vx:item>\n");
                        continue;
                    }
                    out.push_str(&self.func(&p, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), f.span(), false, false));
                }
                syn::Item::Const(c) => {
                    let p = q(&c.ident.to_string());
                    out.push_str(&self.konst(&p, Some(&c.vis), &c.ident.to_string(), &c.ty, &c.expr));
                }
                syn::Item::Static(c) => {
                    let (a, b) = r(c.span());
                    out.push_str(&self.src[a..b]);
                }
                syn::Item::Struct(s) => {
                    let p = q(&s.ident.to_string());
                    let der = derives(&s.attrs);
                    out.push_str(&self.derived_struct(&p, s, &der));
                }
                syn::Item::Enum(e) => {
                    let p = q(&e.ident.to_string());
                    let der = derives(&e.attrs);
                    out.push_str(&self.derived_enum(&p, e, &der));
                }
                syn::Item::Type(t) => {
                    let (a, b) = r(t.span());
                    let sa = r(t.type_token.span()).0;
                    let _ = a;
                    writeln!(out, "pub {}", &self.src[sa..b]).unwrap();
                }
                syn::Item::Trait(t) => {
                    let p = q(&t.ident.to_string());
                    let (_, te) = r(t.span());
                    let open = r(t.brace_token.span.open()).1;
                    let ts = r(t.trait_token.span()).0;
                    let mut hed = Edits { e: vec![] };
                    for b in &t.supertraits {
                        if let syn::TypeParamBound::Trait(b) = b {
                            trait_bound(self.src, &mut hed, b);
                        }
                    }
                    write!(out, "\n//<vx:ov trait {p}>\n{}pub {}", self.cx.ov.items.get(&p).cloned().unwrap_or_default(), hed.apply(self.src, ts, open)).unwrap();
                    out.push_str(&self.cx.ov.traits.get(&p).cloned().unwrap_or_default());
                    for ti in &t.items {
                        match ti {
                            syn::TraitItem::Fn(f) => {
                                let fp = format!("{p}::{}", f.sig.ident);
                                out.push_str(&self.func(&fp, &f.attrs, None, &f.sig, f.default.as_ref(), f.span(), true, false));
                            }
                            other => {
                                let (a, b) = r(other.span());
                                let mut e = Edits { e: vec![] };
                                if let syn::TraitItem::Type(ty) = other {
                                    for b in &ty.bounds {
                                        if let syn::TypeParamBound::Trait(b) = b {
                                            trait_bound(self.src, &mut e, b);
                                        }
                                    }
                                    for at in &ty.attrs {
                                        let (x, y) = r(at.span());
                                        e.rep(x, y, "");
                                    }
                                }
                                writeln!(out, "{}", e.apply(self.src, a, b)).unwrap();
                            }
                        }
                    }
                    let _ = te;
                    out.push_str("}\n//</vx:ov>\n");
                }
                syn::Item::Impl(im) => out.push_str(&self.implb(im, modpath)),
                syn::Item::Macro(m) => {
                    if m.mac.path.is_ident("macro_rules") {
                        let (a, b) = r(m.mac.span());
                        let s0 = &self.src[a..b];
                        let _ = s0;
                        let (ia, ib) = r(m.span());
                        let name = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                        let from = self.src[ia..ib].rfind("macro_rules!").map(|k| ia + k).unwrap_or(ia);
                        // the outermost occurrence (docs never contain it after the attribute)
                        let mut t = self.src[from..ib].to_string();
                        if let Some(k) = self.src[ia..ib].find("\nmacro_rules!") {
                            t = self.src[ia + k + 1..ib].to_string();
                        }
                        let _ = name;
                        for m in MACRO_RENAMES {
                            t = t.replace(&format!(".{m}("), &format!(".vx_{m}("));
                        }
                        write!(self.cx.macros, "#[macro_export]\n{t}\n").unwrap();
                    }
                }
                syn::Item::ExternCrate(_) => {}
                other => {
                    let (a, b) = r(other.span());
                    writeln!(out, "{}", &self.src[a..b]).unwrap();
                }
            }
            if marked {
                out.push_str("\n//</vx:item>\n");
            }
        }
        out
    }

    fn konst(&mut self, p: &str, vis: Option<&syn::Visibility>, name: &str, ty: &syn::Type, expr: &syn::Expr) -> String {
        let (ta, tb) = r(ty.span());
        let (ea, eb) = r(expr.span());
        let mut tys = self.src[ta..tb].to_string();
        if let syn::Type::Reference(rf) = ty {
            if rf.lifetime.is_none() {
                tys = tys.replacen('&', "&'static ", 1);
            }
        }
        let v = if vis.is_some() { "pub " } else { "" };
        let val = &self.src[ea..eb];
        match self.cx.ov.consts.get(p) {
            Some(spec) if spec.trim() == "@open" => format!("\n{v}const {name}: {tys} = {val};\n"),
            Some(spec) => format!("\n//<vx:fn {p}>\n{v}exec const {name}: {tys}\n{spec}\n{{ {val} }}\n//</vx:fn>\n"),
            None if tys.starts_with("&'static [") => format!("\n{v}exec const {name}: {tys} {{ {val} }}\n"),
            None => format!("\n{v}const {name}: {tys} = {val};\n"),
        }
    }

    fn implb(&mut self, im: &syn::ItemImpl, modpath: &str) -> String {
        let mut out = String::new();
        let ty = type_name(&im.self_ty);
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let base = match &tr {
            Some(t) => format!("<{ty} as {t}>"),
            None => ty.clone(),
        };
        let pq = if modpath.is_empty() { base.clone() } else { format!("{modpath}::{base}") };
        if self.cx.ov.drops.contains(&pq) || self.cx.ov.drops.contains(&format!("*::<{ty} as {}>", tr.clone().unwrap_or_default())) || self.cx.ov.drops.contains(&format!("trait {}", tr.clone().unwrap_or_default())) {
            self.cx.dropped.push(pq);
            return out;
        }
        let ext_impl = self.cx.ov.items.get(&pq).map_or(false, |s| s.contains("#[verifier::external]"));
        let is = r(im.impl_token.span()).0;
        let open = r(im.brace_token.span.open()).1;
        let mut ed = Edits { e: vec![] };
        {
            let mut b = Body { src: self.src, ed: &mut ed, ov: None, loops: 0, closures: 0, lost: vec![], calls: BTreeSet::new(), at_count: HashMap::new(), at_hit: BTreeSet::new(), rewrites: BTreeSet::new(), depth_stmt: 0, tmp: 0 };
            b.visit_generics(&im.generics);
            if let Some((_, p, _)) = &im.trait_ {
                b.path_redirect(p);
            }
        }
        write!(out, "\n{}", self.cx.ov.items.get(&pq).cloned().unwrap_or_default()).unwrap();
        out.push_str(&ed.apply(self.src, is, open));
        write!(out, "\n//<vx:ov {pq}>\n{}\n//</vx:ov>\n", self.cx.ov.impls.get(&pq).cloned().unwrap_or_default()).unwrap();
        for ii in &im.items {
            match ii {
                syn::ImplItem::Fn(f) => {
                    if !attrs_active(&f.attrs) {
                        continue;
                    }
                    let fp = format!("{pq}::{}", f.sig.ident);
                    if self.cx.ov.drops.contains(&fp) {
                        self.cx.dropped.push(fp);
                        continue;
                    }
                    let vis = if tr.is_some() { None } else { Some(&f.vis) };
                    out.push_str(&self.func(&fp, &f.attrs, vis, &f.sig, Some(&f.block), f.span(), false, ext_impl));
                }
                syn::ImplItem::Const(c) => {
                    if !attrs_active(&c.attrs) {
                        continue;
                    }
                    let fp = format!("{pq}::{}", c.ident);
                    let vis = if tr.is_some() { None } else { Some(&c.vis) };
                    out.push_str(&self.konst(&fp, vis, &c.ident.to_string(), &c.ty, &c.expr));
                }
                other => {
                    let (a, b) = r(other.span());
                    writeln!(out, "{}", &self.src[a..b]).unwrap();
                }
            }
        }
        out.push_str("}\n");
        out
    }

    fn fields_text(&mut self, p: &str, f: &syn::Fields) -> String {
        // keep text, make pub(crate)/pub(super) fields pub; drop attributes
        let allpub = self.cx.ov.pubfields.contains(p);
        let one = |s: &Self, x: &syn::Field| {
            let (ta, tb) = r(x.ty.span());
            let v = match &x.vis {
                syn::Visibility::Inherited if !allpub => "",
                _ => "pub ",
            };
            match &x.ident {
                Some(i) => format!("{v}{i}: {}", &s.src[ta..tb]),
                None => format!("{v}{}", &s.src[ta..tb]),
            }
        };
        match f {
            syn::Fields::Named(n) => format!("{{ {} }}", n.named.iter().map(|x| one(self, x)).collect::<Vec<_>>().join(", ")),
            syn::Fields::Unnamed(n) => format!("({})", n.unnamed.iter().map(|x| one(self, x)).collect::<Vec<_>>().join(", ")),
            syn::Fields::Unit => String::new(),
        }
    }

    fn generics(&self, g: &syn::Generics) -> (String, String) {
        let decl = if g.params.is_empty() { String::new() } else { g.to_token_stream().to_string() };
        let (_, tyg, _) = g.split_for_impl();
        (decl, tyg.to_token_stream().to_string())
    }

    fn derived_struct(&mut self, p: &str, s: &syn::ItemStruct, der: &BTreeSet<String>) -> String {
        let name = s.ident.to_string();
        let ft = self.fields_text(p, &s.fields);
        let (gd, gt) = self.generics(&s.generics);
        let mut out = String::new();
        let native: Vec<&str> = ["Copy", "Clone", "PartialEq", "Eq", "PartialOrd", "Ord"].into_iter().filter(|d| der.contains(*d) && !(*d == "Clone" && !der.contains("Copy"))).collect();
        write!(out, "\n//<vx:ov type {p}>\n{}", self.cx.ov.items.get(p).cloned().unwrap_or_default()).unwrap();
        if !native.is_empty() {
            writeln!(out, "#[derive({})]", native.join(", ")).unwrap();
        }
        let semi = if matches!(s.fields, syn::Fields::Named(_)) { "" } else { ";" };
        writeln!(out, "pub struct {name}{gd} {ft}{semi}").unwrap();
        if self.cx.ov.noderive.contains(p) {
            out.push_str("//</vx:ov>\n");
            return out;
        }
        let fields: Vec<(String, String)> = s
            .fields
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let (a, b) = r(f.ty.span());
                (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), self.src[a..b].to_string())
            })
            .collect();
        self.cx.derives.push(format!("{p}: {}", der.iter().cloned().collect::<Vec<_>>().join(",")));
        let selfty = format!("{name}{gt}");
        let oc = if s.fields.iter().any(|f| matches!(f.vis, syn::Visibility::Inherited)) && !self.cx.ov.pubfields.contains(p) { "closed" } else { "open" };
        if der.contains("PartialEq") {
            let body = if fields.is_empty() { "true".to_string() } else { fields.iter().map(|(f, _)| format!("vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self.{f}, &other.{f})")).collect::<Vec<_>>().join(" && ") };
            writeln!(out, "impl{gd} vstd::std_specs::cmp::PartialEqSpecImpl for {selfty} {{ open spec fn obeys_eq_spec() -> bool {{ true }} {oc} spec fn eq_spec(&self, other: &Self) -> bool {{ {body} }} }}").unwrap();
        }
        if der.contains("PartialOrd") {
            let mut b = "Some(core::cmp::Ordering::Equal)".to_string();
            for (f, _) in fields.iter().rev() {
                b = format!("match vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&self.{f}, &other.{f}) {{ Some(core::cmp::Ordering::Equal) => {b}, c => c }}");
            }
            writeln!(out, "impl{gd} vstd::std_specs::cmp::PartialOrdSpecImpl for {selfty} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} {oc} spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {{ {b} }} }}").unwrap();
        }
        if der.contains("Ord") {
            let mut b = "core::cmp::Ordering::Equal".to_string();
            for (f, _) in fields.iter().rev() {
                b = format!("match vstd::std_specs::cmp::OrdSpec::cmp_spec(&self.{f}, &other.{f}) {{ core::cmp::Ordering::Equal => {b}, c => c }}");
            }
            writeln!(out, "impl{gd} vstd::std_specs::cmp::OrdSpecImpl for {selfty} {{ open spec fn obeys_cmp_spec() -> bool {{ true }} {oc} spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {{ {b} }} }}").unwrap();
        }
        if der.contains("Hash") {
            let feed = if fields.is_empty() { "Seq::<int>::empty()".to_string() } else { fields.iter().map(|(f, _)| format!("crate::vxdeps::hash::Hash::feed(&self.{f})")).collect::<Vec<_>>().join(" + ") };
            let body = fields.iter().map(|(f, _)| format!("crate::vxdeps::hash::Hash::hash(&self.{f}, state);")).collect::<Vec<_>>().join(" ");
            writeln!(out, "//<vx:fn {p}::derived::hash>\nimpl{gd} crate::vxdeps::hash::Hash for {selfty} {{ closed spec fn feed(&self) -> Seq<int> {{ {feed} }} fn hash<H: crate::vxdeps::hash::Hasher>(&self, state: &mut H) {{ {body} }} }}\n//</vx:fn>").unwrap();
            self.cx.fns.push(FnInfo { path: format!("{p}::derived::hash"), file: self.file.clone(), lines: (0, 0), contract: true, lost: vec![], calls: BTreeSet::new(), loops: 0, closures: 0, rewrites: vec!["derive-expansion".into()], external: false, tokens: String::new() });
        }
        if der.contains("Clone") && !der.contains("Copy") && s.generics.params.is_empty() {
            let init = match s.fields {
                syn::Fields::Named(_) => format!("Self {{ {} }}", fields.iter().map(|(f, _)| format!("{f}: self.{f}.clone()")).collect::<Vec<_>>().join(", ")),
                _ => format!("Self({})", fields.iter().map(|(f, _)| format!("self.{f}.clone()")).collect::<Vec<_>>().join(", ")),
            };
            let ens = self.cx.ov.fns.get(&format!("{p}::derived::clone")).map(|o| (o.spec.clone(), o.start.clone())).unwrap_or_default();
            writeln!(out, "//<vx:fn {p}::derived::clone>\nimpl Clone for {selfty} {{ fn clone(&self) -> (vx_r: Self)\n{}\n{{ {} {init} }} }}\n//</vx:fn>", ens.0, ens.1).unwrap();
            self.cx.fns.push(FnInfo { path: format!("{p}::derived::clone"), file: self.file.clone(), lines: (0, 0), contract: true, lost: vec![], calls: BTreeSet::new(), loops: 0, closures: 0, rewrites: vec!["derive-expansion".into()], external: false, tokens: String::new() });
        }
        if der.contains("Default") && s.generics.params.is_empty() {
            let init = match s.fields {
                syn::Fields::Named(_) => format!("Self {{ {} }}", fields.iter().map(|(f, _)| format!("{f}: Default::default()")).collect::<Vec<_>>().join(", ")),
                _ => format!("Self({})", fields.iter().map(|_| "Default::default()".to_string()).collect::<Vec<_>>().join(", ")),
            };
            let ens = self.cx.ov.fns.get(&format!("{p}::derived::default")).map(|o| o.spec.clone()).unwrap_or_default();
            writeln!(out, "//<vx:fn {p}::derived::default>\nimpl Default for {selfty} {{ fn default() -> (vx_r: Self)\n{ens}\n{{ {init} }} }}\n//</vx:fn>").unwrap();
            self.cx.fns.push(FnInfo { path: format!("{p}::derived::default"), file: self.file.clone(), lines: (0, 0), contract: true, lost: vec![], calls: BTreeSet::new(), loops: 0, closures: 0, rewrites: vec!["derive-expansion".into()], external: false, tokens: String::new() });
        }
        out.push_str("//</vx:ov>\n");
        out
    }

    fn derived_enum(&mut self, p: &str, e: &syn::ItemEnum, der: &BTreeSet<String>) -> String {
        let name = e.ident.to_string();
        let mut out = String::new();
        let native: Vec<&str> = ["Copy", "Clone", "PartialEq", "Eq", "PartialOrd", "Ord"].into_iter().filter(|d| der.contains(*d)).collect();
        write!(out, "\n//<vx:ov type {p}>\n{}", self.cx.ov.items.get(p).cloned().unwrap_or_default()).unwrap();
        if !native.is_empty() {
            writeln!(out, "#[derive({})]", native.join(", ")).unwrap();
        }
        let mut vs = vec![];
        for v in &e.variants {
            let ft = match &v.fields {
                syn::Fields::Named(n) => format!(" {{ {} }}", n.named.iter().map(|x| { let (a, b) = r(x.ty.span()); format!("{}: {}", x.ident.as_ref().unwrap(), &self.src[a..b]) }).collect::<Vec<_>>().join(", ")),
                syn::Fields::Unnamed(n) => format!("({})", n.unnamed.iter().map(|x| { let (a, b) = r(x.ty.span()); self.src[a..b].to_string() }).collect::<Vec<_>>().join(", ")),
                syn::Fields::Unit => String::new(),
            };
            let d = v.discriminant.as_ref().map(|(_, x)| { let (a, b) = r(x.span()); format!(" = {}", &self.src[a..b]) }).unwrap_or_default();
            vs.push(format!("{}{ft}{d}", v.ident));
        }
        writeln!(out, "pub enum {name} {{ {} }}", vs.join(", ")).unwrap();
        if self.cx.ov.noderive.contains(p) {
            out.push_str("//</vx:ov>\n");
            return out;
        }
        self.cx.derives.push(format!("{p}: {}", der.iter().cloned().collect::<Vec<_>>().join(",")));
        let unit = e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit));
        // declaration position (or explicit discriminant) = derived order
        let discr = e.variants.iter().any(|v| v.discriminant.is_some());
        let mut ord = String::new();
        if !discr {
            let arms = e.variants.iter().enumerate().map(|(i, v)| format!("{name}::{} {{ .. }} => {i}", v.ident)).collect::<Vec<_>>().join(", ");
            let body = if e.variants.is_empty() { "0".to_string() } else { format!("match self {{ {arms} }}") };
            write!(ord, "impl {name} {{ /// position in declaration order\n pub open spec fn vx_discr(self) -> int {{ {body} }} }}\n").unwrap();
        } else {
            let arms = e.variants.iter().map(|v| format!("{name}::{} {{ .. }} => ({})", v.ident, v.discriminant.as_ref().map(|(_, x)| x.to_token_stream().to_string()).unwrap_or("arbitrary()".into()))).collect::<Vec<_>>().join(", ");
            write!(ord, "impl {name} {{ pub open spec fn vx_discr(self) -> int {{ match self {{ {arms} }} }} }}\n").unwrap();
        }
        out.push_str(&ord);
        let binds = |v: &syn::Variant, s: &str| -> (String, Vec<String>) {
            match &v.fields {
                syn::Fields::Named(n) => {
                    let f: Vec<String> = n.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect();
                    (format!("{name}::{} {{ {} }}", v.ident, f.iter().map(|x| format!("{x}: {s}_{x}")).collect::<Vec<_>>().join(", ")), f.iter().map(|x| format!("{s}_{x}")).collect())
                }
                syn::Fields::Unnamed(n) => {
                    let f: Vec<String> = (0..n.unnamed.len()).map(|i| format!("{s}_{i}")).collect();
                    (format!("{name}::{}({})", v.ident, f.join(", ")), f)
                }
                syn::Fields::Unit => (format!("{name}::{}", v.ident), vec![]),
            }
        };
        if der.contains("PartialEq") {
            let body = if unit {
                "*self == *other".to_string()
            } else {
                let mut arms = vec![];
                for v in &e.variants {
                    let (a, fa) = binds(v, "a");
                    let (b, fb) = binds(v, "b");
                    let c = fa.iter().zip(&fb).map(|(x, y)| format!("vstd::std_specs::cmp::PartialEqSpec::eq_spec(&{x}, &{y})")).collect::<Vec<_>>().join(" && ");
                    arms.push(format!("({a}, {b}) => {}", if c.is_empty() { "true".into() } else { c }));
                }
                if e.variants.len() > 1 {
                    arms.push("_ => false".into());
                }
                format!("match (*self, *other) {{ {} }}", arms.join(", "))
            };
            writeln!(out, "impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ {body} }} }}").unwrap();
        }
        for (d, some, wrap) in [("PartialOrd", true, "partial_cmp_spec"), ("Ord", false, "cmp_spec")] {
            if !der.contains(d) {
                continue;
            }
            let w = |s: &str| if some { format!("Some({s})") } else { s.to_string() };
            let mut arms = vec![];
            if !unit {
                for v in &e.variants {
                    let (a, fa) = binds(v, "a");
                    let (b, fb) = binds(v, "b");
                    let mut t = w("core::cmp::Ordering::Equal");
                    for (x, y) in fa.iter().zip(&fb).rev() {
                        t = format!("match vstd::std_specs::cmp::{d}Spec::{wrap}(&{x}, &{y}) {{ {} => {t}, c => c }}", w("core::cmp::Ordering::Equal"));
                    }
                    arms.push(format!("({a}, {b}) => {t}"));
                }
            }
            let by = w("(if self.vx_discr() < other.vx_discr() { core::cmp::Ordering::Less } else if self.vx_discr() == other.vx_discr() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })");
            if unit || e.variants.len() > 1 {
                arms.push(format!("_ => {by}"));
            }
            let rt = if some { "Option<core::cmp::Ordering>" } else { "core::cmp::Ordering" };
            let o = if some { "obeys_partial_cmp_spec" } else { "obeys_cmp_spec" };
            writeln!(out, "impl vstd::std_specs::cmp::{d}SpecImpl for {name} {{ open spec fn {o}() -> bool {{ true }} open spec fn {wrap}(&self, other: &Self) -> {rt} {{ match (*self, *other) {{ {} }} }} }}", arms.join(", ")).unwrap();
        }
        if der.contains("Hash") && unit {
            writeln!(out, "impl crate::vxdeps::hash::Hash for {name} {{ closed spec fn feed(&self) -> Seq<int> {{ seq![self.vx_discr()] }} #[verifier::external_body] fn hash<H: crate::vxdeps::hash::Hasher>(&self, state: &mut H) {{ unimplemented!() }} }}").unwrap();
        }
        out.push_str("//</vx:ov>\n");
        out
    }
}

fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(l) = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated) {
                for p in l {
                    s.insert(p.segments.last().unwrap().ident.to_string());
                }
            }
        }
    }
    s
}

fn extract_file(cx: &mut Ctx, f: &Path, modpath: &str, dir: &Path) -> String {
    let src = fs::read_to_string(f).unwrap_or_else(|e| {
        eprintln!("vx: cannot read {}: {e}", f.display());
        std::process::exit(3)
    });
    let ovl = cx.ov;
    let src = inline::normal(src, modpath, &|p| ovl.fns.get(p).map_or(0, |o| o.loops_expected.unwrap_or_else(|| o.loop_inv.keys().max().map_or(0, |x| x + 1))));
    let (src, renamed) = alpha::undo(src, modpath, &cx.known, &cx.fnames);
    for (k, v) in renamed {
        cx.renamed.entry(k).or_default().extend(v);
    }
    let (src, took, inlined) = inline::inline(src, modpath, &|p| ovl.fns.contains_key(p));
    for (k, v) in took {
        cx.took.entry(k).or_default().extend(v);
    }
    cx.inlined.extend(inlined);
    let ast = syn::parse_file(&src).unwrap_or_else(|e| {
        eprintln!("vx: cannot parse {}: {e}", f.display());
        std::process::exit(3)
    });
    let mut fc = FileCx { cx, src: &src, file: f.display().to_string() };
    fc.items(&ast.items, modpath, dir)
}

fn module(name: &str, p: &str, app: &str, inner: &str) -> String {
    format!("\npub mod {name} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vxspec::*;\n#[allow(unused_imports)] use crate::vxdeps::MapIndex;\n#[allow(unused_imports)] use crate::vxstd2::VxIter; #[allow(unused_imports)] use crate::vxstd2::VxIter2; #[allow(unused_imports)] use crate::vxstd2::VxArr; #[allow(unused_imports)] use crate::vxstd3::{{VxIter3, VxOptRef, VxOpt, VxSlice}}; use vstd::std_specs::iter::IteratorSpec;\n#[allow(unused_imports)] use crate::vxdeps::more::FilterMapExt; #[allow(unused_imports)] use crate::vxdeps::more::FilterExt; #[allow(unused_imports)] use crate::vxdeps::more::JoinExt; #[allow(unused_imports)] use crate::vxdeps::itertools::ItertoolsCounts;\n//<vx:ov {p}>\n{app}\n//</vx:ov>\n{inner}\n}}\n")
}

/// The named items of a file of a dependency, in the version Cargo.lock has: functions by name, impl functions as `<T as Trait>::name`.
fn extract_dep(cx: &mut Ctx, src: &Path, dep: &(String, String, String, Vec<String>)) -> String {
    let fail = |m: String| -> ! {
        eprintln!("vx: dependency {}: {m}", dep.0);
        std::process::exit(3)
    };
    let lock = [src.join("../Cargo.lock"), PathBuf::from("/repo/Cargo.lock")].into_iter().find(|p| p.exists()).unwrap_or_else(|| fail("no Cargo.lock".into()));
    let lock = fs::read_to_string(lock).unwrap();
    let pkgs: Vec<&str> = lock.split("[[package]]").collect();
    let field = |p: &str, k: &str| p.lines().find_map(|l| l.strip_prefix(&format!("{k} = \"")).map(|x| x.trim_end_matches('"').to_string()));
    let own = pkgs.iter().find(|p| field(p, "name").as_deref() == Some("poker")).unwrap_or_else(|| fail("the crate is not in Cargo.lock".into()));
    let want = own.lines().map(|l| l.trim().trim_matches(|c| c == '"' || c == ',')).find(|l| l.split(' ').next() == Some(dep.0.as_str())).unwrap_or_else(|| fail("not a dependency".into()));
    let version = match want.split_once(' ') {
        Some((_, v)) => v.to_string(),
        None => pkgs.iter().find(|p| field(p, "name").as_deref() == Some(dep.0.as_str())).and_then(|p| field(p, "version")).unwrap_or_else(|| fail("no version".into())),
    };
    let home = std::env::var("CARGO_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(std::env::var("HOME").unwrap_or("/root".into())).join(".cargo"));
    let file = fs::read_dir(home.join("registry/src")).unwrap_or_else(|e| fail(e.to_string())).filter_map(|d| d.ok()).map(|d| d.path().join(format!("{}-{version}", dep.0)).join(&dep.1)).find(|f| f.exists()).unwrap_or_else(|| fail(format!("no source of version {version}")));
    let text = fs::read_to_string(&file).unwrap();
    let ast = syn::parse_file(&text).unwrap_or_else(|e| fail(e.to_string()));
    let mut mini = String::new();
    let mut left: BTreeSet<&str> = dep.3.iter().map(|x| x.as_str()).collect();
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if left.contains(f.sig.ident.to_string().as_str()) => {
                let (a, b) = r(f.span());
                mini.push_str(&text[a..b]);
                mini.push('\n');
                left.remove(f.sig.ident.to_string().as_str());
            }
            syn::Item::Impl(im) => {
                let ty = type_name(&im.self_ty);
                let base = match &im.trait_ {
                    Some((_, p, _)) => format!("<{ty} as {}>", p.segments.last().unwrap().ident),
                    None => ty,
                };
                let is = |n: String| dep.3.iter().any(|x| *x == format!("{base}::{n}"));
                if !im.items.iter().any(|i| matches!(i, syn::ImplItem::Fn(f) if is(f.sig.ident.to_string()))) {
                    continue;
                }
                mini.push_str(&text[r(im.impl_token.span()).0..r(im.brace_token.span.open()).1]);
                mini.push('\n');
                for i in &im.items {
                    match i {
                        syn::ImplItem::Fn(f) if !is(f.sig.ident.to_string()) => cx.dropped.push(format!("{}::{base}::{}", dep.2, f.sig.ident)),
                        _ => {
                            if let syn::ImplItem::Fn(f) = i {
                                left.remove(format!("{base}::{}", f.sig.ident).as_str());
                            }
                            let (a, b) = r(i.span());
                            mini.push_str(&text[a..b]);
                            mini.push('\n');
                        }
                    }
                }
                mini.push_str("}\n");
            }
            _ => {}
        }
    }
    if !left.is_empty() {
        fail(format!("no {left:?} in {}", file.display()));
    }
    let ast = syn::parse_file(&mini).unwrap_or_else(|e| fail(e.to_string()));
    let app = cx.ov.mods.get(&dep.2).cloned().unwrap_or_default();
    let mut fc = FileCx { cx, src: &mini, file: file.display().to_string() };
    let inner = fc.items(&ast.items, &dep.2, Path::new("."));
    module(&dep.2, &dep.2, &app, &inner)
}

fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    if args[1] == "--names" {
        let n = alpha::to_json(&alpha::scan(Path::new(&args[2])));
        fs::write(&args[3], serde_json::to_string_pretty(&n).unwrap() + "\n").unwrap();
        return;
    }
    let ov = parse_overlay(Path::new(&args[2]));
    let known = alpha::from_file(&Path::new(&args[2]).join("names.json"));
    let fnames = alpha::functions(&src, &known);
    let out = &args[3];
    let map = &args[4];
    let external: BTreeSet<String> = args.get(5).map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut cx = Ctx { ov: &ov, external, fns: vec![], derives: vec![], macros: String::new(), dropped: vec![], tests_on: false, took: BTreeMap::new(), inlined: BTreeSet::new(), known, fnames, renamed: BTreeMap::new() };
    let _ = cx.tests_on;
    let body = extract_file(&mut cx, &src.join("lib.rs"), "", &src);
    let mut body = body;
    for d in &ov.deps {
        body.push_str(&extract_dep(&mut cx, &src, d));
    }
    let text = format!("{}\n{}\nfn main() {{}}\nverus! {{\n{}\n{}\n//<vx:ov crate>\n{}\n//</vx:ov>\n}}\n", ov.head, cx.macros, ov.top, body, ov.mods.get("crate").cloned().unwrap_or_default());
    // locate functions in the output
    let mut pos: HashMap<String, (usize, usize)> = HashMap::new();
    let mut stack: Vec<(String, usize)> = vec![];
    let mut istack: Vec<(String, usize)> = vec![];
    let mut ipos: Vec<Value> = vec![];
    let mut final_text = String::new();
    for (i, l) in text.lines().enumerate() {
        let t = l.trim_start();
        if let Some(x) = t.strip_prefix("//<vx:fn ") {
            stack.push((x.trim_end_matches('>').to_string(), i + 1));
        } else if t.starts_with("//</vx:fn>") {
            if let Some((n, s)) = stack.pop() {
                pos.insert(n, (s, i + 1));
            }
        }
        if let Some(x) = t.strip_prefix("//<vx:item ") {
            istack.push((x.trim_end_matches('>').to_string(), i + 1));
        } else if t.starts_with("//</vx:item>") {
            if let Some((n, s)) = istack.pop() {
                ipos.push(json!({"key": n, "out": [s, i + 1]}));
            }
        }
        final_text.push_str(l);
        final_text.push('\n');
    }
    fs::write(out, &final_text).unwrap();
    let found: BTreeSet<String> = cx.fns.iter().map(|f| f.path.clone()).collect();
    let missing: Vec<&String> = ov.fns.keys().filter(|k| !found.contains(*k)).collect();
    let fns: Vec<Value> = cx
        .fns
        .iter()
        .map(|f| {
            let p = pos.get(&format!("{}", f.path)).copied().unwrap_or((0, 0));
            json!({"path": f.path, "file": f.file, "src": [f.lines.0, f.lines.1], "out": [p.0, p.1], "contract": f.contract, "lost": f.lost, "calls": f.calls, "loops": f.loops, "closures": f.closures, "rewrites": f.rewrites, "external": f.external, "hash": format!("{:016x}", fnv(&f.tokens))})
        })
        .collect();
    let j = json!({"functions": fns, "missing": missing, "items": ipos, "modes": MODES.lock().unwrap().iter().collect::<Vec<_>>(), "derives": cx.derives, "dropped": cx.dropped});
    fs::write(map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
