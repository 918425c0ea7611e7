//! Mechanical extraction of one Rust source file into a file Verus accepts.
//!
//!   extract SRC CONTRACT OUT REPORT
//!
//! The output is the text of SRC with two kinds of edits and no others:
//!
//! * deletions of whole items or attributes: doc comments, `#[deprecated]`,
//!   `#[inline]`, `#[allow]`, `#[must_use]`, `#[cfg(feature = "std")]` (taken as
//!   on), `#[cfg(test)]` items, macro definitions and invocations at item level,
//!   `mod x;` and `pub use` items, `unsafe impl Zeroable/Pod` marker impls when
//!   the contract asks for it (`%drop`);
//! * insertions of the annotations that CONTRACT gives for a function.
//!
//! plus the literal replacements that CONTRACT lists (`%replace A => B`), each of
//! which is written to REPORT. Statements and expressions are never changed.
//!
//! CONTRACT is a sequence of blocks:
//!
//!   %fn KEY            starts a function; KEY as printed in REPORT
//!   %attr              text put before the function
//!   %ret NAME          names the return value
//!   %spec              requires/ensures clauses
//!   %entry             text at the start of the body
//!   %tail              text before the tail expression (or the closing brace)
//!   %loop K KIND [IT]  clauses of the K-th loop (KIND for|while:COND|loop), IT names the ghost iterator
//!   %alt K KIND        other clauses, for when the K-th loop is of this other kind
//!   %let NAME          text after the body's first top-level `let` that binds NAME
//!   %before K          text before the K-th loop
//!   %body K / %end K   text at the start / end of the K-th loop's body
//!   (in these texts, $STRLITS becomes `reveal_strlit` of every string literal of the function's body)
//!   %item KEY          text at the start of a trait's or impl's body
//!   %locals A B ...    the names the contract uses for the body's top-level bindings, in order; when the body has as many
//!                      under other names, the contract is renamed (and REPORT says so)
//!   %vars A ...        likewise for the patterns of its for loops
//!   %drop KEY          drop this item
//!   %fields S A B ...  likewise for the fields of struct S, in the whole contract
//!   %attribute S A     struct S must carry #[A]: an assumption of the contracts
//!
//! With the environment variable VERIF_SMOKE set, every function under contract asserts `false` at its end (used only
//! to show that the contracts are not vacuous).
//!
//! A %fn whose KEY is a constant of an impl: the constant becomes opaque to the verifier and its
//! expression becomes the body of a function `const_NAME` in an inherent impl, under that contract.
//!
//! `$0`, `$1`, ... stand for the names of the parameters other than self.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Debug, Clone)]
struct LoopSpec {
    kind: String,
    it: Option<String>,
    clauses: String,
    before: String,
    body: String,
    end: String,
}

#[derive(Default, Debug, Clone)]
struct FnSpec {
    attr: String,
    ret: Option<String>,
    spec: String,
    entry: String,
    tail: String,
    lets: BTreeMap<String, String>,
    loops: BTreeMap<usize, LoopSpec>,
    alts: BTreeMap<usize, LoopSpec>,
    locals: Vec<String>,
    vars: Vec<String>,
}

/// Replaces whole words: field names (after a dot), or all others.
fn words(t: &str, map: &BTreeMap<String, String>, fields: bool) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut before = ' ';
    for c in t.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' || c == '$' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            out.push_str(match map.get(&word) {
                Some(new) if (before == '.') == fields => new,
                _ => &word,
            });
            word.clear();
        }
        out.push(c);
        before = c;
    }
    out.pop();
    out
}

impl FnSpec {
    /// The same contract for a body whose bindings are called differently.
    fn renamed(&self, map: &BTreeMap<String, String>, fields: bool) -> FnSpec {
        let mut f = self.clone();
        for t in [&mut f.spec, &mut f.entry, &mut f.tail] {
            *t = words(t, map, fields);
        }
        f.lets = f.lets.iter().map(|(k, v)| (words(k, map, fields), words(v, map, fields))).collect();
        for l in f.loops.values_mut().chain(f.alts.values_mut()) {
            for t in [&mut l.clauses, &mut l.before, &mut l.body, &mut l.end] {
                *t = words(t, map, fields);
            }
        }
        f
    }
    fn with(&self, params: &[String]) -> FnSpec {
        self.each(|t| {
            let mut t = t.clone();
            for (k, p) in params.iter().enumerate().rev() {
                t = t.replace(&format!("${k}"), p);
            }
            t
        })
    }
    fn revealing(&self, calls: &str) -> FnSpec {
        self.each(|t| t.replace("$STRLITS", calls))
    }
    fn each(&self, sub: impl Fn(&String) -> String) -> FnSpec {
        let all = |m: &BTreeMap<usize, LoopSpec>| {
            m.iter()
                .map(|(k, l)| {
                    let l = LoopSpec {
                        kind: l.kind.clone(),
                        it: l.it.clone(),
                        clauses: sub(&l.clauses),
                        before: sub(&l.before),
                        body: sub(&l.body),
                        end: sub(&l.end),
                    };
                    (*k, l)
                })
                .collect()
        };
        FnSpec {
            attr: sub(&self.attr),
            ret: self.ret.clone(),
            locals: self.locals.clone(),
            vars: self.vars.clone(),
            spec: sub(&self.spec),
            entry: sub(&self.entry),
            tail: sub(&self.tail),
            lets: self.lets.iter().map(|(k, v)| (k.clone(), sub(v))).collect(),
            loops: all(&self.loops),
            alts: all(&self.alts),
        }
    }
}

/// The string literals of a body.
struct Strs(BTreeSet<String>);
impl<'ast> Visit<'ast> for Strs {
    fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        self.0.insert(l.token().to_string());
    }
}

#[derive(Default)]
struct Contract {
    fns: BTreeMap<String, FnSpec>,
    items: BTreeMap<String, String>,
    drops: BTreeSet<String>,
    attrs: BTreeMap<String, String>,
    fields: BTreeMap<String, Vec<String>>,
    replace: Vec<(String, String)>,
}

fn parse_contract(text: &str) -> Contract {
    let mut c = Contract::default();
    let mut cur = String::new();
    enum Dst {
        None,
        Attr,
        Spec,
        Entry,
        Tail,
        Loop(usize),
        Alt(usize),
        Before(usize),
        Body(usize),
        End(usize),
        Item(String),
        Let(String),
    }
    let mut dst = Dst::None;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('%') {
            let (word, arg) = rest.split_once(' ').unwrap_or((rest, ""));
            let arg = arg.trim();
            dst = match word {
                "#" => Dst::None,
                "fn" => {
                    cur = arg.to_string();
                    assert!(c.fns.insert(cur.clone(), FnSpec::default()).is_none(), "duplicate {cur}");
                    Dst::None
                }
                "attr" => Dst::Attr,
                "ret" => {
                    c.fns.get_mut(&cur).unwrap().ret = Some(arg.to_string());
                    Dst::None
                }
                "locals" | "vars" => {
                    let names = arg.split_whitespace().map(str::to_string).collect();
                    let f = c.fns.get_mut(&cur).unwrap();
                    *(if word == "locals" { &mut f.locals } else { &mut f.vars }) = names;
                    Dst::None
                }
                "spec" => Dst::Spec,
                "entry" => Dst::Entry,
                "tail" => Dst::Tail,
                "loop" => {
                    let w: Vec<&str> = arg.split_whitespace().collect();
                    let k: usize = w[0].parse().unwrap();
                    let l = c.fns.get_mut(&cur).unwrap().loops.entry(k).or_default();
                    l.kind = w[1].to_string();
                    l.it = w.get(2).map(|s| s.to_string());
                    Dst::Loop(k)
                }
                "alt" => {
                    let w: Vec<&str> = arg.split_whitespace().collect();
                    let k: usize = w[0].parse().unwrap();
                    let l = c.fns.get_mut(&cur).unwrap().alts.entry(k).or_default();
                    l.kind = w[1].to_string();
                    l.it = w.get(2).map(|s| s.to_string());
                    Dst::Alt(k)
                }
                "before" => Dst::Before(arg.parse().unwrap()),
                "body" => Dst::Body(arg.parse().unwrap()),
                "let" => Dst::Let(arg.to_string()),
                "end" => Dst::End(arg.parse().unwrap()),
                "item" => Dst::Item(arg.to_string()),
                "drop" => {
                    c.drops.insert(arg.to_string());
                    Dst::None
                }
                "fields" => {
                    let mut w = arg.split_whitespace().map(str::to_string);
                    c.fields.insert(w.next().unwrap(), w.collect());
                    Dst::None
                }
                "attribute" => {
                    let (a, b) = arg.split_once(' ').unwrap();
                    c.attrs.insert(a.to_string(), b.trim().to_string());
                    Dst::None
                }
                "replace" => {
                    let (a, b) = arg.split_once("=>").unwrap();
                    c.replace.push((a.trim().to_string(), b.trim().to_string()));
                    Dst::None
                }
                other => panic!("unknown directive %{other}"),
            };
            continue;
        }
        let f = c.fns.get_mut(&cur);
        let target: &mut String = match &dst {
            Dst::None => {
                assert!(line.trim().is_empty(), "stray text in contract: {line}");
                continue;
            }
            Dst::Item(k) => c.items.entry(k.clone()).or_default(),
            d => {
                let f = f.expect("text outside a function");
                match d {
                    Dst::Attr => &mut f.attr,
                    Dst::Spec => &mut f.spec,
                    Dst::Entry => &mut f.entry,
                    Dst::Tail => &mut f.tail,
                    Dst::Loop(k) => &mut f.loops.entry(*k).or_default().clauses,
                    Dst::Alt(k) => &mut f.alts.entry(*k).or_default().clauses,
                    Dst::Before(k) => &mut f.loops.entry(*k).or_default().before,
                    Dst::Body(k) => &mut f.loops.entry(*k).or_default().body,
                    Dst::Let(n) => f.lets.entry(n.clone()).or_default(),
                    Dst::End(k) => &mut f.loops.entry(*k).or_default().end,
                    _ => unreachable!(),
                }
            }
        };
        target.push_str(line);
        target.push('\n');
    }
    c
}

enum Edit {
    Del(usize),
    Ins(String),
}

struct X<'a> {
    src: &'a str,
    c: &'a Contract,
    edits: Vec<(usize, usize, Edit)>,
    path: Vec<String>,
    seen: BTreeSet<String>,
    report: String,
    /// `impl<..>`, type and where clause of the impl we are in; text that goes after the item.
    head: (String, String, String),
    after: String,
}

/// With VERIF_SMOKE set, every function under contract also asserts `false` where it ends: what its contract and the
/// assumptions it uses say must not prove that.
const SMOKE: &str = "\nproof { assert(false); }\n";
fn smoke() -> bool {
    std::env::var_os("VERIF_SMOKE").is_some()
}

fn flat<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

fn range(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// Whether a loop adds to a field of self on the way.
struct Counts(bool);
impl<'ast> Visit<'ast> for Counts {
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        self.0 |= matches!(e.op, syn::BinOp::AddAssign(_)) && matches!(&*e.left, syn::Expr::Field(f) if flat(&f.base) == "self");
        visit::visit_expr_binary(self, e);
    }
}

/// Whether a loop is of one of these kinds, separated by `|`.
fn is_kind(want: &str, have: &str) -> bool {
    want.split('|').any(|w| w == have)
}

/// An operand of a comparison, whatever it is called.
fn operand(e: &syn::Expr) -> String {
    match e {
        syn::Expr::Path(_) => "_".into(),
        syn::Expr::Lit(l) => flat(l),
        _ => "?".into(),
    }
}

struct Loops<'a> {
    out: Vec<(String, (usize, usize), Option<usize>, (usize, usize))>,
    closures: usize,
    vars: Vec<String>,
    _p: std::marker::PhantomData<&'a ()>,
}

impl<'a, 'ast> Visit<'ast> for Loops<'a> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.vars.push(flat(&e.pat));
        // Counting to a quotient is work in chunks, which needs another invariant.
        let chunks = matches!(&*e.expr, syn::Expr::Range(r) if matches!(r.end.as_deref(), Some(syn::Expr::Binary(b)) if matches!(b.op, syn::BinOp::Div(_) | syn::BinOp::Shr(_))));
        let mut counts = Counts(false);
        counts.visit_block(&e.body);
        let kind = match (chunks, counts.0) {
            (true, _) => "for:chunks",
            (_, true) => "for:counts",
            _ => "for",
        };
        self.out.push((kind.into(), range(e.span()), Some(range(e.expr.span()).0), range(e.body.span())));
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        // A loop with another condition needs another invariant.
        let cond = match &*e.cond {
            syn::Expr::Binary(b) => format!("{}{}{}", operand(&b.left), flat(&b.op), operand(&b.right)),
            _ => "?".into(),
        };
        self.out.push((format!("while:{cond}"), range(e.span()), None, range(e.body.span())));
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.out.push(("loop".into(), range(e.span()), None, range(e.body.span())));
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, e);
    }
}

impl<'a> X<'a> {
    fn ins(&mut self, at: usize, s: impl Into<String>) {
        let n = self.edits.len();
        self.edits.push((at, n, Edit::Ins(s.into())));
    }
    fn del(&mut self, r: (usize, usize)) {
        let n = self.edits.len();
        self.edits.push((r.0, n, Edit::Del(r.1 - r.0)));
    }
    fn key(&self, name: &str) -> String {
        let mut p = self.path.clone();
        p.push(name.to_string());
        p.join("::")
    }

    fn drop_item(&mut self, r: (usize, usize), why: String) {
        writeln!(self.report, "dropped\t{why}").unwrap();
        self.del(r);
    }

    /// True when the item is test-only.
    fn is_test(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().any(|a| {
            let s = flat(&a.meta);
            s == "cfg(test)" || s == "test"
        })
    }

    fn function(&mut self, whole: (usize, usize), start: usize, sig: &syn::Signature, block: Option<&syn::Block>, semi: Option<Span>) {
        let key = self.key(&sig.ident.to_string());
        let c = self.c;
        // `$0`, `$1`, ... in a contract stand for the parameters (without self), whatever they are called.
        let params: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|i| match i {
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(p) => Some(p.ident.to_string()),
                    other => Some(flat(other)),
                },
                _ => None,
            })
            .collect();
        self.seen.insert(key.clone());
        let mut loops = Loops { out: vec![], closures: 0, vars: vec![], _p: std::marker::PhantomData };
        if let Some(b) = block {
            loops.visit_block(b);
        }
        let locals: Vec<String> = block.map(|b| &b.stmts[..]).unwrap_or_default().iter().filter_map(|s| match s {
            syn::Stmt::Local(l) => Some(match &l.pat {
                syn::Pat::Ident(p) => p.ident.to_string(),
                syn::Pat::Type(t) => match &*t.pat {
                    syn::Pat::Ident(p) => p.ident.to_string(),
                    other => flat(other),
                },
                other => flat(other),
            }),
            _ => None,
        }).collect();
        // Bindings that the contract mentions under other names.
        let spec = c.fns.get(&key).map(|f| {
            let mut map = BTreeMap::new();
            for (want, have) in [(&f.locals, &locals), (&f.vars, &loops.vars)] {
                if want.len() == have.len() && want.iter().any(|w| !have.contains(w)) {
                    map.extend(want.iter().cloned().zip(have.iter().cloned()).filter(|(w, h)| w != h));
                }
            }
            if !map.is_empty() {
                writeln!(self.report, "shape\t{key}\trenamed {map:?}").unwrap();
            }
            let mut f = f.renamed(&map, false).with(&params);
            for (k, l) in std::mem::take(&mut f.alts) {
                if loops.out.get(k).is_some_and(|o| is_kind(&l.kind, &o.0)) {
                    let main = f.loops.entry(k).or_default();
                    (main.kind, main.it, main.clauses) = (l.kind, l.it, l.clauses);
                }
            }
            f
        });
        let spec = spec.as_ref();
        let kinds: Vec<&str> = loops.out.iter().map(|l| l.0.as_str()).collect();
        let text = &self.src[whole.0..whole.1];
        let lines = text.lines().filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with("//")).count();
        writeln!(
            self.report,
            "fn\t{key}\t{}\t{}\t{}\t{}",
            if spec.is_some() { "contract" } else { "bare" },
            lines,
            kinds.join(","),
            loops.closures
        )
        .unwrap();
        self.ins(start, format!("\n// >>> {key}\n"));
        let Some(spec) = spec else { return };
        let want: Vec<String> = spec.loops.values().filter(|l| !l.kind.is_empty()).map(|l| l.kind.clone()).collect();
        if want.len() != kinds.len() || want.iter().zip(&kinds).any(|(w, h)| !is_kind(w, h)) {
            writeln!(self.report, "loops\t{key}\twant {}\thave {}", want.join(","), kinds.join(",")).unwrap();
        }
        if !spec.attr.is_empty() {
            self.ins(start, spec.attr.clone());
        }
        if let Some(name) = &spec.ret {
            match &sig.output {
                syn::ReturnType::Type(_, ty) => {
                    let r = range(ty.span());
                    self.ins(r.0, format!("({name}: "));
                    self.ins(r.1, ")");
                }
                syn::ReturnType::Default => {
                    writeln!(self.report, "shape\t{key}\tno return value to name").unwrap();
                }
            }
        }
        let at = match (block, semi) {
            (Some(b), _) => range(b.brace_token.span.open()).0,
            (None, Some(s)) => range(s).0,
            _ => unreachable!(),
        };
        if !spec.spec.is_empty() {
            // A trailing comma after the where clause is legal, so put one there.
            let comma = sig.generics.where_clause.as_ref().is_some_and(|w| !w.predicates.is_empty() && !w.predicates.trailing_punct());
            self.ins(at, format!("{}\n{}", if comma { "," } else { "" }, spec.spec));
        }
        let Some(b) = block else { return };
        let mut found = Strs(BTreeSet::new());
        found.visit_block(b);
        let reveal: String = found.0.iter().map(|l| format!("reveal_strlit({l}); ")).collect();
        let spec = spec.revealing(&reveal);
        if !spec.entry.is_empty() {
            self.ins(range(b.brace_token.span.open()).1, format!("\n{}", spec.entry));
        }
        if !spec.tail.is_empty() {
            let pos = match b.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => range(e.span()).0,
                _ => range(b.brace_token.span.close()).0,
            };
            self.ins(pos, format!("\n{}", spec.tail));
        }
        if smoke() {
            let pos = match b.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => range(e.span()).0,
                _ => range(b.brace_token.span.close()).0,
            };
            self.ins(pos, SMOKE);
        }
        for (name, text) in &spec.lets {
            let pos = b.stmts.iter().find_map(|s| match s {
                syn::Stmt::Local(l) => match &l.pat {
                    syn::Pat::Ident(p) if p.ident == name => Some(range(s.span()).1),
                    _ => None,
                },
                _ => None,
            });
            match pos {
                Some(pos) => self.ins(pos, format!("\n{text}")),
                None => writeln!(self.report, "shape\t{key}\tno let {name}").unwrap(),
            }
        }
        for (k, (kind, r, iter, body)) in loops.out.iter().enumerate() {
            let Some(l) = spec.loops.get(&k) else { continue };
            if !l.kind.is_empty() && !is_kind(&l.kind, kind) {
                continue;
            }
            if !l.before.is_empty() {
                self.ins(r.0, format!("\n{}", l.before));
            }
            if let (Some(name), Some(pos)) = (&l.it, iter) {
                self.ins(*pos, format!("{name}: "));
            }
            if !l.clauses.is_empty() {
                self.ins(body.0, format!("\n{}", l.clauses));
            }
            if !l.body.is_empty() {
                self.ins(body.0 + 1, format!("\n{}", l.body));
            }
            if !l.end.is_empty() {
                self.ins(body.1 - 1, format!("\n{}", l.end));
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for X<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let p = flat(a.path());
        let m = flat(&a.meta);
        if ["doc", "deprecated", "inline", "allow", "must_use", "cfg_attr", "track_caller", "cold"].contains(&p.as_str()) || m == "cfg(feature=\"std\")" {
            self.del(range(a.span()));
            if p != "doc" {
                writeln!(self.report, "attr\t{m}").unwrap();
            }
        }
    }

    fn visit_item(&mut self, i: &'ast syn::Item) {
        let r = range(i.span());
        match i {
            syn::Item::Mod(m) => {
                self.drop_item(r, format!("mod {}", m.ident));
                return;
            }
            syn::Item::Macro(m) => {
                self.drop_item(r, format!("macro {}", flat(&m.mac.path)));
                return;
            }
            syn::Item::Use(u) => {
                if X::is_test(&u.attrs) || !matches!(u.vis, syn::Visibility::Inherited) {
                    self.drop_item(r, flat(u));
                    return;
                }
            }
            syn::Item::Fn(f) => {
                if X::is_test(&f.attrs) {
                    self.drop_item(r, format!("test fn {}", f.sig.ident));
                    return;
                }
                if self.c.drops.contains(&self.key(&f.sig.ident.to_string())) {
                    self.drop_item(r, format!("fn {}", f.sig.ident));
                    return;
                }
                for a in &f.attrs {
                    self.visit_attribute(a);
                }
                let start = f.attrs.last().map(|a| range(a.span()).1).unwrap_or(r.0);
                self.function(r, start, &f.sig, Some(&f.block), None);
                return;
            }
            syn::Item::Impl(m) => {
                let ty = flat(&m.self_ty);
                let key = match &m.trait_ {
                    Some((bang, p, _)) => {
                        let _ = bang;
                        format!("{} for {}", flat(p), ty)
                    }
                    None => ty,
                };
                if self.c.drops.contains(&key) {
                    self.drop_item(r, format!("impl {key}"));
                    return;
                }
                writeln!(self.report, "impl\t{key}").unwrap();
                if let Some(t) = self.c.items.get(&key) {
                    self.seen.insert(format!("item {key}"));
                    let t = t.clone();
                    self.ins(range(m.brace_token.span.open()).1, format!("\n{t}"));
                }
                for a in &m.attrs {
                    self.visit_attribute(a);
                }
                self.path.push(key);
                let txt = |r: (usize, usize)| self.src[r.0..r.1].to_string();
                self.head = (
                    if m.generics.lt_token.is_some() { format!("impl{}", txt(range(m.generics.span()))) } else { "impl".into() },
                    txt(range(m.self_ty.span())),
                    m.generics.where_clause.as_ref().map(|w| txt(range(w.span()))).unwrap_or_default(),
                );
                for it in &m.items {
                    self.visit_impl_item(it);
                }
                self.path.pop();
                let after = std::mem::take(&mut self.after);
                if !after.is_empty() {
                    self.ins(r.1, format!("\n{after}"));
                }
                return;
            }
            syn::Item::Trait(t) => {
                let key = format!("trait {}", t.ident);
                if self.c.drops.contains(&key) {
                    self.drop_item(r, key);
                    return;
                }
                writeln!(self.report, "trait\t{key}").unwrap();
                if let Some(s) = self.c.items.get(&key) {
                    self.seen.insert(format!("item {key}"));
                    let s = s.clone();
                    self.ins(range(t.brace_token.span.open()).1, format!("\n{s}"));
                }
                for a in &t.attrs {
                    self.visit_attribute(a);
                }
                self.path.push(key);
                for it in &t.items {
                    self.visit_trait_item(it);
                }
                self.path.pop();
                return;
            }
            syn::Item::Struct(s) => {
                writeln!(self.report, "struct\t{}", s.ident).unwrap();
                if let Some(want) = self.c.attrs.get(&s.ident.to_string()) {
                    self.seen.insert(format!("attr {}", s.ident));
                    if !s.attrs.iter().any(|a| flat(&a.meta) == *want) {
                        writeln!(self.report, "missing\tstruct {}\tno #[{want}]", s.ident).unwrap();
                    }
                }
            }
            other => {
                writeln!(self.report, "other\t{}", flat(other).chars().take(80).collect::<String>()).unwrap();
            }
        }
        visit::visit_item(self, i);
    }

    fn visit_impl_item_const(&mut self, k: &'ast syn::ImplItemConst) {
        for a in &k.attrs {
            self.visit_attribute(a);
        }
        let key = self.key(&k.ident.to_string());
        let Some(spec) = self.c.fns.get(&key) else { return };
        self.seen.insert(key.clone());
        // Verus does not evaluate calls in constants: the constant is opaque, and its expression becomes a function.
        self.ins(range(k.span()).0, "#[verifier::external_body]\n");
        let e = range(k.expr.span());
        let (generics, ty, clause) = self.head.clone();
        self.after.push_str(&format!(
            "{generics} {ty} {clause} {{\n// >>> {key}\nfn const_{}() -> ({}: {})\n{}{{\n{}    {}\n}}\n}}\n",
            k.ident.to_string().to_lowercase(),
            spec.ret.clone().unwrap_or("r".into()),
            flat(&k.ty),
            spec.spec,
            if smoke() { format!("{}{SMOKE}", spec.entry) } else { spec.entry.clone() },
            &self.src[e.0..e.1]
        ));
        writeln!(self.report, "fn\t{key}\tcontract\t1\t\t0").unwrap();
    }

    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        for a in &f.attrs {
            self.visit_attribute(a);
        }
        let r = range(f.span());
        let start = f.attrs.last().map(|a| range(a.span()).1).unwrap_or(r.0);
        self.function(r, start, &f.sig, Some(&f.block), None);
    }

    fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
        for a in &f.attrs {
            self.visit_attribute(a);
        }
        let r = range(f.span());
        let start = f.attrs.last().map(|a| range(a.span()).1).unwrap_or(r.0);
        self.function(r, start, &f.sig, f.default.as_ref(), f.semi_token.map(|s| s.span()));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("source");
    let mut contract = parse_contract(&std::fs::read_to_string(&a[2]).expect("contract"));
    let file = syn::parse_file(&src).unwrap_or_else(|e| {
        eprintln!("cannot parse {}: {e}", a[1]);
        std::process::exit(3)
    });
    // Fields that the contract mentions under other names.
    let mut renames = String::new();
    for i in &file.items {
        let syn::Item::Struct(s) = i else { continue };
        let Some(want) = contract.fields.get(&s.ident.to_string()) else { continue };
        let have: Vec<String> = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect();
        if want.len() == have.len() && want.iter().any(|w| !have.contains(w)) {
            let map: BTreeMap<String, String> = want.iter().cloned().zip(have).filter(|(w, h)| w != h).collect();
            contract.fns = contract.fns.iter().map(|(k, f)| (k.clone(), f.renamed(&map, true))).collect();
            contract.items = contract.items.iter().map(|(k, t)| (k.clone(), words(t, &map, true))).collect();
            for k in contract.fns.keys() {
                writeln!(renames, "shape\t{k}\tfields renamed {map:?}").unwrap();
            }
        }
    }
    let mut x = X { src: &src, c: &contract, edits: vec![], path: vec![], seen: BTreeSet::new(), report: renames, head: Default::default(), after: String::new() };
    x.visit_file(&file);
    for k in contract.fns.keys() {
        if !x.seen.contains(k) {
            writeln!(x.report, "missing\t{k}").unwrap();
        }
    }
    for k in contract.attrs.keys() {
        if !x.seen.contains(&format!("attr {k}")) {
            writeln!(x.report, "missing\tstruct {k}").unwrap();
        }
    }
    for k in contract.items.keys() {
        if !x.seen.contains(&format!("item {k}")) {
            writeln!(x.report, "missing\titem {k}").unwrap();
        }
    }
    let mut edits = std::mem::take(&mut x.edits);
    edits.sort_by_key(|(p, n, e)| (*p, matches!(e, Edit::Del(_)) as usize, *n));
    let mut out = String::new();
    let mut at = 0;
    let piece = |out: &mut String, s: &str, report: &mut String| {
        let mut s = s.to_string();
        for (from, to) in &contract.replace {
            if s.contains(from.as_str()) {
                writeln!(report, "replaced\t{from}\t{to}").unwrap();
                s = s.replace(from.as_str(), to);
            }
        }
        out.push_str(&s);
    };
    for (p, _, e) in &edits {
        if *p > at {
            piece(&mut out, &src[at..*p], &mut x.report);
            at = *p;
        }
        match e {
            Edit::Ins(s) => {
                if *p >= at {
                    out.push_str(s)
                }
            }
            Edit::Del(n) => at = at.max(p + n),
        }
    }
    piece(&mut out, &src[at..], &mut x.report);
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], x.report).unwrap();
}
