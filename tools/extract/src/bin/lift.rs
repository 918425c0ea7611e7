//! Mechanical lifting of what the derive macros generate into a file Verus accepts.
//!
//!   lift EXPANDED SHAPES PARTS ASSUME OUT REPORT
//!
//! EXPANDED is rustc's own expansion (`-Zunpretty=expanded`) of a crate whose structs derive the
//! crevice traits on fields of placeholder types T0, T1, ...; SHAPES lists each struct and the GLSL
//! names of its fields; PARTS is a comma-separated subset of std140,std430,glsl; ASSUME lists the
//! functions (by key) to take over by contract only.
//!
//! For every struct the generated items are rewritten like this, and in no other way:
//!
//! * T0, T1, ... become generic parameters, bound by the layout's trait, of every function and
//!   struct, and are passed on at every use of one;
//! * `::crevice::` becomes `crate::`;
//! * the functions of the trait impl become functions of an inherent impl, with `Self::Output`
//!   written out (a trait impl would need ALIGNMENT as a constant, which Verus cannot evaluate);
//! * the expressions of ALIGNMENT, NAME, FIELDS and of the padding array lengths become bodies of
//!   functions;
//! * padding arrays `[u8; E]` become values of the opaque type Pad (E is under contract in
//!   `members`);
//! * attributes, visibility, and derived Debug/Clone impls are dropped; members become public; `unsafe impl Pod` and
//!   `Zeroable` stay (they have no members), `unsafe impl Std140` keeps only its name (ALIGNMENT: see above).
//!
//! Contracts are added as generated below.
use proc_macro2::{Delimiter, Group, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn flat<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

struct File {
    structs: BTreeMap<String, syn::ItemStruct>,
    fns: BTreeMap<String, syn::ItemFn>,
    impls: Vec<syn::ItemImpl>,
}

impl File {
    fn impl_of(&self, tr: &str, ty: &str) -> Option<&syn::ItemImpl> {
        self.impls
            .iter()
            .find(|i| i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == tr) && flat(&i.self_ty) == ty)
    }
}

fn const_expr(i: &syn::ItemImpl, name: &str) -> Option<syn::Expr> {
    i.items.iter().find_map(|x| match x {
        syn::ImplItem::Const(c) if c.ident == name => Some(c.expr.clone()),
        _ => None,
    })
}
fn method<'a>(i: &'a syn::ItemImpl, name: &str) -> Option<&'a syn::ImplItemFn> {
    i.items.iter().find_map(|x| match x {
        syn::ImplItem::Fn(c) if c.sig.ident == name => Some(c),
        _ => None,
    })
}

/// The rewriting of names; works on tokens, so it does not depend on what the expressions look like.
struct Names<'a> {
    fns: &'a BTreeMap<String, syn::ItemFn>,
    generated: &'a str,
    generics: &'a str,
    called: BTreeSet<String>,
}

impl<'a> Names<'a> {
    fn lift<T: ToTokens>(&mut self, t: &T) -> String {
        self.stream(t.to_token_stream()).to_string()
    }
    fn with_generics(&self, name: &str) -> TokenStream {
        format!("{name}{}", if self.generics.is_empty() { String::new() } else { format!("::<{}>", self.generics) }).parse().unwrap()
    }
    fn stream(&mut self, ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let is_colons = |i: usize| {
            matches!((v.get(i), v.get(i + 1)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b)))
                if a.as_char() == ':' && a.spacing() == Spacing::Joint && b.as_char() == ':')
        };
        let ident = |i: usize| match v.get(i) {
            Some(TokenTree::Ident(x)) => x.to_string(),
            _ => String::new(),
        };
        let punct = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if is_colons(i) && ident(i + 2) == "crevice" && is_colons(i + 3) {
                out.extend([TokenTree::Ident(Ident::new("crate", Span::call_site()))]);
                i += 3;
                continue;
            }
            if ident(i) == "Self" && is_colons(i + 1) && ident(i + 3) == "Output" {
                out.extend(self.with_generics(self.generated));
                i += 4;
                continue;
            }
            let called = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
            let qualified = i > 0 && (punct(i - 1, '.') || punct(i - 1, ':') || ident(i - 1) == "fn");
            let name = ident(i);
            if !name.is_empty() && !qualified && name == self.generated {
                out.extend(self.with_generics(&name));
            } else if !name.is_empty() && !qualified && called && self.fns.contains_key(&name) {
                self.called.insert(name.clone());
                out.extend(self.with_generics(&name));
            } else if let TokenTree::Group(g) = &v[i] {
                out.extend([TokenTree::Group(Group::new(g.delimiter(), self.stream(g.stream())))]);
            } else {
                out.extend([v[i].clone()]);
            }
            i += 1;
        }
        out
    }
}

struct Job<'a> {
    file: &'a File,
    assume: &'a BTreeSet<String>,
    out: String,
    report: String,
}

impl<'a> Job<'a> {
    fn row(&mut self, s: String) {
        self.report.push_str(&s);
        self.report.push('\n');
    }
    /// One function: key, signature, clauses, text at the start of the body, body (with or without braces).
    fn function(&mut self, key: &str, sig: &str, spec: &str, entry: &str, body: &str, contract: bool) {
        writeln!(self.out, "// >>> {key}").unwrap();
        if self.assume.contains(key) {
            writeln!(self.out, "#[verifier::external_body]").unwrap();
        }
        if contract && std::env::var_os("VERIF_SMOKE").is_some() {
            writeln!(self.out, "{sig}\n{spec}{{\n{entry}let smoke = {{\n{body}\n}};\nproof {{ assert(false); }}\nsmoke\n}}").unwrap();
        } else {
            writeln!(self.out, "{sig}\n{spec}{{\n{entry}{body}\n}}").unwrap();
        }
        self.row(format!("fn\t{key}\t{}\t{}\t\t0", if contract { "contract" } else { "bare" }, body.lines().count().max(1)));
    }
    fn missing(&mut self, key: &str, why: &str) {
        self.row(format!("missing\t{key}\t{why}"));
    }
}

/// Splits a block into its statements' text.
fn inside(b: &syn::Block) -> TokenStream {
    b.stmts.iter().map(|s| s.to_token_stream()).collect()
}

fn layout(job: &mut Job, name: &str, num: &str, min: u32, tag: &str) {
    let key = |k: &str| format!("{name} std{num} {k}");
    let s = &job.file.structs[name];
    let n = s.fields.len();
    let fields: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
    let types: Vec<String> = s.fields.iter().map(|f| flat(&f.ty)).collect();
    let args = types.join(", ");
    let bounds = types.iter().map(|t| format!("{t}: crate::std{num}::AsStd{num}")).collect::<Vec<_>>().join(", ");
    let (ga, gb) = if n == 0 { (String::new(), String::new()) } else { (format!("::<{args}>"), format!("<{bounds}>")) };
    let ta = if n == 0 { String::new() } else { format!("<{args}>") };

    let Some(as_impl) = job.file.impl_of(&format!("AsStd{num}"), name) else {
        return job.missing(&key("form"), "no implementation generated");
    };
    let generated = as_impl.items.iter().find_map(|x| match x {
        syn::ImplItem::Type(t) if t.ident == "Output" => Some(flat(&t.ty)),
        _ => None,
    });
    let Some(generated) = generated.filter(|g| job.file.structs.contains_key(g)) else {
        return job.missing(&key("form"), "the form is not a generated struct");
    };
    let form = &job.file.structs[&generated];
    let reprs: Vec<String> = form.attrs.iter().filter(|a| a.path().is_ident("repr")).map(|a| flat(&a.meta)).collect();
    if reprs != ["repr(C)"] {
        return job.missing(&key("form"), "the form is not repr(C)");
    }
    let fns = &job.file.fns;
    let mut names = Names { fns, generated: &generated, generics: &args, called: BTreeSet::new() };

    // The members of the form.
    let mut members = vec![]; // (name, Some(length expression) | None, type text)
    for f in &form.fields {
        let id = f.ident.as_ref().unwrap().to_string();
        match &f.ty {
            syn::Type::Array(a) if flat(&a.elem) == "u8" => members.push((id, Some(a.len.clone()), String::new())),
            t => members.push((id, None, names.lift(t))),
        }
    }
    let regular = members.len() == 2 * n
        && members.iter().enumerate().all(|(i, m)| if i % 2 == 0 { m.1.is_none() && m.0 == fields[i / 2] } else { m.1.is_some() });

    let o = &mut job.out;
    writeln!(o, "pub mod {}_{num} {{", name.to_lowercase()).unwrap();
    writeln!(o, "use vstd::prelude::*;\nuse crate::model::*;\nuse crate::derived::*;\nuse crate::bytemuck::{{is_zero, Pad, pad_bytes}};").unwrap();
    writeln!(o, "use crate::std{num}::{{AsStd{num}, Std{num}}};\nuse crate::std{num}::spec::fld;").unwrap();
    let seq = |f: &dyn Fn(usize) -> String| format!("seq![{}]", (0..n).map(f).collect::<Vec<_>>().join(", "));
    writeln!(o, "pub open spec fn fs{gb}() -> Seq<Fld> {{ {} }}", if n == 0 { "Seq::empty()".into() } else { seq(&|k| format!("fld::<{}>()", types[k])) }).unwrap();
    writeln!(o, "pub open spec fn ok{gb}() -> bool {{ wf(fs{ga}()) && fits({min}, fs{ga}()) }}").unwrap();

    // What follows from the field list, written out field by field: what holds of the list, of each field, and of
    // the largest of the minimum and the alignments, as a list.
    let top = |s: &str| format!("crate::internal::max_upto({s}, {}) == salign({min}, fs{ga}(), {n})", n + 1);
    let mut all = format!("s.len() == {} && s[0] == {min}", n + 1);
    let mut steps = String::from("        assert(crate::internal::max_upto(s, 0) == 0);\n        assert(crate::internal::max_upto(s, 1) == s[0]);\n");
    let mut each: Vec<String> = vec![];
    for k in 0..n {
        let fk = format!("fld::<{}>()", types[k]);
        let mut ens = String::new();
        writeln!(ens, "        {fk}.align >= 1, {fk}.size >= 0, fs{ga}()[{k}] == {fk},").unwrap();
        if k == 0 {
            writeln!(ens, "        end(fs{ga}(), 1) == {fk}.size,").unwrap();
        } else {
            writeln!(ens, "        0 <= pad_to(end(fs{ga}(), {k}), {fk}.align) < {fk}.align,").unwrap();
            writeln!(ens, "        end(fs{ga}(), {}) == end(fs{ga}(), {k}) + pad_to(end(fs{ga}(), {k}), {fk}.align) + {fk}.size,", k + 1).unwrap();
        }
        writeln!(ens, "        0 <= end(fs{ga}(), {}) <= end(fs{ga}(), {n}),", k + 1).unwrap();
        if k + 1 < n {
            writeln!(ens, "        pad_after({min}, fs{ga}(), {k}) == pad_to(end(fs{ga}(), {}), fld::<{}>().align),", k + 1, types[k + 1]).unwrap();
        } else {
            writeln!(ens, "        pad_after({min}, fs{ga}(), {k}) == pad_to(end(fs{ga}(), {n}), salign({min}, fs{ga}(), {n})),").unwrap();
        }
        writeln!(ens, "        salign({min}, fs{ga}(), {}) == larger(salign({min}, fs{ga}(), {k}), {fk}.align),", k + 1).unwrap();
        let mut prf = format!("    hide(crate::model::pad_to);\n    let f = fs{ga}();\n    lemma_min();\n    lemma_salign({min}, f, {n});\n");
        writeln!(prf, "    lemma_end(f, {k});\n    lemma_ends(f, {0});\n    lemma_end(f, {0});\n    assert(f[{k}] == {fk});\n    assert(salign({min}, f, {0}) == larger(salign({min}, f, {k}), {fk}.align));", k + 1).unwrap();
        if k == 0 {
            writeln!(prf, "    assert(end(f, 0) == 0);\n    lemma_pad(0, {fk}.align);\n    vstd::arithmetic::div_mod::lemma_small_mod(0, {fk}.align as nat);").unwrap();
        }
        writeln!(o, "proof fn fact_{k}{gb}()\n    requires ok{ga}()\n    ensures\n{ens}{{\n{prf}}}").unwrap();
        write!(all, " && s[{}] == {fk}.align", k + 1).unwrap();
        writeln!(steps, "        assert(crate::internal::max_upto(s, {}) == larger(crate::internal::max_upto(s, {}), s[{}] as int));", k + 2, k + 1, k + 1).unwrap();
        each.push(ens);
    }
    let list = format!("        fs{ga}().len() == {n},\n        is_pow2({min}),\n        end(fs{ga}(), 0) == 0,\n        0 <= end(fs{ga}(), {n}) <= usize::MAX,\n        salign({min}, fs{ga}(), 0) == {min},\n");
    writeln!(o, "proof fn fact_list{gb}()\n    requires ok{ga}()\n    ensures\n{list}{{\n    hide(crate::model::pad_to);\n    let f = fs{ga}();\n    lemma_min();\n    lemma_salign({min}, f, {n});\n    lemma_end(f, {n});\n    lemma_pad(end(f, {n}), salign({min}, f, {n}));\n}}").unwrap();
    let largest = format!("        forall|s: Seq<usize>| {all} ==> #[trigger] {},\n", top("s"));
    let calls = |upto: usize| (0..upto).map(|k| format!(" fact_{k}{ga}();")).collect::<String>();
    writeln!(o, "proof fn fact_top{gb}()\n    requires ok{ga}()\n    ensures\n{largest}{{\n    hide(crate::model::pad_to); hide(end); hide(pad_after);\n    fact_list{ga}();{}\n    assert forall|s: Seq<usize>| {all} implies {} by {{\n{steps}    }}\n}}", calls(n), top("s")).unwrap();
    writeln!(o, "proof fn facts{gb}()\n    requires ok{ga}()\n    ensures\n{list}{}{largest}{{\n    hide(crate::model::pad_to); hide(end); hide(off); hide(salign); hide(pad_after); hide(crate::internal::max_upto);\n    fact_list{ga}();{} fact_top{ga}();\n}}", each.concat(), calls(n)).unwrap();
    // Everything the proofs need is in these; the definitions only cost the solver time.
    let hidden = "    hide(crate::model::pad_to); hide(end); hide(off); hide(salign); hide(pad_after); hide(crate::internal::max_upto);\n";
    let entry = format!("{hidden}    proof {{ facts{ga}(); }}\n");
    // A padding is about the fields before it and the next one (and the last about the struct's alignment).
    let entry_of = |k: usize| if k + 1 < n { format!("{hidden}    proof {{ fact_list{ga}();{} }}\n", calls(k + 2)) } else { entry.clone() };
    let req = format!("    requires ok{ga}()\n");

    // ALIGNMENT
    match job.file.impl_of(&format!("Std{num}"), &generated).and_then(|i| const_expr(i, "ALIGNMENT")) {
        Some(e) => {
            let e = names.lift(&e);
            job.function(&key("ALIGNMENT"), &format!("fn alignment{gb}() -> (r: usize)"),
                &format!("{req}    ensures\n        r == salign({min}, fs{ga}(), {n}), // [{tag}]\n"), &entry, &e, true);
        }
        None => job.missing(&key("ALIGNMENT"), "no constant generated"),
    }
    // The members and their padding.
    let mut pads: BTreeMap<String, usize> = BTreeMap::new();
    if regular {
        let mut body = String::new();
        let mut ms = vec![];
        for (i, (_, len, ty)) in members.iter().enumerate() {
            match len {
                Some(e) => {
                    if let syn::Expr::Call(c) = e {
                        if c.args.is_empty() && fns.contains_key(&flat(&c.func)) {
                            // A function used for several paddings has no single contract.
                            if pads.insert(flat(&c.func), i / 2).is_some() {
                                pads.insert(flat(&c.func), usize::MAX);
                            }
                        }
                    }
                    writeln!(body, "    let e{}: usize = {};", i / 2, names.lift(e)).unwrap();
                    ms.push(format!("        Mem {{ size: e{} as int, align: 1 }},\n", i / 2));
                }
                None => ms.push(format!("        Mem {{ size: vstd::layout::size_of::<{ty}>() as int, align: vstd::layout::align_of::<{ty}>() as int }},\n")),
            }
        }
        let list = if n == 0 { "Seq::<Mem>::empty()".to_string() } else { format!("seq![\n{}    ]", ms.join("")) };
        let cases: String = (0..n).map(|k| format!("            if k == {k} {{ assert(ms[{}].size == fld::<{t}>().size && ms[{}].align == fld::<{t}>().ralign); assert(ms[{}].size == e{k} && ms[{}].align == 1); }}\n",
            2 * k, 2 * k, 2 * k + 1, 2 * k + 1, t = types[k])).collect();
        writeln!(body, "    let ghost ms = {list};\n    proof {{\n        assert forall|k: int| 0 <= k < {n} implies (#[trigger] ms[2 * k]).size == fs{ga}()[k].size && ms[2 * k].align == fs{ga}()[k].ralign\n            && ms[2 * k + 1].size == pad_after({min}, fs{ga}(), k) && ms[2 * k + 1].align == 1 by {{\n{cases}        }}\n        lemma_layout({min}, fs{ga}(), ms);\n    }}\n    Ghost(ms)").unwrap();
        let f = format!("{min}, fs{ga}(), ms@");
        job.function(&key("members"), &format!("fn members{gb}() -> (ms: Ghost<Seq<Mem>>)"),
            &format!("{req}    ensures\n        laid_out({f}), // [{tag}]\n        no_gaps(ms@), // [C04]\n        nests({f}), // [{tag}]\n"), &entry, &body, true);
    } else {
        job.missing(&key("members"), "the members are not the fields, each followed by its padding");
    }
    // The form as a type, and the conversions.
    let o = &mut job.out;
    let decl: String = members.iter().map(|(id, len, ty)| format!("    pub {id}: {},\n", if len.is_some() { "Pad" } else { ty })).collect();
    writeln!(o, "// >>> {}\n#[repr(C)]\npub struct {generated}{gb} {{\n{decl}}}", key("form")).unwrap();
    let orig: String = (0..n).map(|k| format!("    pub {}: {},\n", fields[k], types[k])).collect();
    writeln!(o, "pub struct {name}{ta} {{\n{orig}}}").unwrap();
    writeln!(o, "unsafe impl{gb} crate::bytemuck::Zeroable for {generated}{ta} {{}}").unwrap();
    let zero: String = members.iter().map(|m| format!(" && is_zero(s.{})", m.0)).collect();
    writeln!(o, "// ASSUMED: the members of an all-zero struct are all-zero.\n#[verifier::external_body]\nbroadcast proof fn axiom_zero{gb}(s: {generated}{ta})\n    ensures #[trigger] is_zero(s) ==> true{zero}\n{{}}").unwrap();
    let pick = |pad: bool| members.iter().filter(|m| m.1.is_some() == pad).map(|m| m.0.clone()).collect::<Vec<_>>();
    let (vals, padn) = (pick(false), pick(true));
    let list = |v: Vec<String>| if v.is_empty() { "Seq::<Seq<u8>>::empty()".to_string() } else { format!("seq![{}]", v.join(", ")) };
    let bs = list(vals.iter().map(|m| format!("pod_bytes(s.{m})")).collect());
    let ps = list(padn.iter().map(|m| format!("pad_bytes(s.{m})")).collect());
    if regular {
        let lens: String = (0..n).map(|k| format!("        pad_bytes(s.{}).len() == pad_after({min}, fs{ga}(), {k}),\n", padn[k])).collect();
        writeln!(o, "// ASSUMED: a repr(C) struct without gaps (obligation of `members`) is its members' bytes in order; a padding\n// array has the length that `members` proves.\n#[verifier::external_body]\nproof fn axiom_bytes{gb}(s: {generated}{ta})\n    ensures\n        pod_bytes(s) == bytes_from({bs}, {ps}, {n}),\n{lens}{{}}").unwrap();
    }
    for (m, what) in [(format!("as_std{num}"), "as"), (format!("from_std{num}"), "from")] {
        let Some(f) = method(as_impl, &m) else {
            job.missing(&key(what), "no function generated");
            continue;
        };
        let body = names.lift(&inside(&f.block));
        let inputs = names.lift(&f.sig.inputs);
        writeln!(job.out, "impl{gb} {name}{ta} {{").unwrap();
        if what == "as" {
            let eqs: String = fields.iter().filter(|x| vals.contains(x)).map(|x| format!("        r.{x} == self.{x}.spec_as(), // [C05 C06]\n")).collect();
            let zer: String = padn.iter().map(|x| format!("        is_zero(r.{x}), // [C04]\n")).collect();
            let mut spec = format!("    ensures\n        true,\n{eqs}{zer}");
            let mut body = body;
            if regular {
                // Names the result to state what its bytes are.
                let want = list(fields.iter().map(|x| format!("pod_bytes(self.{x}.spec_as())")).collect());
                writeln!(spec, "        ok{ga}() ==> glsl_image({min}, fs{ga}(), {want}, pod_bytes(r)), // [C04 C06]").unwrap();
                let mut lens = String::new();
                for k in 0..n {
                    writeln!(lens, "            axiom_pod_len(s.{}); assert(bs[{k}].len() == f[{k}].size); assert(ps[{k}].len() == pad_after({min}, f, {k})); assert(all_zero(ps[{k}]));", fields[k]).unwrap();
                }
                body = format!("    let s = {{ {body} }};\n    proof {{ if ok{ga}() {{\n            let f = fs{ga}();\n            let bs = {bs};\n            let ps = {ps};\n            facts{ga}();\n            axiom_bytes{ga}(s);\n{lens}            assert(bs =~= {want});\n            lemma_image({min}, f, bs, ps);\n    }} }}\n    s");
            }
            job.function(&key(what), &format!("fn {m}({inputs}) -> (r: {generated}{ta})"), &spec,
                "    broadcast use {axiom_zero, crate::bytemuck::axiom_pad_zero};\n", &body, true);
        } else {
            let arg = f.sig.inputs.first().and_then(|a| match a {
                syn::FnArg::Typed(t) => Some(flat(&t.pat)),
                _ => None,
            });
            let arg = arg.unwrap_or_default();
            let eqs: String = (0..n).filter(|k| vals.contains(&fields[*k])).map(|k| format!("        r.{0} == {1}::spec_from({arg}.{0}), // [C05 C06]\n", fields[k], types[k])).collect();
            job.function(&key(what), &format!("fn {m}({inputs}) -> (r: Self)"), &format!("    ensures\n        true,\n{eqs}"), "", &body, true);
        }
        writeln!(job.out, "}}").unwrap();
    }
    // The byte view.
    let view = job.file.impls.iter().find(|i| i.trait_.is_none() && flat(&i.self_ty) == generated && method(i, "as_bytes").is_some());
    if let Some(f) = view.and_then(|i| method(i, "as_bytes")) {
        let body = names.lift(&inside(&f.block));
        let inputs = names.lift(&f.sig.inputs);
        let o = &mut job.out;
        writeln!(o, "impl{gb} Clone for {generated}{ta} {{\n#[verifier::external_body]\nfn clone(&self) -> Self {{ *self }}\n}}\nimpl{gb} Copy for {generated}{ta} {{}}").unwrap();
        writeln!(o, "unsafe impl{gb} crate::bytemuck::Pod for {generated}{ta} {{}}\n// Its ALIGNMENT is under contract above; the byte view does not depend on it.").unwrap();
        writeln!(o, "unsafe impl{gb} Std{num} for {generated}{ta} {{\n#[verifier::external_body]\nconst ALIGNMENT: usize = 0;\n}}\nimpl{gb} {generated}{ta} {{").unwrap();
        job.function(&key("view"), &format!("fn as_bytes({inputs}) -> (r: &[u8])"),
            "    ensures\n        r@ == pod_bytes(*self), // [C04]\n        r@.len() == vstd::layout::size_of::<Self>(), // [C04]\n", "", &body, true);
        writeln!(job.out, "}}").unwrap();
    } else {
        job.missing(&key("view"), "no byte view generated");
    }
    // There and back: a consequence of the two contracts, for field types that themselves come back.
    if method(as_impl, &format!("as_std{num}")).is_some() && method(as_impl, &format!("from_std{num}")).is_some() {
        let back: String = types.iter().map(|t| format!("        forall|x: {t}| {t}::spec_from(#[trigger] x.spec_as()) == x,\n")).collect();
        let same: String = fields.iter().map(|x| format!("        r.{x} == v.{x}, // [C05]\n")).collect();
        job.function(&key("there and back"), &format!("fn there_and_back{gb}(v: &{name}{ta}) -> (r: {name}{ta})"),
            &format!("    requires\n        true,\n{back}    ensures\n        true,\n{same}"), "", &format!("    {name}{ga}::from_std{num}(v.as_std{num}())"), true);
    }
    // Every function these call, directly or not.
    let mut done = BTreeSet::new();
    while let Some(f) = names.called.iter().find(|f| !done.contains(*f)).cloned() {
        done.insert(f.clone());
        let item = &fns[&f];
        let body = names.lift(&inside(&item.block));
        let inputs = names.lift(&item.sig.inputs);
        let ret = match &item.sig.output {
            syn::ReturnType::Type(_, t) => names.lift(t),
            _ => "()".into(),
        };
        let c = if item.sig.constness.is_some() { "const " } else { "" };
        let sig = format!("{c}fn {f}{gb}({inputs}) -> (r: {ret})");
        match pads.get(&f) {
            Some(&k) if k != usize::MAX && ret == "usize" => job.function(&key(&format!("padding {k}")), &sig,
                &format!("{req}    ensures\n        r == pad_after({min}, fs{ga}(), {k}), // [{tag}]\n"), &entry_of(k), &body, true),
            _ => job.function(&key(&f), &sig, &req, &entry, &body, false),
        }
    }
    writeln!(job.out, "}}").unwrap();
}

fn glsl(job: &mut Job, name: &str, want: &[String]) {
    let s = &job.file.structs[name];
    let types: Vec<String> = s.fields.iter().map(|f| flat(&f.ty)).collect();
    let n = types.len();
    let gb = if n == 0 { String::new() } else { format!("<{}>", types.iter().map(|t| format!("{t}: crate::glsl::Glsl")).collect::<Vec<_>>().join(", ")) };
    let none = BTreeMap::new();
    let mut names = Names { fns: &none, generated: "", generics: "", called: BTreeSet::new() };
    writeln!(job.out, "pub mod {}_glsl {{\nuse vstd::prelude::*;", name.to_lowercase()).unwrap();
    match job.file.impl_of("Glsl", name).and_then(|i| const_expr(i, "NAME")) {
        Some(e) => {
            let e = names.lift(&e);
            job.function(&format!("{name} glsl NAME"), "fn name() -> (r: &'static str)", &format!("    ensures\n        r@ == \"{name}\"@, // [C13]\n"), "", &e, true);
        }
        None => job.missing(&format!("{name} glsl NAME"), "no constant generated"),
    }
    match job.file.impl_of("GlslStruct", name).and_then(|i| const_expr(i, "FIELDS")) {
        Some(e) => {
            let e = names.lift(&e);
            let ens: String = (0..n).map(|k| format!("        r@[{k}].ty == {0}::NAME, // [C13]\n        r@[{k}].name@ == \"{1}\"@, // [C13]\n", types[k], want[k])).collect();
            job.function(&format!("{name} glsl FIELDS"), &format!("fn fields{gb}() -> (r: &'static [crate::glsl::GlslField])"),
                &format!("    ensures\n        r@.len() == {n}, // [C13]\n{ens}"), "", &e, true);
        }
        None => job.missing(&format!("{name} glsl FIELDS"), "no constant generated"),
    }
    writeln!(job.out, "}}").unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let parsed = syn::parse_file(&std::fs::read_to_string(&a[1]).expect("expansion")).unwrap_or_else(|e| {
        eprintln!("cannot parse {}: {e}", a[1]);
        std::process::exit(3)
    });
    let mut file = File { structs: BTreeMap::new(), fns: BTreeMap::new(), impls: vec![] };
    for i in parsed.items {
        match i {
            syn::Item::Struct(s) => {
                file.structs.insert(s.ident.to_string(), s);
            }
            syn::Item::Fn(f) => {
                file.fns.insert(f.sig.ident.to_string(), f);
            }
            syn::Item::Impl(i) => file.impls.push(i),
            _ => {}
        }
    }
    let parts: Vec<&str> = a[3].split(',').collect();
    let assume: BTreeSet<String> = std::fs::read_to_string(&a[4]).unwrap_or_default().lines().map(str::to_string).collect();
    let mut job = Job { file: &file, assume: &assume, out: String::new(), report: String::new() };
    for line in std::fs::read_to_string(&a[2]).expect("shapes").lines() {
        let mut w = line.split_whitespace();
        let name = w.next().unwrap();
        let want: Vec<String> = w.map(str::to_string).collect();
        if !file.structs.contains_key(name) {
            job.missing(name, "not in the expansion");
            continue;
        }
        for p in &parts {
            match *p {
                "std140" => layout(&mut job, name, "140", 16, "C01"),
                "std430" => layout(&mut job, name, "430", 1, "C02"),
                "glsl" => glsl(&mut job, name, &want),
                other => panic!("unknown part {other}"),
            }
        }
    }
    std::fs::write(&a[5], job.out).unwrap();
    std::fs::write(&a[6], job.report).unwrap();
}
