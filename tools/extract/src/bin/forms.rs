//! Mechanical lifting of the built-in vector and matrix forms, and of the conversions of every math library's types, into a
//! file Verus accepts.
//!
//!   forms EXPANDED ASSUME OUT REPORT
//!
//! EXPANDED is rustc's own expansion (`-Zunpretty=expanded`) of crevice with all math libraries on. What is taken from it, and
//! how it is rewritten:
//!
//! * the form structs of each layout (their members, names and types as they stand), and their impls of Std140/Std430 and Glsl;
//!   Debug, Clone and PartialEq impls are dropped (Clone is assumed to copy); attributes are dropped, repr(C) is checked for;
//! * the impls of AsStd140/AsStd430 and Glsl for mint, glam, cgmath and nalgebra types, token for token, except that
//!   `crate::std140::Vec2` (and the other forms) become `crate::forms::f140::Vec2`, and `bytemuck`, `mint`, `glam`, `cgmath`,
//!   `nalgebra` at the start of a path become stand-in modules of the same name.
//!
//! The stand-ins: mint's and cgmath's types as they declare them (public components), the others' opaque, with `From` to and from mint's
//! ASSUMED to be inverse to each other. What GLSL asks is computed here from the type's kind, component and number alone.
use proc_macro2::{Group, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn flat<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

// ---- what GLSL says --------------------------------------------------------------------------
const AXES: [&str; 4] = ["x", "y", "z", "w"];
#[derive(Clone, Copy, PartialEq)]
struct Kind {
    matrix: bool,
    n: usize,
    comp: &'static str,
}
impl Kind {
    fn scalar(self) -> usize {
        if self.comp == "f64" { 8 } else { 4 }
    }
    fn prefix(self) -> &'static str {
        match self.comp {
            "f32" => "",
            "f64" => "d",
            "i32" => "i",
            "u32" => "u",
            _ => "b",
        }
    }
    fn glsl(self) -> String {
        format!("{}{}{}", self.prefix(), if self.matrix { "mat" } else { "vec" }, self.n)
    }
    fn form(self) -> String {
        format!("{}{}{}", self.prefix().to_uppercase(), if self.matrix { "Mat" } else { "Vec" }, self.n)
    }
    fn column(self) -> Kind {
        Kind { matrix: false, ..self }
    }
    fn align(self, num: &str) -> usize {
        let a = self.scalar() * if self.n == 2 { 2 } else { 4 };
        if self.matrix && num == "140" { a.max(16) } else { a }
    }
    /// The distance of two columns.
    fn stride(self, num: &str) -> usize {
        (self.n * self.scalar()).div_ceil(self.align(num)) * self.align(num)
    }
    fn size(self, num: &str) -> usize {
        if self.matrix { self.n * self.stride(num) } else { self.n * self.scalar() }
    }
    /// Components in the order GLSL numbers them: (path, offset).
    fn parts(self, num: &str) -> Vec<(String, usize)> {
        let mut v = vec![];
        for c in 0..self.n {
            if !self.matrix {
                v.push((AXES[c].to_string(), c * self.scalar()));
                continue;
            }
            for r in 0..self.n {
                v.push((format!("{}.{}", AXES[c], AXES[r]), c * self.stride(num) + r * self.scalar()));
            }
        }
        v
    }
}
fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    for comp in ["f32", "i32", "u32", "bool", "f64"] {
        for n in 2..=4 {
            v.push(Kind { matrix: false, n, comp });
        }
    }
    for comp in ["f32", "f64"] {
        for n in 2..=4 {
            v.push(Kind { matrix: true, n, comp });
        }
    }
    v
}
/// Every supported type: (path, GLSL kind, the mint type it converts through).
fn types() -> Vec<(String, Kind, Option<String>)> {
    let mut v = vec![];
    let mint = |k: Kind, point: bool| {
        if k.matrix { format!("mint::ColumnMatrix{}<{}>", k.n, k.comp) } else { format!("mint::{}{}<{}>", if point { "Point" } else { "Vector" }, k.n, k.comp) }
    };
    for k in kinds() {
        for point in [false, true] {
            if point && (k.matrix || k.n == 4) {
                continue;
            }
            v.push((mint(k, point), k, None));
        }
    }
    for lib in ["cgmath", "nalgebra"] {
        for k in kinds() {
            for point in [false, true] {
                if point && (k.matrix || k.n == 4) {
                    continue;
                }
                let name = if k.matrix { "Matrix" } else if point { "Point" } else { "Vector" };
                v.push((format!("{lib}::{name}{}<{}>", k.n, k.comp), k, (lib != "cgmath").then(|| mint(k, point))));
            }
        }
    }
    for k in kinds() {
        if k.comp != "bool" {
            v.push((format!("glam::{}", k.form()), k, Some(mint(k, false))));
        }
    }
    v
}

// ---- the expansion ---------------------------------------------------------------------------
#[derive(Default)]
struct File {
    structs: BTreeMap<(String, String), syn::ItemStruct>, // (layout, name)
    impls: Vec<(String, syn::ItemImpl)>,                  // (outermost module, impl)
}
impl File {
    fn read(&mut self, outer: &str, items: Vec<syn::Item>) {
        for i in items {
            match i {
                syn::Item::Mod(m) => {
                    let o = if outer.is_empty() { m.ident.to_string() } else { outer.to_string() };
                    self.read(&o, m.content.map(|c| c.1).unwrap_or_default());
                }
                syn::Item::Struct(s) => {
                    self.structs.insert((outer.to_string(), s.ident.to_string()), s);
                }
                syn::Item::Impl(i) => self.impls.push((outer.to_string(), i)),
                _ => {}
            }
        }
    }
    fn impl_of(&self, outer: Option<&str>, tr: &str, ty: &str) -> Option<&syn::ItemImpl> {
        self.impls
            .iter()
            .find(|(o, i)| {
                outer.is_none_or(|x| x == o) && i.generics.params.is_empty() && i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == tr) && flat(&i.self_ty) == ty
            })
            .map(|x| &x.1)
    }
}

/// The rewriting of paths.
fn lift<T: ToTokens>(t: &T) -> String {
    rewrite(t.to_token_stream()).to_string()
}
fn rewrite(ts: TokenStream) -> TokenStream {
    let forms: BTreeSet<String> = kinds().iter().map(|k| k.form()).collect();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let colons = |i: usize| {
        matches!((v.get(i), v.get(i + 1)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b)))
            if a.as_char() == ':' && a.spacing() == Spacing::Joint && b.as_char() == ':')
    };
    let ident = |i: usize| match v.get(i) {
        Some(TokenTree::Ident(x)) => x.to_string(),
        _ => String::new(),
    };
    let word = |s: &str| TokenTree::Ident(Ident::new(s, Span::call_site()));
    let path = |s: &str| s.parse::<TokenStream>().unwrap();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        let starts = i < 2 || !colons(i - 2);
        let name = ident(i);
        if starts && name == "crate" && colons(i + 1) && (ident(i + 3) == "std140" || ident(i + 3) == "std430") && colons(i + 4) && forms.contains(&ident(i + 6)) {
            out.extend(path(&format!("crate::forms::f{}::{}", &ident(i + 3)[3..], ident(i + 6))));
            i += 7;
            continue;
        }
        if starts && name == "bytemuck" && colons(i + 1) {
            out.extend(path("crate::bytemuck"));
        } else if starts && ["mint", "glam", "cgmath", "nalgebra"].contains(&name.as_str()) && colons(i + 1) {
            out.extend(path("crate::forms"));
            out.extend(path("::"));
            out.extend([word(&name)]);
        } else if let TokenTree::Group(g) = &v[i] {
            out.extend([TokenTree::Group(Group::new(g.delimiter(), rewrite(g.stream())))]);
        } else {
            out.extend([v[i].clone()]);
        }
        i += 1;
    }
    out
}

/// Rust's size and alignment of a member's type.
fn known(num: &str, t: &str) -> Option<(usize, usize)> {
    let s = |t: &str| match t {
        "f32" | "i32" | "u32" | "Bool" => Some(4),
        "f64" => Some(8),
        _ => None,
    };
    if let Some(n) = s(t) {
        return Some((n, n));
    }
    if let Ok(syn::Type::Array(a)) = syn::parse_str::<syn::Type>(t) {
        let n = s(&flat(&a.elem))?;
        return Some((n * flat(&a.len).parse::<usize>().ok()?, n));
    }
    kinds().iter().find(|k| !k.matrix && k.form() == t).map(|k| (k.size(num), k.scalar()))
}

struct Job {
    file: File,
    assume: BTreeSet<String>,
    smoke: bool,
    out: String,
    report: String,
}

impl Job {
    fn row(&mut self, s: String) {
        self.report.push_str(&s);
        self.report.push('\n');
    }
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn missing(&mut self, key: &str, why: &str) {
        self.row(format!("missing\t{key}\t{why}"));
    }
    fn lemma(&mut self, key: &str, sig: &str, ensures: &[String], body: &str) {
        let a = if self.assume.contains(key) { "#[verifier::external_body]\n" } else { "" };
        let smoke = if self.smoke { "    assert(false); }" } else { "}" };
        let text = format!("// >>> {key}\n{a}pub proof fn {sig}\n    ensures\n{}{{\n{body}{smoke}\n", ensures.iter().map(|e| format!("        {e}\n")).collect::<String>());
        self.put(&text);
        self.row(format!("fn\t{key}\tcontract\t0\t\t0"));
    }
    /// An impl with the items as they stand; `extra` is put in front of them.
    fn implement(&mut self, key: &str, i: &syn::ItemImpl, extra: &str) {
        let (unsafety, tr, ty) = (i.unsafety.map_or("", |_| "unsafe "), lift(&i.trait_.as_ref().unwrap().1), lift(&i.self_ty));
        self.put(&format!("// >>> {key}\n{unsafety}impl {tr} for {ty} {{\n{extra}"));
        for x in &i.items {
            match x {
                syn::ImplItem::Type(t) => self.put(&format!("    type {} = {};", t.ident, lift(&t.ty))),
                syn::ImplItem::Const(c) => self.put(&format!("    const {}: {} = {};", c.ident, lift(&c.ty), lift(&c.expr))),
                syn::ImplItem::Fn(f) => {
                    let k = format!("{key}::{}", f.sig.ident);
                    let a = if self.assume.contains(&k) { "#[verifier::external_body]\n" } else { "" };
                    let stmts: TokenStream = f.block.stmts.iter().map(|s| s.to_token_stream()).collect();
                    let body = lift(&stmts);
                    let body = if self.smoke { format!("let smoke = {{ {body} }};\nproof {{ assert(false); }}\nsmoke") } else { body };
                    self.put(&format!("// >>> {k}\n{a}    {} {{\n        {body}\n    }}", lift(&f.sig)));
                    self.row(format!("fn\t{k}\tcontract\t{}\t\t0", f.block.stmts.len().max(1)));
                }
                other => self.put(&lift(other)),
            }
        }
        self.put(&format!("}}\n// >>> {key}"));
    }
}

fn layout(job: &mut Job, num: &str) {
    let mod_name = format!("std{num}");
    job.put(&format!("pub mod f{num} {{\nuse vstd::prelude::*;\nuse vstd::std_specs::convert::FromSpec;\nuse crate::model::*;\nuse crate::derived::*;\nuse crate::boolean::{{word, Bool}};\nuse crate::bytemuck::{{is_zero, Pod, Zeroable}};"));
    job.put(&format!("use crate::std{num}::{{AsStd{num}, Std{num}}};\nuse crate::glsl::Glsl;\nuse crate::bytemuck::zero;\nuse super::{{scalars, conv, axiom_zero_bytes}};"));
    let mut made: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    // Vectors first: matrices are made of them.
    for k in kinds() {
        let name = k.form();
        let key = format!("{mod_name} {name}");
        let Some(s) = job.file.structs.get(&(mod_name.clone(), name.clone())).cloned() else {
            job.missing(&format!("{key} layout"), "no such struct");
            continue;
        };
        let reprs: Vec<String> = s.attrs.iter().filter(|a| a.path().is_ident("repr")).map(|a| flat(&a.meta)).collect();
        let ms: Vec<(String, String)> = s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), flat(&f.ty).replace(';', "; "))).collect();
        if reprs != ["repr(C)"] || !(0..k.n).all(|c| ms.iter().any(|m| m.0 == AXES[c])) {
            job.missing(&format!("{key} layout"), "not a repr(C) struct of its components");
            continue;
        }
        let decl: String = ms.iter().map(|(a, t)| format!("    pub {a}: {t},\n")).collect();
        job.put(&format!("// >>> {key}\npub struct {name} {{\n{decl}}}"));
        job.put(&format!("impl Clone for {name} {{\n#[verifier::external_body]\nfn clone(&self) -> Self {{ *self }}\n}}\nimpl Copy for {name} {{}}"));
        for tr in ["Zeroable", "Pod"] {
            match job.file.impl_of(Some(&mod_name), tr, &name).cloned() {
                Some(i) => job.implement(&key, &i, ""),
                None => job.missing(&format!("{key} layout"), &format!("not {tr}")),
            }
        }
        match job.file.impl_of(Some(&mod_name), &format!("Std{num}"), &name).cloned() {
            Some(i) => job.implement(&key, &i, ""),
            None => {
                job.missing(&format!("{key} layout"), "not a form");
                continue;
            }
        }
        if num == "140" {
            if let Some(i) = job.file.impl_of(Some(&mod_name), "Glsl", &name).cloned() {
                job.implement(&key, &i, "");
            }
        }
        // What repr(C) makes of it.
        let list: Vec<String> = ms.iter().map(|(_, t)| format!("Mem {{ size: vstd::layout::size_of::<{t}>() as int, align: vstd::layout::align_of::<{t}>() as int }}")).collect();
        job.put(&format!("pub open spec fn ms_{name}() -> Seq<Mem> {{ seq![{}] }}", list.join(", ")));
        job.put(&format!("// ASSUMED: the repr(C) algorithm, and that a repr(C) struct without gaps (obligation of its layout) is its members' bytes in order.\n#[verifier::external_body]\nproof fn axiom_{name}()\n    ensures vstd::layout::size_of::<{name}>() == c_size(ms_{name}()), vstd::layout::align_of::<{name}>() == c_align(ms_{name}(), {n})\n{{}}", n = ms.len()));
        job.put(&format!("#[verifier::external_body]\nproof fn bytes_{name}(s: {name})\n    ensures pod_bytes(s) == {}\n{{}}", ms.iter().map(|m| format!("pod_bytes(s.{})", m.0)).collect::<Vec<_>>().join(" + ")));
        let zs: String = ms.iter().map(|m| format!(" && is_zero(s.{})", m.0)).collect();
        job.put(&format!("// ASSUMED: the members of an all-zero struct are all-zero.\n#[verifier::external_body]\nbroadcast proof fn zeros_{name}(s: {name})\n    ensures #[trigger] is_zero(s) ==> true{zs}\n{{}}"));
        made.insert(name.clone(), ms.clone());
        let n = ms.len();
        let mut ens = vec![
            format!("<{name} as Std{num}>::ALIGNMENT == {}, // [C03]", k.align(num)),
            format!("vstd::layout::size_of::<{name}>() == {}, // [C03]", k.size(num)),
            format!("({} as int) % (vstd::layout::align_of::<{name}>() as int) == 0, // [C03]", k.align(num)),
        ];
        for c in 0..k.n {
            let at = ms.iter().position(|m| m.0 == AXES[c]).unwrap();
            ens.push(format!("c_off(ms_{name}(), {at}) == {}, // [C03]", c * if k.matrix { k.stride(num) } else { k.scalar() }));
        }
        ens.push(format!("no_gaps(ms_{name}()), // [C04]"));
        let mut body = format!("    scalars();\n    axiom_{name}();\n    let ms = ms_{name}();\n    assert(c_end(ms, 0) == 0);\n    assert(c_align(ms, 0) == 1);\n");
        if k.matrix {
            body += &format!("    layout_{}();\n    axiom_{}();\n", k.column().form(), k.column().form());
        }
        let (mut at, mut most) = (0, 1);
        for (i, (_, t)) in ms.iter().enumerate() {
            if t.starts_with('[') {
                if let Ok(syn::Type::Array(a)) = syn::parse_str::<syn::Type>(t) {
                    body += &format!("    super::axiom_array::<{}, {{ {} }}>();\n", flat(&a.elem), flat(&a.len));
                }
            }
            // What the number comes to, where the member's type is one of the known ones.
            if let Some((s, a)) = known(num, t) {
                let pad = (a - at % a) % a;
                body += &format!("    assert(ms[{i}].size == {s} && ms[{i}].align == {a});\n    assert(pad_to({at}, {a}) == {pad}) by (compute);\n");
                at += pad + s;
                most = most.max(a);
                body += &format!("    assert(c_end(ms, {}) == {at});\n", i + 1);
            }
            body += &format!("    assert(c_end(ms, {j}) == up(c_end(ms, {i}), ms[{i}].align) + ms[{i}].size);\n    assert(c_align(ms, {j}) == larger(c_align(ms, {i}), ms[{i}].align));\n", j = i + 1);
        }
        body += &format!("    assert(pad_to({at}, {most}) == {}) by (compute);\n", (most - at % most) % most);
        ens.push(format!("vstd::layout::align_of::<{name}>() == {most}, // [C03]"));
        let cases: String = (0..n).map(|i| format!("            if k == {i} {{ assert(c_off(ms, {i}) == c_end(ms, {i})); }}\n")).collect();
        body += &format!("    assert forall|k: int| 0 <= k < ms.len() implies #[trigger] c_off(ms, k) == c_end(ms, k) by {{\n{cases}    }}\n");
        job.lemma(&format!("{key} layout"), &format!("layout_{name}()"), &ens, &body);
    }
    // The conversions.
    for (ty, k, via) in types() {
        let key = format!("{mod_name} {ty}");
        let f = k.form();
        let Some(ms) = made.get(&f).cloned() else { continue };
        let Some(i) = job.file.impl_of(None, &format!("AsStd{num}"), &ty).cloned() else {
            job.missing(&key, "no implementation of its own");
            continue;
        };
        let rty = format!("crate::forms::{ty}").replace('<', "::<");
        let own = format!("crate::forms::{ty}");
        let (sa, sf) = match &via {
            None => {
                let inner: String = ms.iter().map(|(m, _)| if AXES[..k.n].contains(&m.as_str()) { format!("{m}: self.{m}.spec_as(), ") } else { format!("{m}: zero(), ") }).collect();
                let column = own.replace("ColumnMatrix", "Vector").replace("Matrix", "Vector");
                let back: String = (0..k.n).map(|c| if k.matrix { format!("{0}: <{column} as AsStd{num}>::spec_from(val.{0}), ", AXES[c]) } else { format!("{0}: {1}::spec_from(val.{0}), ", AXES[c], k.comp) }).collect();
                (format!("{f} {{ {inner} }}"), format!("{own} {{ {back} }}").replace("<f32> {", "::<f32> {").replace("<f64> {", "::<f64> {").replace("<i32> {", "::<i32> {").replace("<u32> {", "::<u32> {").replace("<bool> {", "::<bool> {"))
            }
            Some(m) => {
                let m = format!("crate::forms::{m}");
                (format!("<{m} as FromSpec<{own}>>::from_spec(*self).spec_as()"), format!("<{own} as FromSpec<{m}>>::from_spec(<{m} as AsStd{num}>::spec_from(val))"))
            }
        };
        let extra = format!("    open spec fn spec_as(&self) -> {f} {{ {sa} }}\n    open spec fn spec_from(val: {f}) -> Self {{ {sf} }}");
        // What an all-zero form is, for the padding.
        let zeros = if ms.iter().any(|m| !AXES.contains(&m.0.as_str())) { format!("broadcast use zeros_{f};\n        ") } else { String::new() };
        let mut i = i;
        if !zeros.is_empty() && via.is_none() {
            for x in &mut i.items {
                if let syn::ImplItem::Fn(g) = x {
                    if g.sig.ident == format!("as_std{num}") {
                        // Put in as text below: it is a Verus statement.
                        g.block.stmts.insert(0, syn::parse_quote!(FORMS_ZEROS!();));
                    }
                }
            }
        }
        let at = job.out.len();
        job.implement(&key, &i, &extra);
        let text = job.out.split_off(at).replace("FORMS_ZEROS ! () ;", &zeros).replace("FORMS_ZEROS ! () ;", &zeros);
        job.out.push_str(&text);
        // The value comes back.
        let id: String = ty.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        let mut body = String::new();
        if k.comp == "bool" && via.is_none() {
            for c in 0..k.n {
                body += &format!("    crate::boolean::lemma_bool(v.{0}, f.{0});\n", AXES[c]);
            }
        }
        if let Some(m) = &via {
            let m = format!("crate::forms::{m}");
            body += &format!("    super::axiom_conv::<{own}, {m}>(v);\n    let w = <{m} as FromSpec<{own}>>::from_spec(v);\n    back_{}(w, f);\n", m["crate::forms::".len()..].chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect::<String>());
        } else if k.matrix {
            let v = format!("{}::Vector{}<{}>", ty.split("::").next().unwrap(), k.n, k.comp).chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect::<String>();
            for c in 0..k.n {
                body += &format!("    back_{v}(v.{0}, f.{0});\n", AXES[c]);
            }
        }
        let mut ens = vec![format!("<{own} as AsStd{num}>::spec_from(v.spec_as()) == v, // [C05]")];
        if k.comp == "bool" && via.is_none() {
            for c in 0..k.n {
                ens.push(format!("word(v.spec_as().{0}) == (if v.{0} {{ 1u32 }} else {{ 0u32 }}), // [C07]", AXES[c]));
                ens.push(format!("<{own} as AsStd{num}>::spec_from(f).{0} == (word(f.{0}) != 0), // [C07]", AXES[c]));
            }
        }
        job.lemma(&format!("{key} there and back"), &format!("back_{id}(v: {own}, f: {f})"), &ens, &body);
        let _ = &rty;
        // Its bytes.
        if via.is_none() {
            let s = k.scalar();
            let mut ens = vec![format!("pod_bytes(v.spec_as()).len() == {}, // [C04]", k.size(num))];
            let mut covered = vec![false; k.size(num)];
            let mut body = format!("    scalars();\n    layout_{f}();\n    let r = v.spec_as();\n    bytes_{f}(r);\n    axiom_pod_len(r);\n");
            if k.matrix {
                body += &format!("    layout_{}();\n", k.column().form());
            }
            for (m, t) in &ms {
                body += &format!("    axiom_pod_len(r.{m});\n");
                if !AXES.contains(&m.as_str()) {
                    if t.starts_with('[') {
                        if let Ok(syn::Type::Array(a)) = syn::parse_str::<syn::Type>(t) {
                            body += &format!("    super::axiom_array::<{}, {{ {} }}>();\n", flat(&a.elem), flat(&a.len));
                        }
                    }
                    body += &format!("    axiom_zero_bytes(r.{m});\n");
                } else if k.matrix {
                    body += &format!("    bytes_{}(r.{m});\n", k.column().form());
                    for c in 0..k.n {
                        body += &format!("    axiom_pod_len(r.{m}.{});\n", AXES[c]);
                    }
                }
            }
            for (path, off) in k.parts(num) {
                let want = if k.comp == "bool" { format!("pod_bytes(v.{path}.spec_as())") } else { format!("pod_bytes(v.{path})") };
                ens.push(format!("pod_bytes(v.spec_as()).subrange({off}, {}) == {want}, // [C06]", off + s));
                body += &format!("    assert(pod_bytes(v.spec_as()).subrange({off}, {}) =~= {want});\n", off + s);
                covered[off..off + s].fill(true);
            }
            let mut a = 0;
            while a < covered.len() {
                if covered[a] {
                    a += 1;
                    continue;
                }
                let b = (a..covered.len()).find(|&i| covered[i]).unwrap_or(covered.len());
                ens.push(format!("all_zero(pod_bytes(v.spec_as()).subrange({a}, {b})), // [C04]"));
                a = b;
            }
            job.lemma(&format!("{key} bytes"), &format!("bytes_of_{id}(v: {own})"), &ens, &body);
        }
    }
    if num == "140" {
        names(job);
    }
    job.put("}");
}

/// The GLSL names, in the module of the first layout: the types of the libraries take them from its forms.
fn names(job: &mut Job) {
    for k in kinds() {
        if job.file.impl_of(Some("std140"), "Glsl", &k.form()).is_some() {
            job.lemma(&format!("names std140 {}", k.form()), &format!("name_{}()", k.form()), &[format!("<{} as Glsl>::NAME@ == \"{}\"@, // [C13]", k.form(), k.glsl())], "");
        } else {
            job.missing(&format!("names std140 {}", k.form()), "no implementation of its own");
        }
    }
    for (ty, k, _) in types() {
        let key = format!("names {ty}");
        match job.file.impl_of(None, "Glsl", &ty).cloned() {
            Some(i) => {
                job.implement(&key, &i, "");
                let id: String = ty.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                job.lemma(&key, &format!("name_{id}()"), &[format!("<crate::forms::{ty} as Glsl>::NAME@ == \"{}\"@, // [C13]", k.glsl())], "");
            }
            None => job.missing(&key, "no implementation of its own"),
        }
    }
}

fn stand_ins(job: &mut Job) {
    for (lib, matrix) in [("mint", "ColumnMatrix"), ("cgmath", "Matrix")] {
    job.put(&format!("pub mod {lib} {{\n// As {lib} declares them."));
    for n in 2..=4 {
        for name in ["Vector", "Point"] {
            if name == "Vector" || n < 4 {
                job.put(&format!("pub struct {name}{n}<T> {{ {} }}\nimpl<T: Copy> Clone for {name}{n}<T> {{\n#[verifier::external_body]\nfn clone(&self) -> Self {{ *self }}\n}}\nimpl<T: Copy> Copy for {name}{n}<T> {{}}",
                    AXES[..n].iter().map(|a| format!("pub {a}: T")).collect::<Vec<_>>().join(", ")));
            }
        }
        job.put(&format!("pub struct {matrix}{n}<T> {{ {} }}\nimpl<T: Copy> Clone for {matrix}{n}<T> {{\n#[verifier::external_body]\nfn clone(&self) -> Self {{ *self }}\n}}\nimpl<T: Copy> Copy for {matrix}{n}<T> {{}}",
            AXES[..n].iter().map(|a| format!("pub {a}: Vector{n}<T>")).collect::<Vec<_>>().join(", ")));
    }
    job.put("}");
    }
    for lib in ["nalgebra", "glam"] {
        job.put(&format!("pub mod {lib} {{\nuse vstd::prelude::*;\nuse vstd::std_specs::convert::FromSpecImpl;\nuse super::{{mint, conv}};"));
        let mut seen = BTreeSet::new();
        for (ty, _, via) in types() {
            let Some(m) = via else { continue };
            let Some(name) = ty.strip_prefix(&format!("{lib}::")) else { continue };
            let base = name.split('<').next().unwrap();
            if seen.insert(base.to_string()) {
                let (g, d, b) = if name.contains('<') { ("<T>", "PhantomData<T>", "<T: Copy>") } else { ("", "u8", "") };
                job.put(&format!("#[verifier::external_body]\n{}pub struct {base}{g} {{ p: {} }}\nimpl{b} Clone for {base}{g} {{\n#[verifier::external_body]\nfn clone(&self) -> Self {{ *self }}\n}}\nimpl{b} Copy for {base}{g} {{}}",
                    if g.is_empty() { "" } else { "#[verifier::reject_recursive_types(T)]\n" }, d.replace("PhantomData", "core::marker::PhantomData")));
            }
            for (a, b) in [(name.to_string(), m.clone()), (m.clone(), name.to_string())] {
                job.put(&format!("impl FromSpecImpl<{a}> for {b} {{\n    open spec fn obeys_from_spec() -> bool {{ true }}\n    open spec fn from_spec(v: {a}) -> {b} {{ conv(v) }}\n}}\nimpl From<{a}> for {b} {{\n    #[verifier::external_body]\n    fn from(v: {a}) -> Self {{ unimplemented!() }}\n}}"));
            }
        }
        job.put("}");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let parsed = syn::parse_file(&std::fs::read_to_string(&a[1]).expect("expansion")).unwrap_or_else(|e| {
        eprintln!("cannot parse {}: {e}", a[1]);
        std::process::exit(3)
    });
    let mut file = File::default();
    file.read("", parsed.items);
    let assume: BTreeSet<String> = std::fs::read_to_string(&a[2]).unwrap_or_default().lines().map(str::to_string).collect();
    let mut job = Job { file, assume, smoke: std::env::var_os("VERIF_SMOKE").is_some(), out: String::new(), report: String::new() };
    stand_ins(&mut job);
    layout(&mut job, "140");
    layout(&mut job, "430");
    std::fs::write(&a[3], job.out).unwrap();
    std::fs::write(&a[4], job.report).unwrap();
}
