From c60ff9e52dabef17dadab4b642231531e62a2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 1/4] fix: strip r# from raw identifiers in generated GLSL

A field or struct named with a raw identifier produced GLSL source such as
'float r#type;', which is not a valid GLSL identifier.
---
 crevice-derive/src/glsl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..6bda495 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
-use syn::{parse_quote, Data, DeriveInput, Fields, Path};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
     let fields = match &input.data {
@@ -16,13 +16,13 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From 12e6cce707dfd94789e3a8b8ef5ef48e805e413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 2/4] fix: give std430 structs without fields an alignment of 1

Std430::ALIGNMENT must be a power of two, but deriving AsStd430 on a struct
without fields gave it an alignment of 0.
---
 crevice-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/lib.rs b/crevice-derive/src/lib.rs
index ab1012a..6e78943 100644
--- a/crevice-derive/src/lib.rs
+++ b/crevice-derive/src/lib.rs
@@ -16,7 +16,7 @@ pub fn derive_as_std140(input: CompilerTokenStream) -> CompilerTokenStream {
 #[proc_macro_derive(AsStd430)]
 pub fn derive_as_std430(input: CompilerTokenStream) -> CompilerTokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    let expanded = layout::emit(input, "Std430", "std430", 0);
+    let expanded = layout::emit(input, "Std430", "std430", 1);
 
     CompilerTokenStream::from(expanded)
 }
-- 
2.43.0


From 306ea4042356dd5a18e43e24009811e97cc0571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 3/4] fix: compute derived padding in time linear in the number
 of fields

Each generated padding function called all the earlier ones, so that const
evaluation took time exponential in the number of fields: rustc rejected
structs with 20 or more fields (long_running_const_eval) and effectively never
finished on those with 30.
---
 crevice-derive/src/layout.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..ad45c2b 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -65,31 +65,36 @@ pub fn emit(
 
     // Computes the offset immediately AFTER the field with the given index.
     //
-    // This function depends on the generated padding calculation functions to
-    // do correct alignment. Be careful not to cause recursion!
+    // The padding before each field is computed on the way instead of calling
+    // the generated padding calculation functions: those would call each other
+    // in turn, which takes time exponential in the number of fields.
     let offset_after_field = |target: usize| {
-        let mut output = vec![quote!(0usize)];
+        let mut output = TokenStream::new();
 
         for index in 0..=target {
             let field_ty = &fields[index].ty;
             let layout_ty = layout_version_of_ty(field_ty);
+            let layout_alignment = layout_alignment_of_ty(field_ty);
 
-            output.push(quote! {
-                + ::core::mem::size_of::<#layout_ty>()
-            });
-
-            // For every field except our target field, also add the generated
-            // padding. Padding occurs after each field, so it isn't included in
-            // this value.
-            if index < target {
-                let pad_fn = &pad_fns[index];
-                output.push(quote! {
-                    + #pad_fn()
+            // The first field is always at offset 0.
+            if index > 0 {
+                output.extend(quote! {
+                    offset += ::crevice::internal::align_offset(offset, #layout_alignment);
                 });
             }
+
+            output.extend(quote! {
+                offset += ::core::mem::size_of::<#layout_ty>();
+            });
         }
 
-        output.into_iter().collect::<TokenStream>()
+        quote! {
+            {
+                let mut offset = 0usize;
+                #output
+                offset
+            }
+        }
     };
 
     let pad_fn_impls: TokenStream = pad_fns
-- 
2.43.0


From e406a8ebf6656d80e3746b0be906d6ff184e79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 4/4] fix: let a struct have fields named like the derive's
 padding fields

A struct with a field _pad0, for example, did not compile: its layout form
got two fields of that name.
---
 crevice-derive/src/layout.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index ad45c2b..f575cb9 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
-use syn::{parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
 
 pub fn emit(
     input: DeriveInput,
@@ -130,13 +130,22 @@ pub fn emit(
         })
         .collect();
 
+    // Padding fields must not take the name of one of the struct's own fields.
+    let mut pad_prefix = String::from("_pad");
+    while fields.iter().any(|field| {
+        let field_name = field.ident.as_ref().unwrap().unraw().to_string();
+        field_name.starts_with(&pad_prefix)
+    }) {
+        pad_prefix.insert(0, '_');
+    }
+
     let generated_struct_fields: TokenStream = fields
         .iter()
         .enumerate()
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = format_ident!("{}{}", pad_prefix, index);
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0

