From 2c321361d00c38aca4ddc674f36c7f5b4c3ad273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 1/8] fix: accept `name =value` when the value starts with
 punctuation

`peek_eq_op` required `=` to be followed by whitespace or a non-punctuation
token, so `x=-1`, `x=&y` or `x='a` were not recognized as `name = value`.
---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..f213d53 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 14d9b9b58c8527242689c6e509b4ad101922bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 2/8] fix: suggest the strictly closest name even after a tie
 between farther names

`find_similar_name` gave up at the first tie, although a later name could be
strictly closer than all others.
---
 structmeta/src/helpers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index f213d53..07471e6 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -169,9 +169,8 @@ fn find_similar_name<'a>(names: &[&[&'a str]], ident: &Ident) -> Option<&'a str>
                 if d < r_d {
                     r_d = d;
                     r = Some(name);
-                }
-                if d == r_d && Some(name) != r {
-                    return None;
+                } else if d == r_d && Some(name) != r {
+                    r = None;
                 }
             }
         }
-- 
2.43.0


From 8adaf6b04a6c24ea20b460fa3cb0558ea67e47da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 3/8] fix: reject an unnamed Option<Vec<T>> parameter instead
 of panicking

derive(StructMeta) reached `unreachable!()` for it.
---
 structmeta-derive/src/struct_meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..9ac8641 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -315,6 +315,12 @@ impl<'a> Param<'a> {
                 is_option,
             })
         } else if let NamedParamType::Value { ty, is_vec } = ty {
+            if is_option && is_vec {
+                bail!(
+                    info.span(),
+                    "this field type cannot be used as unnamed parameter."
+                )
+            }
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From 21fcb21505ca7bf77ebaf16f325e26ec81247c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 4/8] fix: report an unopened closing delimiter in
 derive(ToTokens) instead of panicking

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..994345a 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -186,6 +186,9 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
                             let scope = scopes.pop().unwrap();
+                            if scopes.is_empty() {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            }
                             scopes
                                 .last_mut()
                                 .unwrap()
-- 
2.43.0


From 4a20505ddeaf0092af526be9c41b407e1d5e1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 5/8] fix: make derive(Parse) work on generic enums

The variant parsers were nested `fn` items, which cannot use the generic
parameters of the enum; they are closures now.
---
 structmeta-derive/src/parse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..f03bc67 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, data)?,
+        Data::Enum(data) => code_from_enum(data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,7 +43,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
+fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use syn::ext::*;
@@ -57,15 +57,15 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
-            quote!(#self_ident::#variant_ident),
+            quote!(Self::#variant_ident),
             &variant.fields,
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
-- 
2.43.0


From d4af39e5a37e0949bc26a488b271044613adaad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 6/8] fix: report a missing named Vec<T> parameter as
 `name(...)`

Its only accepted style is `name(...)`, but the error said `name = ...`.
---
 structmeta-derive/src/struct_meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 9ac8641..2a802ae 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -423,11 +423,11 @@ impl NamedParam<'_> {
             match self.ty {
                 NamedParamType::Flag => quote!(::structmeta::Flag { span: #temp_ident }),
                 NamedParamType::Bool => quote!(#temp_ident.is_some()),
-                NamedParamType::Value { .. } | NamedParamType::NameValue { .. } => {
+                NamedParamType::Value { is_vec: false, .. } | NamedParamType::NameValue { .. } => {
                     let msg = format!("missing argument `{} = ...`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-                NamedParamType::NameArgs { .. } => {
+                NamedParamType::Value { is_vec: true, .. } | NamedParamType::NameArgs { .. } => {
                     let msg = format!("missing argument `{}(...)`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-- 
2.43.0


From ada9b20bede3dc857fbb5572ec96a962d3fa0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 7/8] fix: a field that opens a group of its own does not stand
 at the root once the group of another field closes

---
 structmeta-derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index f03bc67..69ef9f9 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -190,7 +190,7 @@ fn code_from_fields(
                                     bail!(token.span(), "mismatched closing delimiter `{}`.", c);
                                 }
                                 scopes.pop();
-                                if scopes.len() == 1 {
+                                if scopes.len() == 1 && use_parse {
                                     is_root = true;
                                 }
                             }
-- 
2.43.0


From ec745917c5a459cea2a05d09b8534efa14a7d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 8/8] fix: derive(Parse): a field that opens two nested groups
 gets a buffer for each

---
 structmeta-derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 69ef9f9..1aede79 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -168,7 +168,7 @@ fn code_from_fields(
                                     quote!(::structmeta::helpers::exports::syn::#parse_bracket)
                                 };
                                 let input_old = &scopes.last().unwrap().input;
-                                let input = format_ident!("input_{}", index);
+                                let input = format_ident!("input_{}_{}", index, scopes.len());
                                 let ty = &field.ty;
                                 let code = quote_spanned!(field.span()=>
                                     let #input;
-- 
2.43.0

