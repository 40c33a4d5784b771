From 9dd6a139bb2dd3dc7fb9c3898eeec40f03d51a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 01/14] fix: import Box and Vec so that the alloc feature
 builds without std

---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0


From e2cb969b2428b8c563a2591e10dc95d14d051941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 02/14] fix: emit one-element tuples as tuples

---
 funcmap_derive/src/map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..9595723 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,9 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                // the trailing comma is needed to distinguish a one-element tuple
+                // from a parenthesized expression
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From fdab853158acaa2a042681f0b82697ebbb87e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 03/14] fix: support types passed through macro fragments

---
 funcmap_derive/src/map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 9595723..59b4c9f 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -11,7 +11,7 @@ use quote::{quote, ToTokens};
 use syn::TypeParen;
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeParam, TypePath,
+    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeParam, TypePath,
 };
 
 /// Configuration of a mapping for a given type
@@ -117,7 +117,9 @@ impl<'ast> Mapper<'ast> {
                     .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
             }
 
-            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
+            Type::Paren(TypeParen { elem: inner_ty, .. })
+            // a type passed through a `macro_rules!` fragment such as `$t:ty`
+            | Type::Group(TypeGroup { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
 
             Type::Path(type_path) => {
                 let TypePath {
-- 
2.43.0


From 8b68dd740eef53531630cba1d32143a00f1acb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 04/14] fix: treat raw identifiers as reserved when choosing
 type parameter names

---
 funcmap_derive/src/ident_collector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..f8e9980 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,6 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
+use syn::ext::IdentExt;
 use syn::visit::Visit;
 
 /// Collects unique identifiers for use in generated code
@@ -83,7 +84,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // `r#A` and `A` are the same identifier
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
-- 
2.43.0


From 961e00a2b01d18fe465d664889ab0badd531ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 05/14] fix: reserve identifiers within macro invocations when
 choosing type parameter names

---
 funcmap_derive/src/ident_collector.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index f8e9980..a7920b4 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -2,9 +2,10 @@
 
 use std::collections::HashSet;
 
-use proc_macro2::{Ident, Span};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use syn::ext::IdentExt;
-use syn::visit::Visit;
+use syn::visit::{self, Visit};
+use syn::Macro;
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -80,6 +81,17 @@ impl VisitingIdentCollector {
     pub(crate) fn into_reserved(self) -> IdentCollector {
         self.0
     }
+
+    /// Visits all identifiers within the (unparsed) input of a macro
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Ident(ident) => self.visit_ident(&ident),
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                _ => {}
+            }
+        }
+    }
 }
 
 impl Visit<'_> for VisitingIdentCollector {
@@ -87,6 +99,11 @@ impl Visit<'_> for VisitingIdentCollector {
         // `r#A` and `A` are the same identifier
         self.0.idents.insert(ident.unraw().to_string());
     }
+
+    fn visit_macro(&mut self, mac: &Macro) {
+        visit::visit_macro(self, mac);
+        self.visit_tokens(mac.tokens.clone());
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 90a95d056f76d9e86e42e3591c84c95eb5c6402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 06/14] fix: reserve identifiers within the crate path when
 choosing type parameter names

---
 funcmap_derive/src/input.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index cf436b4..6ef1234 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -94,14 +94,15 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
-        let ident_collector = {
-            let mut ident_collector = IdentCollector::new_visiting();
-            ident_collector.visit_derive_input(&derive_input);
-            ident_collector.into_reserved()
-        };
+        let mut ident_collector = IdentCollector::new_visiting();
+        ident_collector.visit_derive_input(&derive_input);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
+        if let Some(crate_path) = &opts.crate_path {
+            ident_collector.visit_path(crate_path);
+        }
+
         let meta = FuncMapMeta {
             crate_path: opts.crate_path.unwrap_or_else(|| {
                 let path = CRATE_IDENT.into();
@@ -112,7 +113,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 }
             }),
 
-            ident_collector,
+            ident_collector: ident_collector.into_reserved(),
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0


From b1d725e0c07e081a159cccb4a30f9be316f76851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 07/14] fix: drop all initialized elements when mapping an
 array fails or panics

---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From 79e4f4a2f30a67a23856b5df9501d1b86fda8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 08/14] fix: report unsupported type parameter bounds of all
 parameters along with unsupported field types

---
 funcmap_derive/src/derive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 1d8014b..345e706 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -107,7 +107,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                             &mapped_type_param.type_param.bounds,
                             &mapped_type_param.type_param.ident,
                             &[&src_type_ident],
-                        )?
+                        )
+                        .add_err_to(&mut result_builder)
+                        .unwrap_or_default()
                         .without_maybe_bounds(),
                         ..src_type_ident.clone().into()
                     }));
@@ -117,7 +119,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                             &mapped_type_param.type_param.bounds,
                             &mapped_type_param.type_param.ident,
                             &[&dst_type_ident],
-                        )?
+                        )
+                        .add_err_to(&mut result_builder)
+                        .unwrap_or_default()
                         .without_maybe_bounds(),
                         ..dst_type_ident.clone().into()
                     }));
@@ -128,7 +132,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                                 &type_param.bounds,
                                 &mapped_type_param.type_param.ident,
                                 &[&src_type_ident, &dst_type_ident],
-                            )?,
+                            )
+                            .add_err_to(&mut result_builder)
+                            .unwrap_or_default(),
                             ..type_param.ident.clone().into()
                         }),
                         GenericParam::Const(const_param) => GenericParam::Const(
-- 
2.43.0


From f0f9cc26bec4b89aa814eb3bf6931c4d5877d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 09/14] fix: report all unsupported types within a tuple or
 generic type

---
 funcmap_derive/src/map.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 59b4c9f..940e445 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -3,7 +3,7 @@
 use crate::derivable::Derivable;
 use crate::ident::{MARKER_TYPE_IDENT, OUTPUT_TYPE_IDENT};
 use crate::predicates::UniquePredicates;
-use crate::result::Error;
+use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{DependencyOnType, IsTypish, SubsType};
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -219,6 +219,7 @@ impl<'ast> Mapper<'ast> {
                     });
 
                 let mut mappable = mappable;
+                let mut result_builder = result::Builder::new();
 
                 for (marker_idx, arg_type) in arg_types {
                     if arg_type
@@ -283,18 +284,20 @@ impl<'ast> Mapper<'ast> {
                         >
                     })?;
 
-                    let closure = self.map_closure(arg_type)?;
-
-                    mappable = self.mapping.derivable.bind_expr(quote! {
-                        #crate_path::#trait_ident::<
-                            _,
-                            _,
-                            #crate_path::#MARKER_TYPE_IDENT::<#marker_idx>
-                        >::#fn_ident(#mappable, #closure)
-                    });
+                    if let Some(closure) =
+                        self.map_closure(arg_type).add_err_to(&mut result_builder)
+                    {
+                        mappable = self.mapping.derivable.bind_expr(quote! {
+                            #crate_path::#trait_ident::<
+                                _,
+                                _,
+                                #crate_path::#MARKER_TYPE_IDENT::<#marker_idx>
+                            >::#fn_ident(#mappable, #closure)
+                        });
+                    }
                 }
 
-                Ok(mappable)
+                result_builder.err_or(mappable)
             }
 
             Type::Tuple(type_tuple) => {
@@ -307,7 +310,7 @@ impl<'ast> Mapper<'ast> {
                         let mappable = quote!(#mappable.#idx);
                         self.map(mappable, ty)
                     })
-                    .collect::<Result<Vec<_>, _>>()?;
+                    .collect_with_errors::<Vec<_>>()?;
 
                 // the trailing comma is needed to distinguish a one-element tuple
                 // from a parenthesized expression
-- 
2.43.0


From 9e7fb19f5fc680fa9ec186718b5a02fbf4f22b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 10/14] fix: report an empty or malformed crate path at the
 string literal

The error for a crate path that is empty or cannot be tokenized was
spanned to the derive macro instead of the literal containing the path.
---
 funcmap_derive/src/opts.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index e633d27..8877b34 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
     parenthesized,
-    parse::{Parse, ParseStream, Parser},
+    parse::{Parse, ParseStream},
     punctuated::Punctuated,
     Attribute, ConstParam, GenericParam, Lifetime, LifetimeParam, LitStr, Path, Token, TypeParam,
 };
@@ -155,19 +155,14 @@ impl Parse for ArgCrate {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         input.parse::<Token![crate]>()?;
         input.parse::<Token![=]>()?;
-        Ok(Self(input.parse::<LitStr>()?.parse_with(PathParser)?))
-    }
-}
-
-/// Parser for [`Path`] producing errors spanned to the parsed tokens
-#[derive(Debug)]
-struct PathParser;
-
-impl Parser for PathParser {
-    type Output = Path;
 
-    fn parse2(self, tokens: TokenStream) -> syn::Result<Self::Output> {
-        syn::parse2(tokens.clone()).map_err(|_| syn::Error::new_spanned(tokens, "expected path"))
+        // spanning to the literal rather than its parsed tokens because those
+        // may be missing if the string is empty or cannot be tokenized
+        let value = input.parse::<LitStr>()?;
+        value
+            .parse()
+            .map(Self)
+            .map_err(|_| syn::Error::new_spanned(value, "expected path"))
     }
 }
 
-- 
2.43.0


From ea10d535db6b96d80e8a0bf968a0c1430e950587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 11/14] fix: ignore sizedness opt-outs for parameters passed
 through macro fragments

A where predicate such as `$t: ?Sized` with `$t:ty` was not recognized
as a bound of the mapped type parameter.
---
 funcmap_derive/src/derive.rs  |  8 +++++---
 funcmap_derive/src/syn_ext.rs | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 345e706..29baa89 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,7 +10,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
+    IntoGenericArgument, IntoType, IsIdent, SubsType, WithoutAttrs, WithoutDefault,
+    WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -171,8 +172,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             {
                 let predicate = match predicate.clone().without_attrs() {
                     WherePredicate::Type(predicate_type)
-                        if predicate_type.bounded_ty
-                            == mapped_type_param.type_param.ident.clone().into_type() =>
+                        if predicate_type
+                            .bounded_ty
+                            .is_ident(&mapped_type_param.type_param.ident) =>
                     {
                         WherePredicate::Type(predicate_type.without_maybe_bounds())
                     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 0ee8b5a..94076af 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,7 +7,8 @@ use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
     ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
+    TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound, TypePath,
+    WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -131,6 +132,23 @@ impl Fold for SubsTypeFolder<'_> {
     }
 }
 
+/// Extension trait for determining whether a type is just a given identifier
+pub(crate) trait IsIdent {
+    /// Returns `true` if `self` is a path consisting of `ident` only
+    fn is_ident(&self, ident: &Ident) -> bool;
+}
+
+impl IsIdent for Type {
+    fn is_ident(&self, ident: &Ident) -> bool {
+        match self {
+            // a type passed through a `macro_rules!` fragment such as `$t:ty`
+            Type::Group(TypeGroup { elem, .. }) => elem.is_ident(ident),
+            Type::Path(TypePath { qself: None, path }) => path.is_ident(ident),
+            _ => false,
+        }
+    }
+}
+
 /// Extension trait for converting an AST node into a [`GenericArgument`]
 pub(crate) trait IntoGenericArgument {
     /// Converts `self` into a [`GenericArgument`]
-- 
2.43.0


From b1a384ecf90c43a7755efd29183f29d5af49a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 12/14] fix: treat raw and plain identifiers of parameters as
 the same

`r#T` and `T` are the same identifier, so they may be mixed within the
definition and in the `params(...)` option.
---
 funcmap_derive/src/input.rs   |  6 +++---
 funcmap_derive/src/opts.rs    |  8 ++++++--
 funcmap_derive/src/syn_ext.rs | 24 ++++++++++++++++++++----
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 6ef1234..4e85362 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -13,8 +13,8 @@ use std::{collections::HashSet, iter};
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::{
-    visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field, GenericParam,
-    Generics, Path, Token, Type, TypeParam, Variant,
+    ext::IdentExt, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
+    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -156,7 +156,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             .filter_map(|(marker_idx, (param_idx, param))| match param {
                 GenericParam::Type(type_param)
                     if mapped_type_param_idents.is_empty()
-                        || mapped_type_param_idents.contains(&type_param.ident) =>
+                        || mapped_type_param_idents.contains(&type_param.ident.unraw()) =>
                 {
                     Some(MappedTypeParam {
                         param_idx,
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index 8877b34..cd9d0a2 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -10,6 +10,7 @@ use indexmap::IndexSet;
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
+    ext::IdentExt,
     parenthesized,
     parse::{Parse, ParseStream},
     punctuated::Punctuated,
@@ -193,6 +194,9 @@ pub(crate) enum Param {
     Lifetime(Lifetime),
 
     /// A type or const parameter
+    ///
+    /// The identifier is never raw because `r#T` and `T` are the same
+    /// parameter.
     TypeOrConst(Ident),
 }
 
@@ -201,7 +205,7 @@ impl Parse for Param {
         input
             .parse::<Lifetime>()
             .map(Self::Lifetime)
-            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
+            .or_else(|_| input.parse::<Ident>().map(|i| Self::TypeOrConst(i.unraw())))
             .map_err(|_| input.error("expected name of generic parameter"))
     }
 }
@@ -225,7 +229,7 @@ impl PartialEq<GenericParam> for Param {
                 Self::TypeOrConst(l),
                 GenericParam::Type(TypeParam { ident: r, .. })
                 | GenericParam::Const(ConstParam { ident: r, .. }),
-            ) => l == r,
+            ) => *l == r.unraw(),
             _ => false,
         }
     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 94076af..c4ab8c3 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
@@ -11,12 +12,25 @@ use syn::{
     WherePredicate,
 };
 
+/// Extension trait for comparing identifiers
+pub(crate) trait IsSame {
+    /// Returns `true` if `self` and `other` are the same identifier, where raw
+    /// identifiers (`r#T`) are the same as their plain counterparts (`T`)
+    fn is_same(&self, other: &Self) -> bool;
+}
+
+impl IsSame for Ident {
+    fn is_same(&self, other: &Self) -> bool {
+        self.unraw() == other.unraw()
+    }
+}
+
 /// Extension trait for determining the dependency of an AST node on a type
 pub(crate) trait DependencyOnType {
     /// Returns the dependency of `self` on a type named `type_ident`, if any
     ///
     /// The returned [`Ident`] may differ from `type_ident` only in its
-    /// [`Span`](proc_macro2::Span).
+    /// [`Span`](proc_macro2::Span) and in being raw.
     ///
     /// Note that macros in type position are always considered to be
     /// independent of the given type.
@@ -61,7 +75,7 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
         match ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.is_same(self.type_ident) => {
                         self.dependency = Some(ident);
                     }
                     _ => visit::visit_type(self, ty),
@@ -119,7 +133,7 @@ impl Fold for SubsTypeFolder<'_> {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first_mut() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.is_same(self.type_ident) => {
                         *ident = self.subs_ident.clone();
                     }
                     _ => (),
@@ -143,7 +157,9 @@ impl IsIdent for Type {
         match self {
             // a type passed through a `macro_rules!` fragment such as `$t:ty`
             Type::Group(TypeGroup { elem, .. }) => elem.is_ident(ident),
-            Type::Path(TypePath { qself: None, path }) => path.is_ident(ident),
+            Type::Path(TypePath { qself: None, path }) => {
+                path.get_ident().map_or(false, |i| i.is_same(ident))
+            }
             _ => false,
         }
     }
-- 
2.43.0


From 4452241718a017cb6bd0cd0f1e6b9c7c2f00134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 13/14] fix: allow lints on generated code that are allowed on
 the definition

---
 funcmap_derive/src/derive.rs |  3 +++
 funcmap_derive/src/lib.rs    |  1 +
 funcmap_derive/src/lints.rs  | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+)
 create mode 100644 funcmap_derive/src/lints.rs

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 29baa89..ac64af8 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -6,6 +6,7 @@ use crate::ident::{
     TRAIT_IDENT,
 };
 use crate::input::{FuncMapInput, Structish};
+use crate::lints::allowed_lints;
 use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
@@ -40,6 +41,7 @@ pub(crate) fn derive(item: TokenStream, derivable: Derivable) -> TokenStream {
 /// - any of the fields of `item` has an unsupported type
 pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<TokenStream, Error> {
     let input: DeriveInput = syn::parse2(item)?;
+    let allowed_lints = allowed_lints(&input);
     let input: FuncMapInput = input.try_into()?;
     let mut ident_collector = input.meta.ident_collector;
 
@@ -65,6 +67,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         #[allow(unused_qualifications)]
         #[allow(clippy::disallowed_method)]
         #[allow(clippy::disallowed_type)]
+        #(#[allow(#allowed_lints)])*
         #[automatically_derived]
     };
 
diff --git a/funcmap_derive/src/lib.rs b/funcmap_derive/src/lib.rs
index 46052b2..91d6881 100644
--- a/funcmap_derive/src/lib.rs
+++ b/funcmap_derive/src/lib.rs
@@ -34,6 +34,7 @@ mod derive;
 mod ident;
 mod ident_collector;
 mod input;
+mod lints;
 mod map;
 mod opts;
 mod predicates;
diff --git a/funcmap_derive/src/lints.rs b/funcmap_derive/src/lints.rs
new file mode 100644
index 0000000..16343c7
--- /dev/null
+++ b/funcmap_derive/src/lints.rs
@@ -0,0 +1,32 @@
+//! Functionality for respecting lint attributes of the input
+
+use proc_macro2::TokenStream;
+use syn::visit::{self, Visit};
+use syn::{Attribute, DeriveInput, Meta};
+
+/// Returns the arguments of all `#[allow(...)]` and `#[expect(...)]` attributes
+/// within a given item
+///
+/// Generated code repeats parts of the definition it is derived from, so lints
+/// that are allowed there need to be allowed on generated code as well.
+pub(crate) fn allowed_lints(input: &DeriveInput) -> Vec<TokenStream> {
+    let mut visitor = AllowedLintsVisitor::default();
+    visitor.visit_derive_input(input);
+    visitor.0
+}
+
+/// Type implementing [`Visit`] for [`allowed_lints`]
+#[derive(Debug, Default)]
+struct AllowedLintsVisitor(Vec<TokenStream>);
+
+impl<'ast> Visit<'ast> for AllowedLintsVisitor {
+    fn visit_attribute(&mut self, attr: &'ast Attribute) {
+        if let Meta::List(list) = &attr.meta {
+            if list.path.is_ident("allow") || list.path.is_ident("expect") {
+                self.0.push(list.tokens.clone());
+            }
+        }
+
+        visit::visit_attribute(self, attr);
+    }
+}
-- 
2.43.0


From 19a7ccb9f674cef8d6fe4d0cf8a48c6efe1ce815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:56 +0000
Subject: [PATCH 14/14] fix: give `Self` its meaning in bounds and predicates
 of derived implementations

---
 funcmap_derive/src/derive.rs  |  6 ++---
 funcmap_derive/src/syn_ext.rs | 51 ++++++++++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index ac64af8..2caf260 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -11,8 +11,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, IsIdent, SubsType, WithoutAttrs, WithoutDefault,
-    WithoutMaybeBounds,
+    IntoGenericArgument, IntoType, IsIdent, SubsType, WithExplicitSelf, WithoutAttrs,
+    WithoutDefault, WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -42,7 +42,7 @@ pub(crate) fn derive(item: TokenStream, derivable: Derivable) -> TokenStream {
 pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<TokenStream, Error> {
     let input: DeriveInput = syn::parse2(item)?;
     let allowed_lints = allowed_lints(&input);
-    let input: FuncMapInput = input.try_into()?;
+    let input: FuncMapInput = input.with_explicit_self().try_into()?;
     let mut ident_collector = input.meta.ident_collector;
 
     let src_type_ident = ident_collector.reserve_uppercase_letter('A', Span::mixed_site());
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index c4ab8c3..6310ee7 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,9 +7,9 @@ use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound, TypePath,
-    WherePredicate,
+    parse_quote, ConstParam, DeriveInput, GenericArgument, GenericParam, LifetimeParam,
+    PathSegment, PredicateType, TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam,
+    TypeParamBound, TypePath, WherePredicate,
 };
 
 /// Extension trait for comparing identifiers
@@ -146,6 +146,51 @@ impl Fold for SubsTypeFolder<'_> {
     }
 }
 
+/// Extension trait for making occurrences of `Self` explicit
+pub(crate) trait WithExplicitSelf {
+    /// Substitutes `Self` with the type being defined within the bounds and
+    /// predicates of `self`
+    fn with_explicit_self(self) -> Self;
+}
+
+impl WithExplicitSelf for DeriveInput {
+    fn with_explicit_self(self) -> Self {
+        let ident = &self.ident;
+        let args = self
+            .generics
+            .params
+            .iter()
+            .cloned()
+            .map(IntoGenericArgument::into_generic_argument);
+
+        let mut folder = ExplicitSelfFolder {
+            self_type: parse_quote!(#ident<#(#args),*>),
+        };
+
+        Self {
+            generics: folder.fold_generics(self.generics),
+            ..self
+        }
+    }
+}
+
+/// Type implementing [`Fold`] for
+/// [`with_explicit_self`](WithExplicitSelf::with_explicit_self)
+struct ExplicitSelfFolder {
+    self_type: Type,
+}
+
+impl Fold for ExplicitSelfFolder {
+    fn fold_type(&mut self, ty: Type) -> Type {
+        match ty {
+            Type::Path(TypePath { qself: None, path }) if path.is_ident("Self") => {
+                self.self_type.clone()
+            }
+            _ => fold::fold_type(self, ty),
+        }
+    }
+}
+
 /// Extension trait for determining whether a type is just a given identifier
 pub(crate) trait IsIdent {
     /// Returns `true` if `self` is a path consisting of `ident` only
-- 
2.43.0

