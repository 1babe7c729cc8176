From 3b0b99dba98aed4ac8d7fee1c33dc69781d95606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 01/13] fix: map one-element tuples in derived implementations

---
 funcmap_derive/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..3b618f9 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,7 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From e7fe65f0562593a1d745055afd7e517908f739af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 02/13] fix: derive for field types that come from macro type
 fragments

---
 funcmap_derive/src/map.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3b618f9..1a6868a 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -8,7 +8,7 @@ use crate::syn_ext::{DependencyOnType, IsTypish, SubsType};
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
-use syn::TypeParen;
+use syn::{TypeGroup, TypeParen};
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
     PathArguments, PathSegment, QSelf, Type, TypeArray, TypeParam, TypePath,
@@ -117,7 +117,8 @@ impl<'ast> Mapper<'ast> {
                     .bind_expr(quote!(#crate_path::#trait_ident::#fn_ident(#mappable, #closure))))
             }
 
-            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
+            Type::Group(TypeGroup { elem: inner_ty, .. })
+            | Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
 
             Type::Path(type_path) => {
                 let TypePath {
-- 
2.43.0


From 8bae5347eaa7c7b60d2846204570147136bc2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 03/13] fix: build with the alloc feature but without std

---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0


From 5afa03394aa272490c2e6a19f2bf04afc994ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 04/13] fix: keep generated parameters apart from raw
 identifiers

---
 funcmap_derive/src/ident_collector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..0e315b4 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
-use syn::visit::Visit;
+use syn::{ext::IdentExt, visit::Visit};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -83,7 +83,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // a raw identifier such as `r#A` denotes the same name as `A`
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
-- 
2.43.0


From 2ac88cb92880c4e8436d256c8d26815cdbcb0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 05/13] fix: treat raw and plain spellings of a type parameter
 as the same

---
 funcmap_derive/src/input.rs   | 4 ++--
 funcmap_derive/src/opts.rs    | 3 ++-
 funcmap_derive/src/syn_ext.rs | 7 ++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index cf436b4..1df1e2e 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -123,8 +123,8 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 derive_input.generics.params.iter().find(|p| &&param == p),
                 param,
             ) {
-                (Some(GenericParam::Type(..)), Param::TypeOrConst(ident)) => {
-                    mapped_type_param_idents.insert(ident);
+                (Some(GenericParam::Type(type_param)), Param::TypeOrConst(..)) => {
+                    mapped_type_param_idents.insert(type_param.ident.clone());
                 }
                 (Some(GenericParam::Lifetime(..)), param) => {
                     result_builder.add_err(syn::Error::new_spanned(
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index e633d27..a0dca37 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -10,6 +10,7 @@ use indexmap::IndexSet;
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
+    ext::IdentExt,
     parenthesized,
     parse::{Parse, ParseStream, Parser},
     punctuated::Punctuated,
@@ -230,7 +231,7 @@ impl PartialEq<GenericParam> for Param {
                 Self::TypeOrConst(l),
                 GenericParam::Type(TypeParam { ident: r, .. })
                 | GenericParam::Const(ConstParam { ident: r, .. }),
-            ) => l == r,
+            ) => l.unraw() == r.unraw(),
             _ => false,
         }
     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 0ee8b5a..4dd776f 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
@@ -15,7 +16,7 @@ pub(crate) trait DependencyOnType {
     /// Returns the dependency of `self` on a type named `type_ident`, if any
     ///
     /// The returned [`Ident`] may differ from `type_ident` only in its
-    /// [`Span`](proc_macro2::Span).
+    /// [`Span`](proc_macro2::Span) and in being a raw identifier or not.
     ///
     /// Note that macros in type position are always considered to be
     /// independent of the given type.
@@ -60,7 +61,7 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
         match ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         self.dependency = Some(ident);
                     }
                     _ => visit::visit_type(self, ty),
@@ -118,7 +119,7 @@ impl Fold for SubsTypeFolder<'_> {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first_mut() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         *ident = self.subs_ident.clone();
                     }
                     _ => (),
-- 
2.43.0


From e17411545b3645683899e47e6b09cfafa0b36706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 06/13] fix: keep generated parameters apart from the
 configured crate path

---
 funcmap_derive/src/input.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 1df1e2e..c9e07e1 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -94,14 +94,15 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
-        let ident_collector = {
-            let mut ident_collector = IdentCollector::new_visiting();
-            ident_collector.visit_derive_input(&derive_input);
-            ident_collector.into_reserved()
-        };
+        let mut ident_collector = IdentCollector::new_visiting();
+        ident_collector.visit_derive_input(&derive_input);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
+        if let Some(crate_path) = &opts.crate_path {
+            ident_collector.visit_path(crate_path);
+        }
+
         let meta = FuncMapMeta {
             crate_path: opts.crate_path.unwrap_or_else(|| {
                 let path = CRATE_IDENT.into();
@@ -112,7 +113,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 }
             }),
 
-            ident_collector,
+            ident_collector: ident_collector.into_reserved(),
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0


From 57c6f47c43222d4e0b1c9e4ff73368aedaceb8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 07/13] fix: drop all the mapped elements when mapping an array
 fails

---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From fdc49b78b0f3f287e842386a48bd5ecd9f4997d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 08/13] fix: report an empty crate path at the option instead
 of at the derive

---
 funcmap_derive/src/opts.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index a0dca37..9527260 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -12,7 +12,7 @@ use quote::ToTokens;
 use syn::{
     ext::IdentExt,
     parenthesized,
-    parse::{Parse, ParseStream, Parser},
+    parse::{Parse, ParseStream},
     punctuated::Punctuated,
     Attribute, ConstParam, GenericParam, Lifetime, LifetimeParam, LitStr, Path, Token, TypeParam,
 };
@@ -156,19 +156,13 @@ impl Parse for ArgCrate {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         input.parse::<Token![crate]>()?;
         input.parse::<Token![=]>()?;
-        Ok(Self(input.parse::<LitStr>()?.parse_with(PathParser)?))
-    }
-}
-
-/// Parser for [`Path`] producing errors spanned to the parsed tokens
-#[derive(Debug)]
-struct PathParser;
 
-impl Parser for PathParser {
-    type Output = Path;
+        let lit: LitStr = input.parse()?;
 
-    fn parse2(self, tokens: TokenStream) -> syn::Result<Self::Output> {
-        syn::parse2(tokens.clone()).map_err(|_| syn::Error::new_spanned(tokens, "expected path"))
+        // span errors to the literal, not to the tokens within, which may be empty
+        lit.parse()
+            .map(Self)
+            .map_err(|_| syn::Error::new_spanned(&lit, "expected path"))
     }
 }
 
-- 
2.43.0


From 0b44ec49098cee68e8ff2b1eadd1ef40c359c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 09/13] fix: drop ?Sized bounds however the type parameter is
 spelled in them

---
 funcmap_derive/src/derive.rs  |  8 +++++---
 funcmap_derive/src/syn_ext.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 1d8014b..9d00150 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,7 +10,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
+    IntoGenericArgument, IntoType, IsType, SubsType, WithoutAttrs, WithoutDefault,
+    WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -165,8 +166,9 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             {
                 let predicate = match predicate.clone().without_attrs() {
                     WherePredicate::Type(predicate_type)
-                        if predicate_type.bounded_ty
-                            == mapped_type_param.type_param.ident.clone().into_type() =>
+                        if predicate_type
+                            .bounded_ty
+                            .is_type(&mapped_type_param.type_param.ident) =>
                     {
                         WherePredicate::Type(predicate_type.without_maybe_bounds())
                     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 4dd776f..214444d 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -8,7 +8,8 @@ use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
     ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeParam, TypeParamBound, TypePath, WherePredicate,
+    TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound, TypePath,
+    WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -167,6 +168,28 @@ impl IntoType for Ident {
     }
 }
 
+/// Extension trait for determining whether an AST node is a type of a given
+/// name
+pub(crate) trait IsType {
+    /// Returns `true` if `self` is the type named `type_ident`
+    ///
+    /// This ignores whether the name is a raw identifier and whether the type
+    /// is wrapped in invisible delimiters, e.g. by a `$t:ty` macro fragment.
+    fn is_type(&self, type_ident: &Ident) -> bool;
+}
+
+impl IsType for Type {
+    fn is_type(&self, type_ident: &Ident) -> bool {
+        match self {
+            Type::Group(TypeGroup { elem, .. }) => elem.is_type(type_ident),
+            Type::Path(TypePath { qself: None, path }) => path
+                .get_ident()
+                .map_or(false, |ident| ident.unraw() == type_ident.unraw()),
+            _ => false,
+        }
+    }
+}
+
 /// Extension trait for determining whether an AST node is "typish", i.e. if it
 /// may be syntactically indistinguishable from a type
 pub(crate) trait IsTypish {
-- 
2.43.0


From eb0fb151500d5f0c397bf82b1b1e9a279b451ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 10/13] fix: substitute Self in bounds for the destination type
 as well

---
 funcmap_derive/src/input.rs   | 14 ++++++++++----
 funcmap_derive/src/syn_ext.rs | 30 +++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index c9e07e1..6d94e13 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -5,7 +5,7 @@ use crate::{
     ident_collector::IdentCollector,
     opts::{self, FuncMapOpts, Param},
     result::{self, Error, IteratorExt, ResultExt},
-    syn_ext::{IsTypish, ToNonEmptyTokens},
+    syn_ext::{IsTypish, SubsSelf, ToNonEmptyTokens},
 };
 
 use std::{collections::HashSet, iter};
@@ -13,8 +13,8 @@ use std::{collections::HashSet, iter};
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::{
-    visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field, GenericParam,
-    Generics, Path, Token, Type, TypeParam, Variant,
+    parse_quote, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
+    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -93,10 +93,16 @@ pub(crate) struct Fieldish {
 impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
-    fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
+    fn try_from(mut derive_input: DeriveInput) -> Result<Self, Self::Error> {
         let mut ident_collector = IdentCollector::new_visiting();
         ident_collector.visit_derive_input(&derive_input);
 
+        // In bounds, spell out `Self` such that its arguments are substituted
+        let ident = &derive_input.ident;
+        let (_, args, _) = derive_input.generics.split_for_impl();
+        let self_type = parse_quote!(#ident #args);
+        derive_input.generics = derive_input.generics.clone().subs_self(&self_type);
+
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
         if let Some(crate_path) = &opts.crate_path {
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 214444d..d113b65 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,7 +7,7 @@ use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, GenericArgument, GenericParam, LifetimeParam, PathSegment, PredicateType,
+    ConstParam, GenericArgument, GenericParam, Generics, LifetimeParam, PathSegment, PredicateType,
     TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound, TypePath,
     WherePredicate,
 };
@@ -133,6 +133,34 @@ impl Fold for SubsTypeFolder<'_> {
     }
 }
 
+/// Extension trait for replacing `Self` with a type in an AST node
+pub(crate) trait SubsSelf {
+    /// Replaces the type `Self` with `self_type` within `self`
+    fn subs_self(self, self_type: &TypePath) -> Self;
+}
+
+impl SubsSelf for Generics {
+    fn subs_self(self, self_type: &TypePath) -> Self {
+        SubsSelfFolder { self_type }.fold_generics(self)
+    }
+}
+
+/// Type implementing [`Fold`] for [`subs_self`](SubsSelf::subs_self)
+#[derive(Debug)]
+struct SubsSelfFolder<'a> {
+    self_type: &'a TypePath,
+}
+
+impl Fold for SubsSelfFolder<'_> {
+    fn fold_type_path(&mut self, type_path: TypePath) -> TypePath {
+        if type_path.qself.is_none() && type_path.path.is_ident("Self") {
+            self.self_type.clone()
+        } else {
+            fold::fold_type_path(self, type_path)
+        }
+    }
+}
+
 /// Extension trait for converting an AST node into a [`GenericArgument`]
 pub(crate) trait IntoGenericArgument {
     /// Converts `self` into a [`GenericArgument`]
-- 
2.43.0


From ddc25a2ba82260270834c790d5972ca64434e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 11/13] fix: keep generated parameters apart from names that
 come out of macros

---
 funcmap_derive/src/ident_collector.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index 0e315b4..5985243 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,7 +3,11 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
-use syn::{ext::IdentExt, visit::Visit};
+use syn::{
+    ext::IdentExt,
+    visit::{self, Visit},
+    Macro,
+};
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -86,6 +90,12 @@ impl Visit<'_> for VisitingIdentCollector {
         // a raw identifier such as `r#A` denotes the same name as `A`
         self.0.idents.insert(ident.unraw().to_string());
     }
+
+    fn visit_macro(&mut self, mac: &Macro) {
+        // the expansion of a macro may contain any uppercase letter
+        self.0.idents.extend(('A'..='Z').map(String::from));
+        visit::visit_macro(self, mac);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 492f4129f685540f66c7b86c4fc839064245313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:52 +0000
Subject: [PATCH 12/13] fix: keep const parameters apart from types of the same
 name

---
 funcmap_derive/src/derive.rs  |  8 ++++----
 funcmap_derive/src/input.rs   | 11 ++++++++---
 funcmap_derive/src/syn_ext.rs | 28 +++++++++++++++++++++++++---
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 9d00150..67f7dc1 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,7 +10,7 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, IsType, SubsType, WithoutAttrs, WithoutDefault,
+    IntoBracedArgument, IntoType, IsType, SubsType, WithoutAttrs, WithoutDefault,
     WithoutMaybeBounds,
 };
 
@@ -77,7 +77,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         let args = all_params
             .iter()
             .cloned()
-            .map(IntoGenericArgument::into_generic_argument);
+            .map(IntoBracedArgument::into_braced_argument);
 
         let trait_ident = derivable.no_drop_marker_trait_ident();
 
@@ -146,7 +146,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 if param_idx == mapped_type_param.param_idx {
                     GenericArgument::Type(src_type_ident.clone().into_type())
                 } else {
-                    param.clone().into_generic_argument()
+                    param.clone().into_braced_argument()
                 }
             });
 
@@ -154,7 +154,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 if param_idx == mapped_type_param.param_idx {
                     GenericArgument::Type(dst_type_ident.clone().into_type())
                 } else {
-                    param.clone().into_generic_argument()
+                    param.clone().into_braced_argument()
                 }
             });
 
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index 6d94e13..d67df7f 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -5,7 +5,7 @@ use crate::{
     ident_collector::IdentCollector,
     opts::{self, FuncMapOpts, Param},
     result::{self, Error, IteratorExt, ResultExt},
-    syn_ext::{IsTypish, SubsSelf, ToNonEmptyTokens},
+    syn_ext::{IntoBracedArgument, IsTypish, SubsSelf, ToNonEmptyTokens},
 };
 
 use std::{collections::HashSet, iter};
@@ -99,8 +99,13 @@ impl TryFrom<DeriveInput> for FuncMapInput {
 
         // In bounds, spell out `Self` such that its arguments are substituted
         let ident = &derive_input.ident;
-        let (_, args, _) = derive_input.generics.split_for_impl();
-        let self_type = parse_quote!(#ident #args);
+        let args = derive_input
+            .generics
+            .params
+            .iter()
+            .cloned()
+            .map(IntoBracedArgument::into_braced_argument);
+        let self_type = parse_quote!(#ident<#(#args),*>);
         derive_input.generics = derive_input.generics.clone().subs_self(&self_type);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index d113b65..f2e81b5 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -7,9 +7,9 @@ use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
 use syn::{
-    ConstParam, GenericArgument, GenericParam, Generics, LifetimeParam, PathSegment, PredicateType,
-    TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound, TypePath,
-    WherePredicate,
+    parse_quote, ConstParam, GenericArgument, GenericParam, Generics, LifetimeParam, PathSegment,
+    PredicateType, TraitBound, TraitBoundModifier, Type, TypeGroup, TypeParam, TypeParamBound,
+    TypePath, WherePredicate,
 };
 
 /// Extension trait for determining the dependency of an AST node on a type
@@ -181,6 +181,28 @@ impl IntoGenericArgument for GenericParam {
     }
 }
 
+/// Extension trait for converting an AST node into a [`GenericArgument`] that
+/// cannot be confused with a type
+pub(crate) trait IntoBracedArgument {
+    /// Converts `self` into a [`GenericArgument`], putting const parameters in
+    /// braces
+    ///
+    /// Without the braces, the name of a const parameter would refer to a type
+    /// of the same name if there is one.
+    fn into_braced_argument(self) -> GenericArgument;
+}
+
+impl IntoBracedArgument for GenericParam {
+    fn into_braced_argument(self) -> GenericArgument {
+        match self {
+            GenericParam::Const(ConstParam { ident, .. }) => {
+                GenericArgument::Const(parse_quote!({ #ident }))
+            }
+            param => param.into_generic_argument(),
+        }
+    }
+}
+
 /// Extension trait for converting an [`Ident`] into a [`Type`]
 pub(crate) trait IntoType {
     /// Converts `self` into a [`Type`]
-- 
2.43.0


From b0f48f66b35c477830e6f2b20b6fac5b768a9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:20 +0000
Subject: [PATCH 13/13] fix: respect lint levels set within the declaration in
 the derived code

---
 funcmap_derive/src/derive.rs |  2 ++
 funcmap_derive/src/input.rs  | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 67f7dc1..a508de2 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -50,6 +50,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
     let fn_var_ident = Ident::new("f", Span::mixed_site());
 
     let crate_path = &input.meta.crate_path;
+    let allow_attrs = &input.meta.allow_attrs;
     let ident = &input.ident;
     let all_params = &input.generics.params;
     let where_clause = &input.generics.where_clause;
@@ -65,6 +66,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         #[allow(unused_qualifications)]
         #[allow(clippy::disallowed_method)]
         #[allow(clippy::disallowed_type)]
+        #(#allow_attrs)*
         #[automatically_derived]
     };
 
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index d67df7f..dc91b38 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -13,8 +13,8 @@ use std::{collections::HashSet, iter};
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::{
-    parse_quote, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
-    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
+    parse_quote, visit::Visit, Attribute, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Expr,
+    Field, GenericParam, Generics, Meta, MetaList, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -44,6 +44,10 @@ pub(crate) struct FuncMapMeta {
     /// Path to the `funcmap` crate
     pub(crate) crate_path: Path,
 
+    /// `allow` attributes for all lints whose level is set on (any part of) the
+    /// definition of the type
+    pub(crate) allow_attrs: Vec<Attribute>,
+
     /// [`IdentCollector`] where all identifiers that occur within the
     /// definition of the type are already reserved
     pub(crate) ident_collector: IdentCollector,
@@ -90,6 +94,26 @@ pub(crate) struct Fieldish {
     pub(crate) ty: Type,
 }
 
+/// Type implementing [`Visit`] for collecting `allow` attributes for all lints
+/// whose level is set by an attribute other than `forbid`
+#[derive(Debug)]
+struct AllowAttrCollector(Vec<Attribute>);
+
+impl Visit<'_> for AllowAttrCollector {
+    fn visit_attribute(&mut self, attr: &Attribute) {
+        if let Meta::List(MetaList { path, tokens, .. }) = &attr.meta {
+            if ["allow", "expect", "warn", "deny"]
+                .iter()
+                .any(|level| path.is_ident(level))
+            {
+                self.0.push(parse_quote!(#[allow(#tokens)]));
+            }
+        }
+    }
+
+    fn visit_expr(&mut self, _: &Expr) {}
+}
+
 impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
@@ -97,6 +121,9 @@ impl TryFrom<DeriveInput> for FuncMapInput {
         let mut ident_collector = IdentCollector::new_visiting();
         ident_collector.visit_derive_input(&derive_input);
 
+        let mut allow_attr_collector = AllowAttrCollector(Vec::new());
+        allow_attr_collector.visit_derive_input(&derive_input);
+
         // In bounds, spell out `Self` such that its arguments are substituted
         let ident = &derive_input.ident;
         let args = derive_input
@@ -124,6 +151,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 }
             }),
 
+            allow_attrs: allow_attr_collector.0,
             ident_collector: ident_collector.into_reserved(),
         };
 
-- 
2.43.0

