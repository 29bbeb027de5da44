From 1e30dd94d3a76708e1b36dd46f471669e2157698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 01/12] fix: OrdinalMap::contains_key ignores vacant cells

---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From b6d132da155197e7f9578714ab6dadcb60e43031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 02/12] fix: OrdinalSet64::all for types with exactly 64 values

---
 ordinal-map/src/set/set64.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..3a09cbd 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,10 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: match 1u64.checked_shl(T::ORDINAL_SIZE as u32) {
+                Some(bit) => bit - 1,
+                None => u64::MAX,
+            },
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From bba7512cfaf90c3e7877cff49af3746bc685128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 03/12] fix: char::from_ordinal truncated ordinals above
 u32::MAX

---
 ordinal-map/src/ordinal/impls/char.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..18229ba 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -15,10 +15,11 @@ impl Ordinal for char {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
-        if ordinal < SURROGATE_START as usize {
-            char::from_u32(ordinal as u32)
+        let ordinal = u32::try_from(ordinal).ok()?;
+        if ordinal < SURROGATE_START {
+            char::from_u32(ordinal)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(ordinal.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From b6881700f08a06ce36be9cc3aa0484e8c6f0e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 04/12] fix: assertion failure in sets of types without values

---
 ordinal-map/src/set/set.rs   | 6 +++++-
 ordinal-map/src/set/set64.rs | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ordinal-map/src/set/set.rs b/ordinal-map/src/set/set.rs
index 31110a5..42b471d 100644
--- a/ordinal-map/src/set/set.rs
+++ b/ordinal-map/src/set/set.rs
@@ -4,6 +4,7 @@ use std::fmt::Formatter;
 use std::marker::PhantomData;
 use std::slice;
 
+use crate::set::array::ordinal_array_set_s;
 use crate::set::iter::Iter;
 use crate::set::set_mut::OrdinalSetMut;
 use crate::set::set_ref::OrdinalSetRef;
@@ -47,7 +48,10 @@ impl<T: Ordinal> OrdinalSet<T> {
     #[inline]
     fn as_ref(&self) -> OrdinalSetRef<'_, T> {
         match (Self::IS_SMALL, &self.set) {
-            (true, SetImpl::Small(set)) => OrdinalSetRef::new(slice::from_ref(set)),
+            (true, SetImpl::Small(set)) => {
+                // No words if `T` has no values.
+                OrdinalSetRef::new(&slice::from_ref(set)[..ordinal_array_set_s::<T>()])
+            }
             (false, SetImpl::Large(set)) => OrdinalSetRef::new(set),
             _ => unreachable!(),
         }
diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index 3a09cbd..93b84d5 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -4,6 +4,7 @@ use std::fmt::Formatter;
 use std::marker::PhantomData;
 use std::slice;
 
+use crate::set::array::ordinal_array_set_s;
 use crate::set::set_ref::OrdinalSetRef;
 use crate::Ordinal;
 
@@ -92,7 +93,8 @@ impl<T: Ordinal> OrdinalSet64<T> {
     }
 
     fn as_ref(&self) -> OrdinalSetRef<'_, T> {
-        OrdinalSetRef::new(slice::from_ref(&self.set))
+        // No words if `T` has no values.
+        OrdinalSetRef::new(&slice::from_ref(&self.set)[..ordinal_array_set_s::<T>()])
     }
 
     /// Create a set containing all possible elements of [`K`](Ordinal).
-- 
2.43.0


From 77a11a68309cf1a1847ceb0bce377daa82bb9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 05/12] fix: total IntoIterArray::size_hint must be exact

---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0


From 8a1c36a2aff2cc8a39b59a4f97b7e60c3bc93a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 06/12] fix: compile-time error for Result, Either and arrays
 with too many values

---
 ordinal-map/src/ordinal/impls/array.rs  | 2 ++
 ordinal-map/src/ordinal/impls/either.rs | 2 ++
 ordinal-map/src/ordinal/impls/std.rs    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/ordinal-map/src/ordinal/impls/array.rs b/ordinal-map/src/ordinal/impls/array.rs
index d3e554a..4add6d0 100644
--- a/ordinal-map/src/ordinal/impls/array.rs
+++ b/ordinal-map/src/ordinal/impls/array.rs
@@ -13,6 +13,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     };
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         let mut r = 0usize;
         for v in self {
             r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
@@ -22,6 +23,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         let mut n = ordinal;
         let mut array = ArrayBuilder::new();
         for _ in 0..N {
diff --git a/ordinal-map/src/ordinal/impls/either.rs b/ordinal-map/src/ordinal/impls/either.rs
index 6c8289f..3455e84 100644
--- a/ordinal-map/src/ordinal/impls/either.rs
+++ b/ordinal-map/src/ordinal/impls/either.rs
@@ -8,6 +8,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     const ORDINAL_SIZE: usize = Result::<A, B>::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Either::Left(a) => a.ordinal(),
             Either::Right(b) => A::ORDINAL_SIZE + b.ordinal(),
@@ -15,6 +16,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         if ordinal < A::ORDINAL_SIZE {
             Some(Either::Left(A::from_ordinal(ordinal).unwrap()))
         } else {
diff --git a/ordinal-map/src/ordinal/impls/std.rs b/ordinal-map/src/ordinal/impls/std.rs
index 022364a..fa6b654 100644
--- a/ordinal-map/src/ordinal/impls/std.rs
+++ b/ordinal-map/src/ordinal/impls/std.rs
@@ -25,6 +25,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + B::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Ok(a) => a.ordinal(),
             Err(b) => A::ORDINAL_SIZE + b.ordinal(),
@@ -32,6 +33,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         if ordinal < A::ORDINAL_SIZE {
             Some(Ok(A::from_ordinal(ordinal).unwrap()))
         } else {
-- 
2.43.0


From 4c6ab74427efb58acef9c88a87b564ed66af2942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 07/12] fix: OrdinalTotalArrayMap::from_array must check the
 size parameter

---
 ordinal-map/src/map/total/array_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ordinal-map/src/map/total/array_map.rs b/ordinal-map/src/map/total/array_map.rs
index 157cdb5..b3bc839 100644
--- a/ordinal-map/src/map/total/array_map.rs
+++ b/ordinal-map/src/map/total/array_map.rs
@@ -71,6 +71,7 @@ impl<K: Ordinal, V, const S: usize> OrdinalTotalArrayMap<K, V, S> {
 
     /// Create a new map from an array of values in ordinal order of keys.
     pub fn from_array(array: [V; S]) -> Self {
+        const { Self::ASSERT };
         OrdinalTotalArrayMap {
             map: array,
             _phantom: PhantomData,
-- 
2.43.0


From c20b7550060365cc80498c234464a44cad67e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 08/12] fix: derive for types with a field named `rem`

---
 ordinal-map-derive/src/ordinal.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index f0ece3a..a11e0d2 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -267,24 +267,27 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
+    // Must not clash with field names.
+    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
-        let mut rem = #ordinal;
+        let mut #rem = #ordinal;
     });
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
             syn::parse_quote_spanned! { field_var.span() =>
                 let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
-                    rem % #field_ordinal_size).unwrap();
+                    #rem % #field_ordinal_size).unwrap();
             },
             syn::parse_quote_spanned! { field_var.span() =>
-                rem /= #field_ordinal_size;
+                #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
-        if rem != 0 {
+        if #rem != 0 {
             return None
         }
     });
-- 
2.43.0


From 567ee635025339cb9b1eaef3c08133f361e4a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 09/12] fix: derive inside macro_rules

---
 ordinal-map-derive/src/ordinal.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index a11e0d2..cc586aa 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -4,7 +4,7 @@ use syn::spanned::Spanned;
 pub(crate) fn derive_ordinal(
     input: proc_macro2::TokenStream,
 ) -> syn::Result<proc_macro2::TokenStream> {
-    let span = input.span();
+    let span = at_call_site(input.span());
     let input = syn::parse2::<syn::DeriveInput>(input)?;
 
     let ident = input.ident;
@@ -60,6 +60,12 @@ pub(crate) fn derive_ordinal(
     })
 }
 
+/// `self` must resolve to the same variable everywhere in generated code,
+/// even if parts of the input come from different macro expansions.
+fn at_call_site(span: proc_macro2::Span) -> proc_macro2::Span {
+    span.resolved_at(proc_macro2::Span::call_site())
+}
+
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
@@ -310,8 +316,10 @@ impl StructGen {
         self.s.fields.iter().enumerate().map(|(i, f)| {
             let i = syn::Index::from(i);
             match &f.ident {
-                Some(ident) => syn::parse_quote_spanned! { ident.span() => &self.#ident },
-                None => syn::parse_quote_spanned! { f.span() => &self.#i },
+                Some(ident) => syn::parse_quote_spanned! { at_call_site(ident.span()) =>
+                    &self.#ident
+                },
+                None => syn::parse_quote_spanned! { at_call_site(f.span()) => &self.#i },
             }
         })
     }
@@ -430,7 +438,7 @@ impl EnumGen {
             })
         }
         Ok(SizeExpr::Syn(syn::parse_quote_spanned! {
-            self.e.enum_token.span =>
+            at_call_site(self.e.enum_token.span) =>
             match self {
                 #( #arms, )*
             }
-- 
2.43.0


From 9dbbe5c666bed5a2c91b7862e1a3160c23a1900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 10/12] fix: derive where `None` is shadowed

---
 ordinal-map-derive/src/ordinal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index cc586aa..27faa61 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -78,7 +78,7 @@ fn check_zero_size() -> syn::Stmt {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
         if Self::ORDINAL_SIZE == 0 {
-            return None;
+            return std::option::Option::None;
         }
     }
 }
@@ -294,7 +294,7 @@ fn struct_from_ordinal<'a>(
     }
     stmts.push(syn::parse_quote_spanned! { span =>
         if #rem != 0 {
-            return None
+            return std::option::Option::None
         }
     });
     let build = constructor(
-- 
2.43.0


From 8703e1ebedb3ae1e2ea8c603a2b1636ada66ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 11/12] fix: derive for types with own `ORDINAL_SIZE` variant
 or constant

---
 ordinal-map-derive/src/ordinal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 27faa61..2489ce7 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -69,7 +69,7 @@ fn at_call_site(span: proc_macro2::Span) -> proc_macro2::Span {
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
-        let _check_overflow = Self::ORDINAL_SIZE;
+        let _check_overflow = <Self as ordinal_map::Ordinal>::ORDINAL_SIZE;
     }
 }
 
@@ -77,7 +77,7 @@ fn check_zero_size() -> syn::Stmt {
     syn::parse_quote! {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
-        if Self::ORDINAL_SIZE == 0 {
+        if <Self as ordinal_map::Ordinal>::ORDINAL_SIZE == 0 {
             return std::option::Option::None;
         }
     }
-- 
2.43.0


From cc56ad52b046fdfd0e96f14c6c4975b0b9eb49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 12/12] fix: derive where names in scope clash with generated
 code

---
 ordinal-map-derive/src/ordinal.rs      | 75 +++++++++++++++-----------
 ordinal-map/src/lib.rs                 |  3 ++
 ordinal-map/src/ordinal/impls/tuple.rs |  2 -
 3 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 2489ce7..e4356d0 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -9,7 +9,7 @@ pub(crate) fn derive_ordinal(
 
     let ident = input.ident;
 
-    let from_ordinal_ordinal_var = format_ident!("ordinal");
+    let from_ordinal_ordinal_var = local_var("ordinal");
 
     let (size, index_expr, from_index_expr) = match input.data {
         syn::Data::Struct(s) => {
@@ -43,16 +43,16 @@ pub(crate) fn derive_ordinal(
 
     Ok(syn::parse_quote_spanned! { span =>
         #[allow(clippy::all)]
-        impl #impl_generics ordinal_map::Ordinal for #ident #ty_generics #where_clause {
-            const ORDINAL_SIZE: usize = #size;
+        impl #impl_generics ::ordinal_map::Ordinal for #ident #ty_generics #where_clause {
+            const ORDINAL_SIZE: ::std::primitive::usize = #size;
 
-            fn ordinal(&self) -> usize {
+            fn ordinal(&self) -> ::std::primitive::usize {
                 #check_overflow
                 #index_expr
             }
 
             #[allow(unreachable_code, unused_mut)]
-            fn from_ordinal(#from_ordinal_ordinal_var: usize) -> std::option::Option<Self> {
+            fn from_ordinal(#from_ordinal_ordinal_var: ::std::primitive::usize) -> ::std::option::Option<Self> {
                 #check_zero_size
                 #from_index_expr
             }
@@ -60,6 +60,15 @@ pub(crate) fn derive_ordinal(
     })
 }
 
+/// Variable in generated code: must not clash with anything in scope at the use site.
+fn local_var(name: &str) -> syn::Ident {
+    format_ident!(
+        "__ordinal_map_{}",
+        name,
+        span = proc_macro2::Span::mixed_site()
+    )
+}
+
 /// `self` must resolve to the same variable everywhere in generated code,
 /// even if parts of the input come from different macro expansions.
 fn at_call_site(span: proc_macro2::Span) -> proc_macro2::Span {
@@ -67,9 +76,10 @@ fn at_call_site(span: proc_macro2::Span) -> proc_macro2::Span {
 }
 
 fn check_overflow() -> syn::Stmt {
+    let check_overflow_var = local_var("check_overflow");
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
-        let _check_overflow = <Self as ordinal_map::Ordinal>::ORDINAL_SIZE;
+        let #check_overflow_var = <Self as ::ordinal_map::Ordinal>::ORDINAL_SIZE;
     }
 }
 
@@ -77,17 +87,18 @@ fn check_zero_size() -> syn::Stmt {
     syn::parse_quote! {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
-        if <Self as ordinal_map::Ordinal>::ORDINAL_SIZE == 0 {
-            return std::option::Option::None;
+        if <Self as ::ordinal_map::Ordinal>::ORDINAL_SIZE == 0 {
+            return ::std::option::Option::None;
         }
     }
 }
 
 fn field_vars(fields: &syn::Fields) -> impl Iterator<Item = syn::Ident> + '_ {
-    fields.iter().enumerate().map(|(i, f)| match &f.ident {
-        Some(ident) => ident.clone(),
-        None => syn::Ident::new(&format!("f{}", i), f.span()),
-    })
+    (0..fields.len()).map(|i| local_var(&format!("f{}", i)))
+}
+
+fn field_names(fields: &syn::Fields) -> impl Iterator<Item = &Option<syn::Ident>> {
+    fields.iter().map(|f| &f.ident)
 }
 
 fn field_types(fields: &syn::Fields) -> impl Iterator<Item = &syn::Type> {
@@ -104,13 +115,13 @@ enum SizeExpr {
 impl SizeExpr {
     fn ordinal_size(ty: &syn::Type) -> SizeExpr {
         SizeExpr::Syn(syn::parse_quote_spanned! { ty.span() =>
-            <#ty as ordinal_map::Ordinal>::ORDINAL_SIZE
+            <#ty as ::ordinal_map::Ordinal>::ORDINAL_SIZE
         })
     }
 
     fn ordinal_expr(value: &syn::Expr) -> SizeExpr {
         SizeExpr::Syn(syn::parse_quote_spanned! { value.span() =>
-            ordinal_map::Ordinal::ordinal(#value)
+            ::ordinal_map::Ordinal::ordinal(#value)
         })
     }
 
@@ -273,8 +284,7 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
-    // Must not clash with field names.
-    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+    let rem = local_var("rem");
 
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
@@ -283,18 +293,18 @@ fn struct_from_ordinal<'a>(
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
-            syn::parse_quote_spanned! { field_var.span() =>
-                let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
+            syn::parse_quote_spanned! { field_ty.span() =>
+                let #field_var = <#field_ty as ::ordinal_map::Ordinal>::from_ordinal(
                     #rem % #field_ordinal_size).unwrap();
             },
-            syn::parse_quote_spanned! { field_var.span() =>
+            syn::parse_quote_spanned! { field_ty.span() =>
                 #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
         if #rem != 0 {
-            return std::option::Option::None
+            return ::std::option::Option::None
         }
     });
     let build = constructor(
@@ -306,7 +316,7 @@ fn struct_from_ordinal<'a>(
     Ok(syn::parse_quote_spanned! { span =>
         {
             #( #stmts )*
-            std::option::Option::Some(#build)
+            ::std::option::Option::Some(#build)
         }
     })
 }
@@ -361,9 +371,10 @@ impl StructGen {
                     }
                 }
                 syn::Fields::Named(_) => {
+                    let names = field_names(&self.s.fields);
                     syn::parse_quote_spanned! { self.s.struct_token.span =>
                         Self {
-                            #( #field_vars: #exprs, )*
+                            #( #names: #exprs, )*
                         }
                     }
                 }
@@ -415,9 +426,10 @@ impl EnumGen {
                     }
                 }
                 syn::Fields::Named(_) => {
+                    let names = field_names(&variant.fields);
                     syn::parse_quote_spanned! {
                         variant.span() =>
-                        Self::#variant_name { #( #vars ),* }
+                        Self::#variant_name { #( #names: #vars ),* }
                     }
                 }
             };
@@ -469,8 +481,9 @@ impl EnumGen {
                         }
                     }
                     syn::Fields::Named(_) => {
+                        let names = field_names(&variant.fields);
                         syn::parse_quote_spanned! { variant.span() =>
-                            Self::#variant_name { #( #exprs ),* }
+                            Self::#variant_name { #( #names: #exprs ),* }
                         }
                     }
                 },
@@ -485,15 +498,15 @@ impl EnumGen {
         Ok(syn::parse_quote_spanned! { self.e.enum_token.span =>
             {
                 #( #stmts )*
-                let _ignore = #ordinal_var;
-                std::option::Option::None
+                let _ = #ordinal_var;
+                ::std::option::Option::None
             }
         })
     }
 }
 
 fn impl_ordinal_for_tuple_n(n: u32) -> syn::Result<syn::ItemImpl> {
-    let ordinal_var = format_ident!("ordinal");
+    let ordinal_var = local_var("ordinal");
     let params: Vec<_> = (0..n)
         .map(|i| format_ident!("{}", char::try_from('A' as u32 + i).unwrap()))
         .collect();
@@ -524,15 +537,15 @@ fn impl_ordinal_for_tuple_n(n: u32) -> syn::Result<syn::ItemImpl> {
     let check_overflow = check_overflow();
     let check_zero_size = check_zero_size();
     Ok(syn::parse_quote! {
-        impl< #( #params: ordinal_map::Ordinal, )* > ordinal_map::Ordinal for ( #( #params, )* ) {
-            const ORDINAL_SIZE: usize = #ordinal_size;
+        impl< #( #params: ::ordinal_map::Ordinal, )* > ::ordinal_map::Ordinal for ( #( #params, )* ) {
+            const ORDINAL_SIZE: ::std::primitive::usize = #ordinal_size;
 
-            fn ordinal(&self) -> usize {
+            fn ordinal(&self) -> ::std::primitive::usize {
                 #check_overflow
                 #ordinal
             }
 
-            fn from_ordinal(#ordinal_var: usize) -> std::option::Option<Self> {
+            fn from_ordinal(#ordinal_var: ::std::primitive::usize) -> ::std::option::Option<Self> {
                 #check_zero_size
                 #from_ordinal
             }
diff --git a/ordinal-map/src/lib.rs b/ordinal-map/src/lib.rs
index 508e911..b6d91f0 100644
--- a/ordinal-map/src/lib.rs
+++ b/ordinal-map/src/lib.rs
@@ -33,6 +33,9 @@
 //! }
 //! ```
 
+// Generated code refers to this crate as `::ordinal_map`.
+extern crate self as ordinal_map;
+
 #[cfg(test)]
 #[macro_use(quickcheck)]
 extern crate quickcheck_macros;
diff --git a/ordinal-map/src/ordinal/impls/tuple.rs b/ordinal-map/src/ordinal/impls/tuple.rs
index 30e6e76..fc8125e 100644
--- a/ordinal-map/src/ordinal/impls/tuple.rs
+++ b/ordinal-map/src/ordinal/impls/tuple.rs
@@ -1,5 +1,3 @@
-use crate as ordinal_map;
-
 ordinal_map_derive::impl_ordinal_for_tuple! {}
 
 #[cfg(test)]
-- 
2.43.0

