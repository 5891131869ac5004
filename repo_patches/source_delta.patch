From b6162d36cb5523aab2610c6b1038f8d53f579d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 1/6] fix: push_empty of a size not multiple of VALUE_ALIGNMENT
 tripped set_pos's debug assertion

---
 ser_raw/src/storage/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..7cf0a10 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -356,9 +356,10 @@ pub trait Storage: Sized {
 		let size = mem::size_of::<T>() * len;
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
+		// Align position, ready for next push. `set_pos` requires an aligned position.
+		// Cannot exceed `capacity` as `capacity` is a multiple of `MAX_VALUE_ALIGNMENT`.
+		unsafe { self.set_pos(align_up_to(pos + size, Self::VALUE_ALIGNMENT)) };
 
-		self.align_after::<T>();
 		pos
 	}
 
-- 
2.43.0


From 0344b887babb1c36d55ed124673547afed3762ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 2/6] fix: push_empty_slice must not wrap when size of slice
 overflows

---
 ser_raw/src/storage/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 7cf0a10..4541a29 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -353,7 +353,10 @@ pub trait Storage: Sized {
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		// Unlike in `push_slice`, `len` is not length of an existing slice, so can overflow
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("Cannot grow storage further");
 		self.reserve(size);
 		let pos = self.pos();
 		// Align position, ready for next push. `set_pos` requires an aligned position.
-- 
2.43.0


From 2744643bc509d081fac16b97cd3bcb24f5ce5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 3/6] fix: pointer of an unallocated AlignedVec must be aligned
 to STORAGE_ALIGNMENT

---
 ser_raw/src/storage/aligned_vec.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/aligned_vec.rs b/ser_raw/src/storage/aligned_vec.rs
index b670ed2..03f2d86 100644
--- a/ser_raw/src/storage/aligned_vec.rs
+++ b/ser_raw/src/storage/aligned_vec.rs
@@ -104,7 +104,7 @@ impl<
 		let _ = Self::ASSERT_ALIGNMENTS_VALID;
 
 		Self {
-			ptr: NonNull::dangling(),
+			ptr: Self::dangling(),
 			capacity: 0,
 			pos: 0,
 		}
@@ -243,7 +243,7 @@ impl<
 			self.ptr = unsafe {
 				if new_cap == 0 {
 					self.dealloc();
-					NonNull::dangling()
+					Self::dangling()
 				} else {
 					self.realloc(new_cap)
 				}
@@ -305,6 +305,14 @@ impl<
 		self.capacity = new_cap;
 	}
 
+	/// Pointer for a storage with no memory allocated.
+	/// Aligned to `STORAGE_ALIGNMENT`, so ZSTs of any alignment can be read from it.
+	#[inline]
+	fn dangling() -> NonNull<u8> {
+		// `STORAGE_ALIGNMENT` cannot be 0
+		unsafe { NonNull::new_unchecked(STORAGE_ALIGNMENT as *mut u8) }
+	}
+
 	/// Allocate backing memory.
 	///
 	/// # Safety
-- 
2.43.0


From 4ff7b7d725baa84891e664cd7eb865d134838ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 4/6] fix: derive Serialize on enum variants with raw
 identifier fields

---
 ser_raw_derive/src/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index b0b6930..b8eb87a 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
-use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
+use syn::{ext::IdentExt, DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
 // TODO: Handle `ser_with` attribute
 
@@ -87,7 +87,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	// `Self::Foo {x: val_x} =>` instead of just `Self::Foo {x} =>`.
 	let field_aliases = field_idents
 		.iter()
-		.map(|ident| Ident::new(&("val_".to_string() + &ident.to_string()), ident.span()))
+		.map(|ident| Ident::new(&("val_".to_string() + &ident.unraw().to_string()), ident.span()))
 		.collect::<Vec<_>>();
 
 	let var_mappings = std::iter::zip(&field_idents, &field_aliases)
-- 
2.43.0


From 67d60a0f63b0fba2d2a5f7da37ffee0ac7f80670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 5/6] fix: derive Serialize silently ignored ser_with proxies
 with generic arguments

---
 ser_raw_derive/src/structs.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index b13b276..1452514 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
-	Meta, MetaList, NestedMeta, Path,
+	Path,
 };
 
 pub fn derive_struct(
@@ -72,13 +72,11 @@ fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
 	}
 }
 
-fn get_with(field: &Field) -> Option<Path> {
+pub(crate) fn get_with(field: &Field) -> Option<Path> {
 	let attrs = field
 		.attrs
 		.iter()
-		.map(|attr| attr.parse_meta())
-		.filter_map(Result::ok)
-		.filter(|attr| attr.path().is_ident("ser_with"))
+		.filter(|attr| attr.path.is_ident("ser_with"))
 		.collect::<Vec<_>>();
 
 	if attrs.len() == 0 {
@@ -89,15 +87,9 @@ fn get_with(field: &Field) -> Option<Path> {
 		panic!("Cannot have more than 1 `#[ser_with]` attribute on a field");
 	}
 
-	let attr = attrs.into_iter().nth(0).unwrap();
-	if let Meta::List(MetaList { nested, .. }) = attr {
-		let parts: Vec<NestedMeta> = nested.into_iter().collect();
-		if parts.len() == 1 {
-			let first = parts.into_iter().nth(0).unwrap();
-			if let NestedMeta::Meta(Meta::Path(with)) = first {
-				return Some(with);
-			}
-		}
-	}
-	panic!("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
+	// NB: Not `parse_meta`, as path can have generic args e.g. `#[ser_with(Proxy<u8>)]`
+	let with = attrs[0]
+		.parse_args::<Path>()
+		.expect("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
+	Some(with)
 }
-- 
2.43.0


From 4c4e97af40ce79aa87d926ddba11abbf2167d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 6/6] fix: derive Serialize on enums ignored ser_with on
 variant fields

---
 ser_raw_derive/src/enums.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index b8eb87a..adefe52 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,8 +1,8 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
-use syn::{ext::IdentExt, DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
+use syn::{ext::IdentExt, DataEnum, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
-// TODO: Handle `ser_with` attribute
+use crate::structs::get_with;
 
 pub fn derive_enum(
 	data: DataEnum,
@@ -63,7 +63,7 @@ fn get_match_for_unnamed_fields(ident: Ident, fields: FieldsUnnamed) -> Option<T
 		.into_iter()
 		.map(|index| Ident::new(&("val_".to_string() + &index.to_string()), ident.span()))
 		.collect::<Vec<_>>();
-	let stmts = get_field_stmts(&field_idents);
+	let stmts = get_field_stmts(&fields, &field_idents);
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident(#(#field_idents),*) => {
@@ -79,8 +79,8 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	}
 
 	let field_idents = fields
-		.into_iter()
-		.map(|field| field.ident.unwrap())
+		.iter()
+		.map(|field| field.ident.clone().unwrap())
 		.collect::<Vec<_>>();
 
 	// Aliases are required in case of a field called `serializer`.
@@ -94,7 +94,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 		.map(|(ident, alias)| quote! { #ident: #alias })
 		.collect::<Vec<_>>();
 
-	let stmts = get_field_stmts(&field_aliases);
+	let stmts = get_field_stmts(&fields, &field_aliases);
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident{#(#var_mappings),*} => {
@@ -103,13 +103,18 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	})
 }
 
-fn get_field_stmts(idents: &Vec<Ident>) -> Vec<TokenStream> {
-	idents
-		.iter()
-		.map(|ident| {
-			quote! {
+fn get_field_stmts<'a>(
+	fields: impl IntoIterator<Item = &'a Field>,
+	idents: &Vec<Ident>,
+) -> Vec<TokenStream> {
+	std::iter::zip(fields, idents)
+		.map(|(field, ident)| match get_with(field) {
+			Some(with) => quote! {
+				<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(#ident, serializer);
+			},
+			None => quote! {
 				::ser_raw::Serialize::<__S>::serialize_data(#ident, serializer);
-			}
+			},
 		})
 		.collect::<Vec<_>>()
 }
-- 
2.43.0

