From b1187b2f7522bd8f2f3a8783ed0f5a38ca5186a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 01/27] fix: compute collection length prefix size from the
 payload bytes

The length prefix of vectors, maps, sets and arrays is the byte size of
the encoded elements, not the element count.
---
 crates/mabo/src/buf/size.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..714d43d 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -68,12 +68,18 @@ pub const fn size_bytes_bytes(value: &Bytes) -> usize {
     size_u64(value.len() as u64) + value.len()
 }
 
+/// Calculate the size of a payload, including its length prefix (which is the payload's byte size).
+#[inline]
+const fn size_prefixed(size: usize) -> usize {
+    size_u64(size as u64) + size
+}
+
 /// Calculate the size of a Mabo `vec<T>` vector value.
 pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    size_prefixed(vec.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +88,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
+    size_prefixed(
+        map.iter()
             .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+            .sum(),
+    )
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +100,7 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    size_prefixed(set.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +116,7 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    size_prefixed(array.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From e824ff29865453220979f27e9bcc6683649b0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 02/27] fix: return an error for array payloads with too few
 elements

Instead of panicking when the payload ends before all N elements are
decoded.
---
 crates/mabo/src/buf/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..e737e73 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -274,7 +274,7 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() && vec.len() < N {
+    while vec.len() < N {
         vec.push(decode(&mut r)?);
     }
 
-- 
2.43.0


From a4797a745031aed1f2cc0094da4f913ab51c44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 03/27] fix: decode varints that are spread over multiple
 buffer chunks

A Buf isn't required to provide all its remaining data as a single chunk,
but varints were only decoded from the first one.
---
 crates/mabo/src/buf/decode.rs | 24 ++++++++++++++++++++++--
 crates/mabo/src/varint.rs     |  2 +-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index e737e73..5d56985 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -93,8 +93,28 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
+                let chunk = r.chunk();
+
+                if chunk.len() == r.remaining() || chunk.len() >= varint::max_size::<$ty>() {
+                    let (value, consumed) = varint::[<decode_ $ty>](chunk)?;
+                    r.advance(consumed);
+                    return Ok(value);
+                }
+
+                // The value might be spread over multiple non-contiguous chunks.
+                let mut buf = [0; varint::max_size::<$ty>()];
+                let mut len = 0;
+
+                while len < buf.len() && r.has_remaining() {
+                    buf[len] = r.get_u8();
+                    len += 1;
+
+                    if buf[len - 1] & 0x80 == 0 {
+                        break;
+                    }
+                }
+
+                let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
                 Ok(value)
             }
         }
diff --git a/crates/mabo/src/varint.rs b/crates/mabo/src/varint.rs
index 7f1e165..3323030 100644
--- a/crates/mabo/src/varint.rs
+++ b/crates/mabo/src/varint.rs
@@ -50,7 +50,7 @@ zigzag!(
 
 /// Calculate the maximum amount of bytes that an integer might require to be encoded as _varint_.
 #[inline]
-const fn max_size<T>() -> usize {
+pub(crate) const fn max_size<T>() -> usize {
     (std::mem::size_of::<T>() * 8).div_ceil(7)
 }
 
-- 
2.43.0


From 382a38025204c948548b2338067b65c53dc1f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 04/27] fix: accept types that are referenced through an
 imported module

A type that was found in an imported module was still reported as missing.
---
 crates/mabo-compiler/src/resolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..4ade67f 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -598,5 +598,5 @@ pub(crate) fn resolve_type_remotely(
         .into());
     }
 
-    Err(ty.error.into())
+    Ok(())
 }
-- 
2.43.0


From f7c2088dae38a1d47eacb636cfe8559876294b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 05/27] fix: resolve the full path of types in imported modules

Only the first segment was considered, so that a type in a nested module
was looked up in the imported module itself.
---
 crates/mabo-compiler/src/resolve/mod.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ade67f..2d319d3 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,14 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
-            .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?
-        };
+        // The first path segment is the name of the imported module itself.
+        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
-- 
2.43.0


From 43e9bfb2cd0f11a26948b3e591970cd0ae9b9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 06/27] fix: resolve types inside of non-zero types

---
 crates/mabo-compiler/src/resolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 2d319d3..a59a082 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -466,12 +466,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
-- 
2.43.0


From 0875a132b6ba29a96480bd059906410aeca92e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 07/27] fix: generate valid code for elements of tuples and
 boxed bytes

---
 crates/mabo-build/src/encode.rs | 15 ++++++++++++---
 crates/mabo-build/src/size.rs   | 20 ++++++++++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..16ee080 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -216,7 +216,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
@@ -321,14 +325,19 @@ fn compile_data_type(
             2..=12 => {
                 let encode = types.iter().enumerate().map(|(idx, ty)| {
                     let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx }, false).1
+                    compile_data_type(opts, ty, super::size::tuple_element(ty, &name, &idx), false)
+                        .1
                 });
                 (
                     quote! { ::mabo::FieldEncoding::LengthPrefixed },
                     if root {
                         let size = types.iter().enumerate().map(|(idx, ty)| {
                             let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            super::size::compile_data_type(opts, ty, quote! { &#name.#idx })
+                            super::size::compile_data_type(
+                                opts,
+                                ty,
+                                super::size::tuple_element(ty, &name, &idx),
+                            )
                         });
 
                         quote! { ::mabo::buf::encode_tuple(w, || { #(#size)+* }, |w| { #(#encode;)* }) }
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..6d6c442 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -200,7 +200,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
@@ -245,7 +246,7 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
             2..=12 => {
                 let types = types.iter().enumerate().map(|(idx, ty)| {
                     let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx })
+                    compile_data_type(opts, ty, tuple_element(ty, &name, &idx))
                 });
                 quote! { #(#types)+* }
             }
@@ -260,3 +261,18 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         }
     }
 }
+
+/// Create the expression that references a single element of a tuple.
+///
+/// Types that further access the element (like a method call) need it wrapped in parenthesis, as
+/// the reference would otherwise be applied to the outcome of the access.
+pub(crate) fn tuple_element(
+    ty: &Type<'_>,
+    name: &TokenStream,
+    idx: &proc_macro2::Literal,
+) -> TokenStream {
+    match ty {
+        Type::Option(_) | Type::NonZero(_) | Type::Tuple(_) => quote! { (&#name.#idx) },
+        _ => quote! { &#name.#idx },
+    }
+}
-- 
2.43.0


From fc433713a4d06ddd650d6dff1e770105ab80e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 08/27] fix: stop decoding collections of elements without any
 data

---
 crates/mabo/src/buf/decode.rs | 60 ++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 5d56985..98a19a2 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -40,6 +40,10 @@ pub enum Error {
     /// The value of a non-zero field was actually zero.
     #[error("non-zero value was found to be zero")]
     Zero,
+    /// The element of a collection doesn't take up any space in the payload, which means that it
+    /// would be repeated without end.
+    #[error("collection element doesn't contain any data")]
+    EmptyElement,
 }
 
 /// Special field identifier that marks the end of a struct or enum variant.
@@ -181,6 +185,20 @@ pub fn decode_bytes_bytes(r: &mut impl Buf) -> Result<Bytes> {
     Ok(r.copy_to_bytes(len as usize))
 }
 
+/// Decode the elements of a collection, until there is no more data left in the buffer.
+fn decode_elements<R: Buf>(r: &mut R, mut decode: impl FnMut(&mut R) -> Result<()>) -> Result<()> {
+    while r.has_remaining() {
+        let remaining = r.remaining();
+        decode(r)?;
+
+        if r.remaining() == remaining {
+            return Err(Error::EmptyElement);
+        }
+    }
+
+    Ok(())
+}
+
 /// Decode a Mabo `vec<T>` vector value.
 ///
 /// # Errors
@@ -198,9 +216,10 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() {
-        vec.push(decode(&mut r)?);
-    }
+    decode_elements(&mut r, |r| {
+        vec.push(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(vec)
 }
@@ -228,9 +247,10 @@ where
     let mut map = HashMap::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() {
-        map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
-    }
+    decode_elements(&mut r, |r| {
+        map.insert(decode_key(r)?, decode_value(r)?);
+        Ok(())
+    })?;
 
     Ok(map)
 }
@@ -253,9 +273,10 @@ where
     let mut set = HashSet::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() {
-        set.insert(decode(&mut r)?);
-    }
+    decode_elements(&mut r, |r| {
+        set.insert(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(set)
 }
@@ -402,9 +423,10 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() {
-        vec.push(decode(&mut r)?);
-    }
+    decode_elements(&mut r, |r| {
+        vec.push(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(NonZero::<Vec<_>>::new(vec).unwrap())
 }
@@ -434,9 +456,10 @@ where
     let mut map = HashMap::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() {
-        map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
-    }
+    decode_elements(&mut r, |r| {
+        map.insert(decode_key(r)?, decode_value(r)?);
+        Ok(())
+    })?;
 
     Ok(NonZero::<HashMap<_, _>>::new(map).unwrap())
 }
@@ -461,9 +484,10 @@ where
     let mut set = HashSet::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() {
-        set.insert(decode(&mut r)?);
-    }
+    decode_elements(&mut r, |r| {
+        set.insert(decode(r)?);
+        Ok(())
+    })?;
 
     Ok(NonZero::<HashSet<_>>::new(set).unwrap())
 }
-- 
2.43.0


From 3fa8d0132e6e777bc9f0c232577e1fd7d460b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 09/27] fix: resolve types in the target of type aliases

---
 crates/mabo-compiler/src/resolve/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index a59a082..a6cbc74 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -370,6 +370,9 @@ pub(crate) fn resolve_module_types<'a>(
                     resolve_fields(missing, &variant.fields, e.generics.as_ref(), module);
                 }
             }
+            Definition::TypeAlias(a) => {
+                resolve(missing, &a.target, a.generics.as_ref(), module);
+            }
             _ => {}
         }
     }
-- 
2.43.0


From bcb20381da12f8bac815ed6d5c876161e4229059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 10/27] fix: validate generics and tuples inside of non-zero
 types

---
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From ff53be4d82b7fc29dacad364c5a108613cdae55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 11/27] fix: reject non-zero types with an inner type that
 can't be non-zero

---
 crates/mabo-compiler/src/validate/mod.rs      |  10 ++
 crates/mabo-compiler/src/validate/non_zero.rs | 114 ++++++++++++++++++
 crates/mabo-lsp/src/handlers/compile.rs       |   4 +
 3 files changed, 128 insertions(+)
 create mode 100644 crates/mabo-compiler/src/validate/non_zero.rs

diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 73cceba..8c60ae0 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -12,12 +12,14 @@ pub use self::{
         DuplicateVariantId,
     },
     names::{DuplicateFieldName, DuplicateName, DuplicateNameInModule, DuplicateVariantName},
+    non_zero::InvalidNonZero,
     tuples::{InvalidTupleAmount, TupleSize},
 };
 
 mod generics;
 mod ids;
 mod names;
+mod non_zero;
 mod tuples;
 
 /// Reason why a schema was invalid.
@@ -39,6 +41,10 @@ pub enum Error {
     #[error("invalid tuple element size found")]
     #[diagnostic(transparent)]
     TupleSize(#[from] TupleSize),
+    /// Non-zero type defined with an inner type that can't be non-zero.
+    #[error("invalid non-zero type found")]
+    #[diagnostic(transparent)]
+    InvalidNonZero(#[from] InvalidNonZero),
 }
 
 impl From<DuplicateFieldId> for Error {
@@ -63,6 +69,7 @@ impl From<DuplicateFieldName> for Error {
 /// - Fields names in structs or enum variants are unique.
 /// - Generic type parameters in a struct or enum are unique.
 /// - All generic type parameters are used.
+/// - Non-zero types only contain types which can be non-zero.
 ///
 /// # Errors
 ///
@@ -83,15 +90,18 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
             names::validate_struct_names(s)?;
             generics::validate_struct_generics(s)?;
             tuples::validate_struct_tuples(s)?;
+            non_zero::validate_struct_non_zeros(s)?;
         }
         Definition::Enum(e) => {
             ids::validate_enum_ids(e)?;
             names::validate_enum_names(e)?;
             generics::validate_enum_generics(e)?;
             tuples::validate_enum_tuples(e)?;
+            non_zero::validate_enum_non_zeros(e)?;
         }
         Definition::TypeAlias(a) => {
             tuples::validate_alias_tuples(a)?;
+            non_zero::validate_alias_non_zeros(a)?;
         }
         Definition::Const(c) => {
             tuples::validate_const_tuples(c)?;
diff --git a/crates/mabo-compiler/src/validate/non_zero.rs b/crates/mabo-compiler/src/validate/non_zero.rs
new file mode 100644
index 0000000..56d8c48
--- /dev/null
+++ b/crates/mabo-compiler/src/validate/non_zero.rs
@@ -0,0 +1,114 @@
+use std::ops::Range;
+
+use mabo_parser::{DataType, Enum, Fields, Spanned, Struct, Type, TypeAlias};
+use miette::Diagnostic;
+use thiserror::Error;
+
+/// Non-zero type with an inner type that doesn't have any non-zero representation.
+#[derive(Debug, Diagnostic, Error)]
+#[error("the type `{ty}` can't be non-zero")]
+#[diagnostic(help("only integers, strings, bytes and collections can be non-zero"))]
+pub struct InvalidNonZero {
+    /// The inner type that's not allowed.
+    pub ty: String,
+    /// Source location of the inner type.
+    #[label("used here")]
+    pub used: Range<usize>,
+}
+
+pub(crate) fn validate_struct_non_zeros(value: &Struct<'_>) -> Result<(), InvalidNonZero> {
+    validate_field_non_zeros(&value.fields)
+}
+
+pub(crate) fn validate_enum_non_zeros(value: &Enum<'_>) -> Result<(), InvalidNonZero> {
+    value
+        .variants
+        .values()
+        .try_for_each(|variant| validate_field_non_zeros(&variant.fields))
+}
+
+fn validate_field_non_zeros(value: &Fields<'_>) -> Result<(), InvalidNonZero> {
+    match value {
+        Fields::Named(_, named) => named
+            .values()
+            .try_for_each(|field| validate_non_zeros(&field.ty)),
+        Fields::Unnamed(_, unnamed) => unnamed
+            .values()
+            .try_for_each(|field| validate_non_zeros(&field.ty)),
+        Fields::Unit => Ok(()),
+    }
+}
+
+pub(crate) fn validate_alias_non_zeros(value: &TypeAlias<'_>) -> Result<(), InvalidNonZero> {
+    validate_non_zeros(&value.target)
+}
+
+/// Iterate recursively through the data type and ensure that each discovered non-zero type contains
+/// a type for which it is defined what it means to be non-zero.
+fn validate_non_zeros(value: &Type<'_>) -> Result<(), InvalidNonZero> {
+    match &value.value {
+        DataType::Bool
+        | DataType::U8
+        | DataType::U16
+        | DataType::U32
+        | DataType::U64
+        | DataType::U128
+        | DataType::I8
+        | DataType::I16
+        | DataType::I32
+        | DataType::I64
+        | DataType::I128
+        | DataType::F32
+        | DataType::F64
+        | DataType::String
+        | DataType::StringRef
+        | DataType::Bytes
+        | DataType::BytesRef
+        | DataType::BoxString
+        | DataType::BoxBytes => Ok(()),
+        DataType::Vec { ty, .. }
+        | DataType::HashSet { ty, .. }
+        | DataType::Option { ty, .. }
+        | DataType::Array { ty, .. } => validate_non_zeros(ty),
+        DataType::HashMap { key, value, .. } => {
+            validate_non_zeros(key)?;
+            validate_non_zeros(value)
+        }
+        DataType::NonZero { ty, .. } => match &ty.value {
+            DataType::U8
+            | DataType::U16
+            | DataType::U32
+            | DataType::U64
+            | DataType::U128
+            | DataType::I8
+            | DataType::I16
+            | DataType::I32
+            | DataType::I64
+            | DataType::I128
+            | DataType::String
+            | DataType::StringRef
+            | DataType::Bytes
+            | DataType::BytesRef
+            | DataType::Vec { .. }
+            | DataType::HashMap { .. }
+            | DataType::HashSet { .. } => validate_non_zeros(ty),
+            DataType::Bool
+            | DataType::F32
+            | DataType::F64
+            | DataType::Option { .. }
+            | DataType::NonZero { .. }
+            | DataType::BoxString
+            | DataType::BoxBytes
+            | DataType::Tuple { .. }
+            | DataType::Array { .. }
+            | DataType::External(_) => Err(InvalidNonZero {
+                ty: ty.to_string(),
+                used: ty.span().into(),
+            }),
+        },
+        DataType::Tuple { types, .. } => types.values().try_for_each(validate_non_zeros),
+        DataType::External(ty) => ty.generics.as_ref().map_or(Ok(()), |generics| {
+            generics.values().try_for_each(validate_non_zeros)
+        }),
+    }
+}
diff --git a/crates/mabo-lsp/src/handlers/compile.rs b/crates/mabo-lsp/src/handlers/compile.rs
index 8efe54f..25a00e7 100644
--- a/crates/mabo-lsp/src/handlers/compile.rs
+++ b/crates/mabo-lsp/src/handlers/compile.rs
@@ -221,6 +221,10 @@ fn validate_schema_diagnostic(file: Uri, index: &Index, e: validate::Error) -> D
             let message = e.to_string();
             return Diagnostic::new_simple(get_range(index, e.declared), message);
         }
+        Error::InvalidNonZero(e) => {
+            let message = e.to_string();
+            return Diagnostic::new_simple(get_range(index, e.used), message);
+        }
     };
 
     diagnostic_with_related(
-- 
2.43.0


From 8f2b746efca29ba28247ca9b1c884b1790069012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 12/27] fix: reject constants of types which can't be constant

---
 crates/mabo-compiler/src/validate/consts.rs | 53 +++++++++++++++++++++
 crates/mabo-compiler/src/validate/mod.rs    |  8 ++++
 crates/mabo-lsp/src/handlers/compile.rs     |  4 ++
 3 files changed, 65 insertions(+)
 create mode 100644 crates/mabo-compiler/src/validate/consts.rs

diff --git a/crates/mabo-compiler/src/validate/consts.rs b/crates/mabo-compiler/src/validate/consts.rs
new file mode 100644
index 0000000..61c7702
--- /dev/null
+++ b/crates/mabo-compiler/src/validate/consts.rs
@@ -0,0 +1,53 @@
+use std::ops::Range;
+
+use mabo_parser::{Const, DataType, Spanned};
+use miette::Diagnostic;
+use thiserror::Error;
+
+/// Constant with a type that can't be used for constants.
+#[derive(Debug, Diagnostic, Error)]
+#[error("the type `{ty}` can't be used for constants")]
+#[diagnostic(help("only booleans, integers, floats, strings and bytes can be constants"))]
+pub struct InvalidConstType {
+    /// The type that's not allowed.
+    pub ty: String,
+    /// Source location of the type.
+    #[label("used here")]
+    pub used: Range<usize>,
+}
+
+/// Ensure the constant is of a type for which there are literals.
+pub(crate) fn validate_const_type(value: &Const<'_>) -> Result<(), InvalidConstType> {
+    match &value.ty.value {
+        DataType::Bool
+        | DataType::U8
+        | DataType::U16
+        | DataType::U32
+        | DataType::U64
+        | DataType::U128
+        | DataType::I8
+        | DataType::I16
+        | DataType::I32
+        | DataType::I64
+        | DataType::I128
+        | DataType::F32
+        | DataType::F64
+        | DataType::String
+        | DataType::StringRef
+        | DataType::Bytes
+        | DataType::BytesRef => Ok(()),
+        DataType::Vec { .. }
+        | DataType::HashMap { .. }
+        | DataType::HashSet { .. }
+        | DataType::Option { .. }
+        | DataType::NonZero { .. }
+        | DataType::BoxString
+        | DataType::BoxBytes
+        | DataType::Tuple { .. }
+        | DataType::Array { .. }
+        | DataType::External(_) => Err(InvalidConstType {
+            ty: value.ty.to_string(),
+            used: value.ty.span().into(),
+        }),
+    }
+}
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 8c60ae0..8e1c0eb 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -6,6 +6,7 @@ use miette::Diagnostic;
 use thiserror::Error;
 
 pub use self::{
+    consts::InvalidConstType,
     generics::{DuplicateGenericName, InvalidGenericType, UnusedGeneric},
     ids::{
         DuplicateFieldId, DuplicateId, DuplicateNamedFieldId, DuplicateUnnamedFieldId,
@@ -16,6 +17,7 @@ pub use self::{
     tuples::{InvalidTupleAmount, TupleSize},
 };
 
+mod consts;
 mod generics;
 mod ids;
 mod names;
@@ -45,6 +47,10 @@ pub enum Error {
     #[error("invalid non-zero type found")]
     #[diagnostic(transparent)]
     InvalidNonZero(#[from] InvalidNonZero),
+    /// Constant defined with a type that can't be used for constants.
+    #[error("invalid constant type found")]
+    #[diagnostic(transparent)]
+    InvalidConstType(#[from] InvalidConstType),
 }
 
 impl From<DuplicateFieldId> for Error {
@@ -69,6 +75,7 @@ impl From<DuplicateFieldName> for Error {
 /// - Fields names in structs or enum variants are unique.
 /// - Generic type parameters in a struct or enum are unique.
 /// - All generic type parameters are used.
+/// - Constants only use basic types.
 /// - Non-zero types only contain types which can be non-zero.
 ///
 /// # Errors
@@ -105,6 +112,7 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
         }
         Definition::Const(c) => {
             tuples::validate_const_tuples(c)?;
+            consts::validate_const_type(c)?;
         }
         Definition::Import(_) => {}
     }
diff --git a/crates/mabo-lsp/src/handlers/compile.rs b/crates/mabo-lsp/src/handlers/compile.rs
index 25a00e7..1efb491 100644
--- a/crates/mabo-lsp/src/handlers/compile.rs
+++ b/crates/mabo-lsp/src/handlers/compile.rs
@@ -225,6 +225,10 @@ fn validate_schema_diagnostic(file: Uri, index: &Index, e: validate::Error) -> D
             let message = e.to_string();
             return Diagnostic::new_simple(get_range(index, e.used), message);
         }
+        Error::InvalidConstType(e) => {
+            let message = e.to_string();
+            return Diagnostic::new_simple(get_range(index, e.used), message);
+        }
     };
 
     diagnostic_with_related(
-- 
2.43.0


From c5632b3926ded97fd625238675b3199e2042ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 13/27] fix: reject field IDs that can't be encoded

---
 crates/mabo-compiler/src/lib.rs          |  2 +-
 crates/mabo-compiler/src/validate/ids.rs | 57 +++++++++++++++++++++++-
 crates/mabo-compiler/src/validate/mod.rs |  9 +++-
 crates/mabo-lsp/src/handlers/compile.rs  |  4 ++
 4 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
diff --git a/crates/mabo-compiler/src/validate/ids.rs b/crates/mabo-compiler/src/validate/ids.rs
index b772025..55518b9 100644
--- a/crates/mabo-compiler/src/validate/ids.rs
+++ b/crates/mabo-compiler/src/validate/ids.rs
@@ -1,6 +1,6 @@
 use std::ops::Range;
 
-use mabo_parser::{Enum, Fields, Id, Spanned, Struct};
+use mabo_parser::{Enum, Fields, Id, Span, Spanned, Struct};
 use miette::Diagnostic;
 use rustc_hash::{FxBuildHasher, FxHashMap};
 use thiserror::Error;
@@ -90,11 +90,66 @@ pub struct DuplicateUnnamedFieldId {
     pub second: Range<usize>,
 }
 
+/// Field ID that can't be represented in the wire format.
+#[derive(Debug, Diagnostic, Error)]
+#[error("field ID {} is out of range", id.get())]
+#[diagnostic(help("field IDs must be between 1 and {MAX_FIELD_ID}"))]
+pub struct InvalidFieldId {
+    /// The ID that is out of range.
+    pub id: Id,
+    /// Source location of the ID.
+    #[label("used here")]
+    pub used: Range<usize>,
+}
+
+/// Biggest field ID that can be encoded, as part of the value is taken by the field encoding.
+const MAX_FIELD_ID: u32 = u32::MAX >> 3;
+
 /// Ensure all IDs inside a struct are unique (which are the field IDs).
 pub(crate) fn validate_struct_ids(value: &Struct<'_>) -> Result<(), DuplicateFieldId> {
     validate_field_ids(&value.fields)
 }
 
+/// Ensure all field IDs inside a struct can be encoded.
+pub(crate) fn validate_struct_id_range(value: &Struct<'_>) -> Result<(), InvalidFieldId> {
+    validate_field_id_range(&value.fields)
+}
+
+/// Ensure all field IDs inside all variants of an enum can be encoded.
+pub(crate) fn validate_enum_id_range(value: &Enum<'_>) -> Result<(), InvalidFieldId> {
+    value
+        .variants
+        .values()
+        .try_for_each(|variant| validate_field_id_range(&variant.fields))
+}
+
+/// Ensure all field IDs of a struct or enum can be encoded. The ID 0 is reserved as end marker.
+fn validate_field_id_range(value: &Fields<'_>) -> Result<(), InvalidFieldId> {
+    let mut id_gen = IdGenerator::new();
+    let mut validate = |id: Option<&Id>, span: Span| {
+        let id = id_gen.next_with_span(id, || span);
+
+        if (1..=MAX_FIELD_ID).contains(&id.get()) {
+            Ok(())
+        } else {
+            Err(InvalidFieldId {
+                used: id.span().into(),
+                id,
+            })
+        }
+    };
+
+    match value {
+        Fields::Named(_, named) => named
+            .values()
+            .try_for_each(|field| validate(field.id.as_ref(), field.span())),
+        Fields::Unnamed(_, unnamed) => unnamed
+            .values()
+            .try_for_each(|field| validate(field.id.as_ref(), field.span())),
+        Fields::Unit => Ok(()),
+    }
+}
+
 /// Ensure all IDs inside an enum are unique, which means all variants have a unique ID, plus all
 /// potential fields in a variant are unique (within that variant).
 pub(crate) fn validate_enum_ids(value: &Enum<'_>) -> Result<(), DuplicateId> {
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 8e1c0eb..44a889e 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -10,7 +10,7 @@ pub use self::{
     generics::{DuplicateGenericName, InvalidGenericType, UnusedGeneric},
     ids::{
         DuplicateFieldId, DuplicateId, DuplicateNamedFieldId, DuplicateUnnamedFieldId,
-        DuplicateVariantId,
+        DuplicateVariantId, InvalidFieldId,
     },
     names::{DuplicateFieldName, DuplicateName, DuplicateNameInModule, DuplicateVariantName},
     non_zero::InvalidNonZero,
@@ -31,6 +31,10 @@ pub enum Error {
     #[error("duplicate ID found")]
     #[diagnostic(transparent)]
     DuplicateId(#[from] DuplicateId),
+    /// Field ID that can't be represented in the wire format.
+    #[error("invalid field ID found")]
+    #[diagnostic(transparent)]
+    InvalidFieldId(#[from] InvalidFieldId),
     /// Duplicate name was used in a definition, or its name clashes with another one.
     #[error("duplicate name found")]
     #[diagnostic(transparent)]
@@ -72,6 +76,7 @@ impl From<DuplicateFieldName> for Error {
 /// - All definitions (struct, enums, modules, ...) have a unique name within their module
 ///   namespace.
 /// - IDs in field names or enum variant names are unique.
+/// - IDs of fields are within the range that can be encoded.
 /// - Fields names in structs or enum variants are unique.
 /// - Generic type parameters in a struct or enum are unique.
 /// - All generic type parameters are used.
@@ -94,6 +99,7 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
         }
         Definition::Struct(s) => {
             ids::validate_struct_ids(s)?;
+            ids::validate_struct_id_range(s)?;
             names::validate_struct_names(s)?;
             generics::validate_struct_generics(s)?;
             tuples::validate_struct_tuples(s)?;
@@ -101,6 +107,7 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
         }
         Definition::Enum(e) => {
             ids::validate_enum_ids(e)?;
+            ids::validate_enum_id_range(e)?;
             names::validate_enum_names(e)?;
             generics::validate_enum_generics(e)?;
             tuples::validate_enum_tuples(e)?;
diff --git a/crates/mabo-lsp/src/handlers/compile.rs b/crates/mabo-lsp/src/handlers/compile.rs
index 1efb491..48d4227 100644
--- a/crates/mabo-lsp/src/handlers/compile.rs
+++ b/crates/mabo-lsp/src/handlers/compile.rs
@@ -205,6 +205,10 @@ fn validate_schema_diagnostic(file: Uri, index: &Index, e: validate::Error) -> D
                 DuplicateFieldId::Unnamed(e) => (e.to_string(), e.first, e.second),
             },
         },
+        Error::InvalidFieldId(e) => {
+            let message = e.to_string();
+            return Diagnostic::new_simple(get_range(index, e.used), message);
+        }
         Error::DuplicateName(e) => match e {
             DuplicateName::EnumVariant(e) => (e.to_string(), e.first, e.second),
             DuplicateName::Field(e) => (e.to_string(), e.first, e.second),
-- 
2.43.0


From 3c3345c2e12d7eb94c804bb9b112f7f9f5266b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 14/27] fix: don't overflow the next free field and variant ID

---
 crates/mabo-meta/src/lib.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..931c929 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -7,10 +7,13 @@ use std::{borrow::Cow, fmt::Write};
 
 use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 
+/// Biggest field ID that can be encoded, as part of the value is taken by the field encoding.
+const MAX_FIELD_ID: u32 = u32::MAX >> 3;
+
 /// Get the next free ID for an enum variant.
 #[must_use]
 pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+    next_id(variants.iter().map(|variant| variant.id), u32::MAX)
 }
 
 /// Get the next free ID for a struct or enum variant field.
@@ -19,15 +22,24 @@ pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
     if fields.kind == FieldKind::Unit {
         None
     } else {
-        Some(
-            fields
-                .fields
-                .iter()
-                .map(|field| field.id)
-                .max()
-                .unwrap_or(0)
-                + 1,
-        )
+        Some(next_id(
+            fields.fields.iter().map(|field| field.id),
+            MAX_FIELD_ID,
+        ))
+    }
+}
+
+/// Get the ID that follows the highest existing one, or if there is no such ID the lowest that isn't
+/// in use.
+fn next_id(ids: impl Iterator<Item = u32> + Clone, limit: u32) -> u32 {
+    let highest = ids.clone().max().unwrap_or(0);
+
+    if highest < limit {
+        highest + 1
+    } else {
+        (1..limit)
+            .find(|id| ids.clone().all(|used| used != *id))
+            .unwrap_or(limit)
     }
 }
 
-- 
2.43.0


From 95ecd5ee3649c6d9b6f4cc9a5e1ca9d1bef9ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 15/27] fix: calculate array wire sizes from their payload and
 without overflows

---
 crates/mabo-meta/src/lib.rs | 55 +++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 931c929..5a25a10 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -157,7 +157,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .and_then(|max| max.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -166,7 +169,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .and_then(|max| max.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -179,20 +185,28 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
     let inner = wire_size(ty);
+    let size = size as usize;
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min)
+        .saturating_mul(size);
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max)
+        .and_then(|max| max.checked_mul(size));
+    let length = WireSize {
+        label: "u64".into(),
+        min: varint_size(min),
+        max: max.map(varint_size),
+        inner: Vec::new(),
+    };
 
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
-        inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
-            ("element".into(), inner),
-        ],
+        min: min.saturating_add(length.min),
+        max: max.and_then(|max| max.checked_add(varint_size(max))),
+        inner: vec![("length".into(), Some(length)), ("element".into(), inner)],
     }
 }
 
@@ -208,16 +222,17 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
         min: inner
             .iter()
             .filter_map(|(_, size)| size.as_ref())
-            .map(|size| size.min)
-            .sum(),
-        max: inner
-            .iter()
-            .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .fold(0, |total, size| total.saturating_add(size.min)),
+        max: inner.iter().try_fold(0_usize, |total, (_, size)| {
+            total.checked_add(size.as_ref()?.max?)
+        }),
         inner,
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+/// Calculate the size of a payload's length, which is encoded as varint.
+fn varint_size(value: usize) -> usize {
+    ((usize::BITS - value.leading_zeros()) as usize)
+        .div_ceil(7)
+        .max(1)
 }
-- 
2.43.0


From eaba98ca6a669037c757d65f70722526122e9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 16/27] fix: print floats and null characters so that they can
 be parsed again

---
 crates/mabo-parser/src/lib.rs             | 2 ++
 crates/mabo-parser/src/parser/literals.rs | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..f029f3b 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1266,6 +1266,8 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
+            // Floats are always written with a fraction, to tell them apart from integers.
+            Self::Float(v) if v.fract() == 0.0 => write!(f, "{v:.1}"),
             Self::Float(v) => v.fmt(f),
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index e5e19bb..87ed3a0 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -130,6 +130,7 @@ fn parse_float(input: &mut Input<'_>) -> Result<f64, Cause> {
     )
         .take()
         .parse_to()
+        .verify(|v: &f64| v.is_finite())
         .parse_next(input)
 }
 
@@ -195,7 +196,7 @@ fn parse_string_escaped_char(input: &mut Input<'_>) -> Result<char, Cause> {
             'b' => 'b'.value('\u{08}'),
             'f' => 'f'.value('\u{0c}'),
             '\\' => '\\'.value('\\'),
-            '\0' => '\0'.value('\0'),
+            '0' => '0'.value('\0'),
             '/' => '/'.value('/'),
             '"' => '"'.value('"'),
             'u' => parse_string_unicode,
-- 
2.43.0


From fc47a47cb5a045549b00f55984a6b5fb81038430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 17/27] fix: show the declaration of a wrongly imported element
 in its own schema

---
 crates/mabo-compiler/src/resolve/error.rs |  8 ++++-
 crates/mabo-compiler/src/resolve/mod.rs   | 38 +++++++++++++++++------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/error.rs b/crates/mabo-compiler/src/resolve/error.rs
index 1d32dd7..ae138eb 100644
--- a/crates/mabo-compiler/src/resolve/error.rs
+++ b/crates/mabo-compiler/src/resolve/error.rs
@@ -197,7 +197,13 @@ pub enum ResolveImport {
     /// The referenced definition can't be used as type.
     #[error(transparent)]
     #[diagnostic(transparent)]
-    InvalidKind(#[from] InvalidKind),
+    InvalidKind(#[from] Box<RemoteInvalidKind>),
+}
+
+impl From<RemoteInvalidKind> for ResolveImport {
+    fn from(value: RemoteInvalidKind) -> Self {
+        Self::InvalidKind(value.into())
+    }
 }
 
 /// The referenced schema wasn't found in the list of available schemas.
diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index a6cbc74..f150dc1 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -204,18 +204,12 @@ impl Module<'_> {
                 })?;
 
             match definition.kind {
-                DeclarationKind::Alias => Err(InvalidKind {
-                    kind: "alias",
-                    declared: definition.name.span().into(),
-                    used: element.span().into(),
+                DeclarationKind::Alias => {
+                    Err(self.invalid_import("alias", definition, element).into())
                 }
-                .into()),
-                DeclarationKind::Const => Err(InvalidKind {
-                    kind: "const",
-                    declared: definition.name.span().into(),
-                    used: element.span().into(),
+                DeclarationKind::Const => {
+                    Err(self.invalid_import("const", definition, element).into())
                 }
-                .into()),
                 DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics } => {
                     Ok(ResolvedImport::Type {
                         schema: self.schema,
@@ -229,6 +223,30 @@ impl Module<'_> {
         }
     }
 
+    /// Create the error for an import of something that can't be used as type.
+    fn invalid_import(
+        &self,
+        kind: &'static str,
+        definition: &Declaration<'_>,
+        element: &Name<'_>,
+    ) -> RemoteInvalidKind {
+        RemoteInvalidKind {
+            kind,
+            used: element.span().into(),
+            declaration: [RemoteInvalidKindDeclaration {
+                kind,
+                source_code: NamedSource::new(
+                    self.schema
+                        .path
+                        .as_ref()
+                        .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
+                    self.schema.source.to_owned(),
+                ),
+                used: definition.name.span().into(),
+            }],
+        }
+    }
+
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
         // The first path segment is the name of the imported module itself.
         let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
-- 
2.43.0


From db5a352bbf146c02cdc76bb524ba8e8fd3e6b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 18/27] fix: clamp positions behind the end of a line and
 reject those outside of the document

---
 crates/mabo-lsp/src/handlers/index.rs | 34 ++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..d5f8b99 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use anyhow::{Context, Result};
-use line_index::{LineCol, LineIndex, TextSize, WideEncoding, WideLineCol};
+use line_index::{LineIndex, TextSize, WideEncoding, WideLineCol};
 use lsp_types as lsp;
 
 pub struct Index {
@@ -55,8 +55,23 @@ impl Index {
         ))
     }
 
+    /// Convert the position to a byte offset.
+    ///
+    /// As defined by the protocol, positions past the end of a line refer to the end of that line.
     pub fn get_offset(&self, position: lsp::Position) -> Result<usize> {
-        let line_col = if let Some(encoding) = self.encoding {
+        let line = self
+            .index
+            .line(position.line)
+            .context("missing line for position")?;
+
+        // All lines but the last one end with a line break.
+        let line_end = if self.index.line(position.line + 1).is_some() {
+            line.end() - TextSize::of('\n')
+        } else {
+            line.end()
+        };
+
+        let col = if let Some(encoding) = self.encoding {
             self.index
                 .to_utf8(
                     encoding,
@@ -65,18 +80,15 @@ impl Index {
                         col: position.character,
                     },
                 )
-                .context("missing utf-16 position")?
+                .map_or(u32::MAX, |line_col| line_col.col)
         } else {
-            LineCol {
-                line: position.line,
-                col: position.character,
-            }
+            position.character
         };
 
-        Ok(self
-            .index
-            .offset(line_col)
-            .context("missing offset position")?
+        Ok(line
+            .start()
+            .checked_add(TextSize::new(col))
+            .map_or(line_end, |offset| offset.min(line_end))
             .into())
     }
 }
-- 
2.43.0


From 6d0370736cd12a059a9f5a628f1382f03f34f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 19/27] fix: apply changes of a document one after the other
 and ignore inverted ranges

---
 crates/mabo-lsp/src/handlers/mod.rs | 49 +++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..1ba5eca 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -2,7 +2,7 @@
 
 use std::sync::LazyLock;
 
-use anyhow::{Context, Result};
+use anyhow::{Context, Result, ensure};
 use line_index::{LineIndex, TextRange};
 use log::{debug, error, warn};
 use lsp_types::{
@@ -202,18 +202,25 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
 
         update_file(params.text_document.uri.clone(), file, |rope, index| {
             for change in params.content_changes {
-                let range = match convert_range(index, change.range) {
-                    Ok(range) => range,
-                    Err(e) => {
-                        error!(error:err = *e; "invalid change");
-                        continue;
-                    }
-                };
-
-                let start = rope.byte_to_char(range.start().into());
-                let end = rope.byte_to_char(range.end().into());
-                rope.remove(start..end);
-                rope.insert(start, &change.text);
+                // Changes build upon each other, and without range they replace the whole text.
+                if let Some(range) = change.range {
+                    let range = match convert_range(index, range) {
+                        Ok(range) => range,
+                        Err(e) => {
+                            error!(error:err = *e; "invalid change");
+                            continue;
+                        }
+                    };
+
+                    let start = rope.byte_to_char(range.start().into());
+                    let end = rope.byte_to_char(range.end().into());
+                    rope.remove(start..end);
+                    rope.insert(start, &change.text);
+                } else {
+                    *rope = Rope::from_str(&change.text);
+                }
+
+                index.update(LineIndex::new(&String::from(&*rope)));
             }
         })
     };
@@ -329,9 +336,7 @@ pub fn did_change_configuration(
     }
 }
 
-fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextRange> {
-    let range = range.context("incremental change misses range")?;
-
+fn convert_range(index: &Index, range: lsp_types::Range) -> Result<TextRange> {
     let start = index
         .get_offset(range.start)
         .context("failed to convert start position to byte offset")?;
@@ -340,6 +345,8 @@ fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextR
         .get_offset(range.end)
         .context("failed to convert end position to byte offset")?;
 
+    ensure!(start <= end, "start position is after the end position");
+
     Ok(TextRange::new(start.try_into()?, end.try_into()?))
 }
 
@@ -354,14 +361,16 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &mut Index),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
-    heads.index.update(LineIndex::new(&text));
-
     FileBuilder {
         rope: heads.rope,
         index: heads.index,
-- 
2.43.0


From fe1469ba9c2dc7d8b528df724ce914688923330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 20/27] fix: infinite float constants made the Rust generator
 panic

---
 crates/mabo-build/src/definition.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 5096933..3feb033 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -182,7 +182,7 @@ fn compile_const(
     let comment = compile_comment(comment);
     let name = Ident::new(name, Span::call_site());
     let ty = compile_const_data_type(ty);
-    let value = compile_literal(value);
+    let value = compile_literal(&ty, value);
 
     quote! {
         #comment
@@ -375,10 +375,12 @@ fn compile_const_data_type(ty: &Type<'_>) -> TokenStream {
     }
 }
 
-fn compile_literal(literal: &Literal) -> TokenStream {
+fn compile_literal(ty: &TokenStream, literal: &Literal) -> TokenStream {
     match &literal {
         Literal::Bool(b) => quote! { #b },
         Literal::Int(i) => proc_macro2::Literal::i128_unsuffixed(*i).into_token_stream(),
+        Literal::Float(f) if f.is_infinite() && f.is_sign_positive() => quote! { #ty::INFINITY },
+        Literal::Float(f) if f.is_infinite() => quote! { #ty::NEG_INFINITY },
         Literal::Float(f) => proc_macro2::Literal::f64_unsuffixed(*f).into_token_stream(),
         Literal::String(s) => proc_macro2::Literal::string(s).into_token_stream(),
         Literal::Bytes(b) => proc_macro2::Literal::byte_string(b).into_token_stream(),
-- 
2.43.0


From 68e0318c7bbb0964fb1557bab496eec1c9575423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 21/27] fix: empty byte constants were written without a value
 in Go

---
 crates/mabo-go/src/definition.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b1fcc8f..089a4cd 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -557,10 +557,6 @@ impl Display for RenderLiteral<'_> {
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
-                if b.is_empty() {
-                    return Ok(());
-                }
-
                 f.write_str("[]byte{")?;
                 for (i, value) in b.iter().enumerate() {
                     if i > 0 {
-- 
2.43.0


From 30ed4bb98fe3999528f428561a15c7262f412843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 22/27] fix: Go type parameters were declared under another
 name than used

---
 crates/mabo-go/src/definition.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 089a4cd..cda1d6b 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -222,7 +222,7 @@ impl Display for RenderGenerics<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value} any")?;
+            write!(f, "{} any", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
@@ -261,7 +261,7 @@ impl Display for RenderGenericNames<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value}")?;
+            write!(f, "{}", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
@@ -709,7 +709,9 @@ fn uses_generic(generic: &str, fields: &Fields<'_>) -> bool {
             | Type::Array(ty, _) => visit_external(ty, visit),
             Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
             Type::Tuple(types) => types.iter().any(|ty| visit_external(ty, visit)),
-            Type::External(ty) => visit(ty),
+            Type::External(ty) => {
+                visit(ty) || ty.generics.iter().any(|ty| visit_external(ty, visit))
+            }
         }
     }
 
-- 
2.43.0


From 256bbbb1d03877920da250e7b943a32c522e495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 23/27] fix: vu128 decoded bytes between 0x0f and 0xef wrongly

---
 crates/mabo-benches/src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-benches/src/varint.rs b/crates/mabo-benches/src/varint.rs
index 8a1aa13..e569f75 100644
--- a/crates/mabo-benches/src/varint.rs
+++ b/crates/mabo-benches/src/varint.rs
@@ -425,7 +425,7 @@ pub mod vu128 {
     #[must_use]
     pub fn decode_u8(buf: &[u8]) -> u8 {
         assert!(buf.len() > 1);
-        if buf[0] < 0x0f {
+        if buf[0] < 0xf0 {
             return buf[0];
         }
         buf[1]
-- 
2.43.0


From e398029ea95baeb5e6def1e455dcccda73d39bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 24/27] fix: vu128 took bits behind the encoded bytes into the
 value

---
 crates/mabo-benches/src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-benches/src/varint.rs b/crates/mabo-benches/src/varint.rs
index e569f75..2bdb233 100644
--- a/crates/mabo-benches/src/varint.rs
+++ b/crates/mabo-benches/src/varint.rs
@@ -399,7 +399,7 @@ pub mod vu128 {
                 let value =
                     $ty::from_le_bytes(buf[1..][..std::mem::size_of::<$ty>()].try_into().unwrap());
                 let len = buf[0] & 0x0f;
-                let mask = $ty::MAX >> ((len & $len_mask) ^ $len_mask);
+                let mask = $ty::MAX >> (((len & $len_mask) ^ $len_mask) * 8);
                 value & mask
             }
         };
-- 
2.43.0


From a0735caaa0bb6ae3ca2b9144cc206358f4692427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 25/27] fix: documentation showed whole floats as integers

---
 crates/mabo-doc/src/templates.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mabo-doc/src/templates.rs b/crates/mabo-doc/src/templates.rs
index 9700b80..706ea46 100644
--- a/crates/mabo-doc/src/templates.rs
+++ b/crates/mabo-doc/src/templates.rs
@@ -345,6 +345,8 @@ impl Display for PrintLiteral<'_> {
         match self.0 {
             Literal::Bool(v) => v.fmt(f),
             Literal::Int(v) => v.fmt(f),
+            // Floats are always written with a fraction, to tell them apart from integers.
+            Literal::Float(v) if v.fract() == 0.0 => write!(f, "{v:.1}"),
             Literal::Float(v) => v.fmt(f),
             Literal::String(v) => write!(f, "{v:?}"),
             Literal::Bytes(v) => write!(f, "{v:?}"),
-- 
2.43.0


From 1671d8d983ff7ff7cd9d45141b1d6531efe59e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:28 +0000
Subject: [PATCH 26/27] fix: drop the handling of infinite float constants, as
 no schema can contain them

This reverts commit fe1469b.
---
 crates/mabo-build/src/definition.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 3feb033..5096933 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -182,7 +182,7 @@ fn compile_const(
     let comment = compile_comment(comment);
     let name = Ident::new(name, Span::call_site());
     let ty = compile_const_data_type(ty);
-    let value = compile_literal(&ty, value);
+    let value = compile_literal(value);
 
     quote! {
         #comment
@@ -375,12 +375,10 @@ fn compile_const_data_type(ty: &Type<'_>) -> TokenStream {
     }
 }
 
-fn compile_literal(ty: &TokenStream, literal: &Literal) -> TokenStream {
+fn compile_literal(literal: &Literal) -> TokenStream {
     match &literal {
         Literal::Bool(b) => quote! { #b },
         Literal::Int(i) => proc_macro2::Literal::i128_unsuffixed(*i).into_token_stream(),
-        Literal::Float(f) if f.is_infinite() && f.is_sign_positive() => quote! { #ty::INFINITY },
-        Literal::Float(f) if f.is_infinite() => quote! { #ty::NEG_INFINITY },
         Literal::Float(f) => proc_macro2::Literal::f64_unsuffixed(*f).into_token_stream(),
         Literal::String(s) => proc_macro2::Literal::string(s).into_token_stream(),
         Literal::Bytes(b) => proc_macro2::Literal::byte_string(b).into_token_stream(),
-- 
2.43.0


From 5c0d1d843c6d8e49631f47b6176dce9d5d8b1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 27/27] fix: drop the handling of empty byte constants, as no
 schema can contain them

This reverts commit 68e0318.
---
 crates/mabo-go/src/definition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index cda1d6b..0477334 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -557,6 +557,10 @@ impl Display for RenderLiteral<'_> {
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
+                if b.is_empty() {
+                    return Ok(());
+                }
+
                 f.write_str("[]byte{")?;
                 for (i, value) in b.iter().enumerate() {
                     if i > 0 {
-- 
2.43.0

