From 79bc3fe661099dd72d5c29571c8e4c63c279f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 01/22] fix: no arithmetic overflow when a string announces a
 length near 2^64

The end of the requested range was computed before comparing the length with
the available bytes, so it panicked with overflow checks enabled.
---
 src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..12655e2 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -56,8 +56,6 @@ impl<'a> CborDataReader<'a> {
             });
         }
         let offseted_rem = rem - offset;
-        let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,6 +63,8 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
+            let start = self.index + offset;
+            let end = start + n;
             Ok(&self.data[start..end])
         }
     }
-- 
2.43.0


From 8968654d481d31f5112120d8e6ed1aa7392fb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 02/22] fix: Reader::null and Reader::undefined only accept
 their own constant

Any of false, true, null, undefined was accepted by both.
---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..4db591f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -289,14 +289,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From e745807db7938ae77f33b3d07823df3b752c1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 03/22] fix: reject elements other than matching chunks in
 indefinite bytes/text

The state machine accepted simple values, and chunks of the other string type,
inside an indefinite bytes or text, although StateError::InvalidTypeInChunk
exists for that purpose.
---
 src/state.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..8d13c04 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -17,7 +17,7 @@
 pub use super::header::{HeaderValue, HeaderValueStream};
 use std::fmt;
 
-#[derive(Debug, Clone, Copy)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum StreamType {
     Array,
     Map,
@@ -218,8 +218,15 @@ impl State {
                 self.push_stream(new_stream)?;
                 Ok(())
             }
-            // A regular text or bytes, we can just call item_simple
+            // A regular text or bytes, we can just call item_simple, unless
+            // it's a chunk of a different type than the indefinite text or bytes
             Some(_b) => {
+                match self.ctx.last() {
+                    Some(StructTy::Stream(s)) if s.composite_scalar() && *s != new_stream => {
+                        return Err(StateError::InvalidTypeInChunk);
+                    }
+                    _ => (),
+                };
                 self.advance()?;
                 self.check_reduce()
             }
@@ -261,6 +268,13 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        // in a bytes/texts stream only definite chunks are allowed
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
         self.advance()?;
         self.check_reduce()
     }
-- 
2.43.0


From fa6279bd9b7c7cb0604b461be6cedb05ea9646fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 04/22] fix: reject a break after a key without value in an
 indefinite map

The state machine did not track the key/value alternation of indefinite maps, so
that the validator accepted not well-formed data.
---
 src/state.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 8d13c04..558e0f3 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { exp_val: _ } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -302,7 +306,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -311,6 +315,10 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            // a key without its value
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From bb467edec3e4d719aec116a8ab2d38e881db71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 05/22] fix: canonical Byte for the values 20 to 23

The immediate encoding of those values is false, true, null and undefined, and
writing such a Byte panicked.
---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..d799153 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // 0x14 to 0x17 as immediate are the constants (false, true, null, undefined)
+            _ if v < 0x14 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 0x14, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 0x14,
         }
     }
 }
-- 
2.43.0


From 2364aab8f9e043c42528b3dafe7eb558c8198915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 06/22] fix: empty input is reported as missing data, instead
 of panicking

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4db591f..291430d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..a637bed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From f10133f68cb8316448d33e37b12d059dfaaf0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 07/22] fix: read a RationalNumber with a NegativeBignum
 numerator

The tag was already consumed by the attempt to read a PositiveBignum, so this
always failed with missing data.
---
 src/tagged.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..a0081ab 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -167,6 +167,8 @@ impl RationalNumber {
                     Type::Tag => PositiveBignum::read(&mut inner_reader)
                         .map(RationalNumerator::PositiveBignum)
                         .or_else(|_| {
+                            // start again, as the tag has been consumed
+                            inner_reader = array[0].reader();
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
                         }),
-- 
2.43.0


From 924e411b65dc9f03e60d18becd8b20b4f0222f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 08/22] fix: CborData::validate_as rejects trailing data

Same as CborSlice::validate_as.
---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From 1078b6850a4a0818da753d1f24b32bdd08714606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 09/22] fix: derived mapint decoder takes map_starts_at into
 account

Only the encoder did, so that the encoded value could not be decoded.
---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From bff88170585d930774ceedda8bb5ba971cf091e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 10/22] fix: derived mapint decoder does not shift by the key
 found in the data

The duplicated key mask was a 32 bits integer, shifted by a key that comes from
the data: this panics with overflow checks, and otherwise reports different
keys as duplicated.
---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..d623dab 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 2e5fcb143009a43117e0b8545157effdfcc460a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 11/22] fix: derived decoder of a flat structure reads its tag

Only the encoder took the tag into account, so that the encoded value could not
be decoded.
---
 cbored-derive/src/product.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index d623dab..4c33fc4 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
-- 
2.43.0


From 40a93aa09fee4f464f991d45f20785d176c4d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 12/22] fix: derived enum variant numbers start at
 variant_starts_at

The offset was applied twice, as enumerate_variant_indices already starts from
it: variant_starts_at = 1 numbered the first variant 2.
---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..24f6c13 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From 566c07af110bc5b3a5860f13ed1c08deb54baf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 13/22] fix: derived enumtype with a null variant compiles

The generated code used a method that Writer does not have and an unqualified
DecodeErrorKind, and ignored the result of reading the null.
---
 cbored-derive/src/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 24f6c13..84d03d1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -158,7 +158,7 @@ pub(crate) fn derive_enum_se(
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From 2056444bd8f24f5f42638e702ffd18e01f708ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 14/22] fix: Validator::next starts afresh after a failed call

---
 src/validate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index a637bed..6eb7460 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -160,6 +160,8 @@ impl<'a> Validator<'a> {
     /// On error, it returns a `ValidateError` containing
     pub fn next(&mut self) -> Result<(&'a CborSlice, usize), ValidateError> {
         let start = self.reader.index;
+        // a previous call that failed may have left structures open
+        self.state = State::new();
 
         loop {
             let (ld, advance, ival) = self.header_parts()?;
-- 
2.43.0


From 2e9c875936da7d2ded6a6c6a28934351311e05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 15/22] fix: the reserved lead bytes of major type 7 are
 reported whole

---
 src/lowlevel/lead.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lowlevel/lead.rs b/src/lowlevel/lead.rs
index 26e00a8..26269af 100644
--- a/src/lowlevel/lead.rs
+++ b/src/lowlevel/lead.rs
@@ -222,7 +222,7 @@ impl Lead {
             0x19 => Ok(Lead::FP16),
             0x1a => Ok(Lead::FP32),
             0x1b => Ok(Lead::FP64),
-            0x1c..=0x1e => Err(LeadError::Reserved(b)),
+            0x1c..=0x1e => Err(LeadError::Reserved(byte)),
             0x1f => Ok(Lead::Break),
             _ => unreachable!(),
         }
-- 
2.43.0


From 30c93e10eeec99f6fea1714cd202f01ecbf6c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 16/22] fix: the fields of derived types can have any name

A field called reader, writer, array, map, key, k, v or len clashed with a
local variable of the generated code, which then did not compile.
---
 cbored-derive/src/common.rs  | 11 ++++++++++-
 cbored-derive/src/product.rs |  1 -
 cbored-derive/src/sum.rs     |  1 -
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/common.rs b/cbored-derive/src/common.rs
index 394f987..0cd2eb6 100644
--- a/cbored-derive/src/common.rs
+++ b/cbored-derive/src/common.rs
@@ -1,7 +1,16 @@
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::Ident;
 
+/// `quote!` for the generated code, whose local variables live in a namespace of their own,
+/// so that fields can have any name (reader, writer, key, array, ..) without clashing with them
+macro_rules! quote_hygienic {
+    ($($tokens:tt)*) => {
+        ::quote::quote_spanned! { ::proc_macro2::Span::mixed_site() => $($tokens)* }
+    };
+}
+
+pub(crate) use quote_hygienic as quote;
+
 pub(crate) fn token_impl_deserializer(class_name: &Ident, body: TokenStream) -> TokenStream {
     quote! {
         impl ::cbored::Decode for #class_name {
diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 4c33fc4..95797ef 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -1,7 +1,6 @@
 use proc_macro::TokenStream;
 
 use proc_macro2::Span;
-use quote::quote;
 use syn::{DataStruct, Fields, FieldsNamed, FieldsUnnamed, Ident, Meta};
 
 use super::attr::*;
diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 84d03d1..a2ee71f 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -1,6 +1,5 @@
 use proc_macro::TokenStream;
 
-use quote::quote;
 use syn::{DataEnum, Ident, Meta, Variant};
 
 use crate::product::get_struct_naming;
-- 
2.43.0


From d8aaff5f257a35e92ecc4ba749e78cf753ed602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 17/22] fix: derived types can stand next to a Result alias or
 a module called cbored

The generated code named Result and, in the map decoder, cbored without a
leading path, and so did not compile where these names mean something else.
---
 cbored-derive/src/common.rs  | 2 +-
 cbored-derive/src/product.rs | 8 ++++----
 cbored-derive/src/sum.rs     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cbored-derive/src/common.rs b/cbored-derive/src/common.rs
index 0cd2eb6..996bd1a 100644
--- a/cbored-derive/src/common.rs
+++ b/cbored-derive/src/common.rs
@@ -14,7 +14,7 @@ pub(crate) use quote_hygienic as quote;
 pub(crate) fn token_impl_deserializer(class_name: &Ident, body: TokenStream) -> TokenStream {
     quote! {
         impl ::cbored::Decode for #class_name {
-            fn decode<'a>(reader: &mut ::cbored::Reader<'a>) -> Result<Self, ::cbored::DecodeError> {
+            fn decode<'a>(reader: &mut ::cbored::Reader<'a>) -> ::core::result::Result<Self, ::cbored::DecodeError> {
                 #body
             }
         }
diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 95797ef..85cb598 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -482,7 +482,7 @@ pub(crate) fn derive_struct_de(
                                     let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.push::<Self>())?
                                         .iter()
                                         .map(|mut r| r.decode())
-                                        .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
+                                        .collect::<::core::result::Result<Vec<_>, ::cbored::DecodeError>>()?;
                                     vec
                                 };
                             }
@@ -546,7 +546,7 @@ pub(crate) fn derive_struct_de(
                         let keyfield = quote! {
                             #abs_index => {
                                 if #field_name.is_some() {
-                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                    return Err(::cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
                                 }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
@@ -560,7 +560,7 @@ pub(crate) fn derive_struct_de(
                             let mandatory_key = quote! {
                                 let #field_name = match #field_name {
                                     None => {
-                                        return Err(cbored::DecodeErrorKind::Custom(format!("missing {}", #field_name_str)).context::<Self>());
+                                        return Err(::cbored::DecodeErrorKind::Custom(format!("missing {}", #field_name_str)).context::<Self>());
                                     }
                                     Some(value) => {
                                         value
@@ -583,7 +583,7 @@ pub(crate) fn derive_struct_de(
                                 #( #keyfields )*
                                 // handle unknown keys
                                 _ => {
-                                    return Err(cbored::DecodeErrorKind::Custom(format!(
+                                    return Err(::cbored::DecodeErrorKind::Custom(format!(
                                             "unknown key {}",
                                             key
                                         )).context::<Self>());
diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index a2ee71f..efa008c 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -447,7 +447,7 @@ pub(crate) fn derive_enum_de(
                                                 let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
                                                     .iter()
                                                     .map(|mut r| r.decode())
-                                                    .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
+                                                    .collect::<::core::result::Result<Vec<_>, ::cbored::DecodeError>>()?;
                                                 vec
                                             };
                                         }
-- 
2.43.0


From b764523116575fadf9131de7ad57b4a29db700b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 18/22] fix: a tag on a flat structure without any field is
 refused

It was accepted and encoded as a tag without content, which is not CBOR.
---
 cbored-derive/src/product.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 85cb598..00b5a47 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -320,6 +320,9 @@ pub(crate) fn derive_struct_se(
             if attrs.structure_type == StructureType::Flat && nb_items > 1 {
                 panic!("cannot support tag on flat structure with more than 1 element")
             }
+            if attrs.structure_type == StructureType::Flat && nb_items == 0 {
+                panic!("cannot support tag on flat structure without element")
+            }
             quote! {
                 writer.tag_build(::cbored::TagValue::from_u64(#n as u64), |writer| { #se_body });
             }
-- 
2.43.0


From f0123066958db743dd03caf9f8c19767ca4e5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 19/22] fix: an enumtype with several variants of the same cbor
 type is refused

The decoder always took the first one, so that the others did not decode back.
---
 cbored-derive/src/sum.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index efa008c..1aaaaae 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -296,6 +296,7 @@ pub(crate) fn derive_enum_de(
             }
         }
         EnumType::EnumType => {
+            let mut cbor_types = Vec::new();
             // each branch of deserialization is of the form
             //     X => {
             //          get field 1;
@@ -315,6 +316,10 @@ pub(crate) fn derive_enum_de(
                 let cbor_type = variant_def
                     .cbor_type
                     .expect("variant is missing a cbor type");
+                if cbor_types.contains(&cbor_type) {
+                    panic!("enumtype with several variants of the same cbor type");
+                }
+                cbor_types.push(cbor_type);
 
                 fn cborty(s: &str) -> syn::Ident {
                     quote::format_ident!("{}", s)
-- 
2.43.0


From b91817d13d501f061a00ce576f56fd62d1f968ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 20/22] fix: derived keys and variant numbers do not wrap
 around

With the starting number close to the maximum, the numbers after it wrapped to
0 where overflow is not checked, and a last variant with the very maximum was
refused where it is.
---
 cbored-derive/src/product.rs | 19 +++++++++++++------
 cbored-derive/src/sum.rs     |  9 +++++----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 00b5a47..a41a7a6 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -159,6 +159,13 @@ fn type_is_vec(ty: &syn::Type) -> bool {
     }
 }
 
+// the key of a field of a map structure, given the key that the first field would have
+fn absolute_key(field_index: usize, rel_index: u64) -> u64 {
+    rel_index
+        .checked_add(field_index as u64)
+        .expect("map key out of range")
+}
+
 pub(crate) fn derive_struct_se(
     name: &Ident,
     attrs: &StructAttrs,
@@ -268,14 +275,14 @@ pub(crate) fn derive_struct_se(
                                 is_vec: _,
                             } = &field;
                             loop {
-                                let abs_index = *field_index as u64 + rel_index;
+                                let abs_index = absolute_key(*field_index, rel_index);
                                 if attrs.skips.iter().any(|v| *v == abs_index) {
-                                    rel_index += 1;
+                                    rel_index = rel_index.checked_add(1).expect("map key out of range");
                                 } else {
                                     break;
                                 }
                             }
-                            let abs_index = *field_index as u64 + rel_index;
+                            let abs_index = absolute_key(*field_index, rel_index);
 
                             if field_attrs.mandatory_map {
                                 fields_write_map.push(quote! {
@@ -534,14 +541,14 @@ pub(crate) fn derive_struct_de(
                         let field_index = *field_index;
 
                         loop {
-                            let abs_index = field_index as u64 + rel_index;
+                            let abs_index = absolute_key(field_index, rel_index);
                             if attrs.skips.iter().any(|v| *v == abs_index) {
-                                rel_index += 1;
+                                rel_index = rel_index.checked_add(1).expect("map key out of range");
                             } else {
                                 break;
                             }
                         }
-                        let abs_index = field_index as u64 + rel_index;
+                        let abs_index = absolute_key(field_index, rel_index);
                         let field_name_str = format!("{}", field_name);
                         let keydef = quote! {
                             let mut #field_name = None;
diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 1aaaaae..c6617ca 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -96,15 +96,16 @@ pub fn enumerate_variant_indices<'a, T: Clone, I: Iterator<Item = T>>(
 ) -> Vec<(usize, T)> {
     let elements = it.map(|v| v.clone()).collect::<Vec<_>>();
 
-    let mut index = attr.variant_starts_at;
+    let mut next_index = Some(attr.variant_starts_at);
 
     let mut indices = Vec::new();
     for _ in 0..elements.len() {
-        while attr.variant_skip.contains(&index) {
-            index += 1;
+        while next_index.map_or(false, |index| attr.variant_skip.contains(&index)) {
+            next_index = next_index.and_then(|index| index.checked_add(1));
         }
+        let index = next_index.expect("variant number out of range");
         indices.push(index);
-        index += 1;
+        next_index = index.checked_add(1);
     }
 
     assert_eq!(elements.len(), indices.len());
-- 
2.43.0


From 4116d32b2097b7cd7540a1a8378513c04fc8a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 21/22] fix: variants written with an empty list of fields
 compile

---
 cbored-derive/src/sum.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index c6617ca..2e72e66 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -158,7 +158,7 @@ pub(crate) fn derive_enum_se(
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
+                        Some(FieldCborType::Null) => (quote! { {} }, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -229,7 +229,7 @@ pub(crate) fn derive_enum_se(
                         let parameters = quote! { ( #( #de_field_names ),* ) };
                         (parameters, se_fields)
                     }
-                    None => (quote! {}, vec![]),
+                    None => (quote! { {} }, vec![]),
                 }
             };
 
@@ -290,7 +290,7 @@ pub(crate) fn derive_enum_de(
 
                 let de_branch = quote! {
                     #variant_number => {
-                        Ok(Self::#ident)
+                        Ok(Self::#ident {})
                     }
                 };
                 field_matches.push(de_branch);
@@ -342,7 +342,7 @@ pub(crate) fn derive_enum_de(
                             panic!("no arguemnt cannot be anything else than cbor null")
                         }
                         (
-                            quote! {},
+                            quote! { {} },
                             quote! {
                                 reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
@@ -468,7 +468,7 @@ pub(crate) fn derive_enum_de(
                             let parameters = quote! { ( #( #de_field_names ),* ) };
                             (parameters, de_fields)
                         }
-                        None => (quote! {}, vec![]),
+                        None => (quote! { {} }, vec![]),
                     }
                 };
 
-- 
2.43.0


From cd54ecb8b55ebd458badbcd3fa8eeba617eb6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 22/22] fix: errors in the vectors of derived variants tell
 which element and field

---
 cbored-derive/src/sum.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2e72e66..4634d17 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -446,19 +446,15 @@ pub(crate) fn derive_enum_de(
                                 .map(|field| {
                                     let fidx = field.index;
                                     let ident = &field.name;
+                                    let fname_str = format!("{}", ident);
                                     if field.is_vec || field.attrs.variant_type == FieldVariantType::Vec {
                                         quote! {
                                             let #ident = {
                                                 let mut r = array[#fidx + 1].reader();
-                                                let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
-                                                    .iter()
-                                                    .map(|mut r| r.decode())
-                                                    .collect::<::core::result::Result<Vec<_>, ::cbored::DecodeError>>()?;
-                                                vec
+                                                ::cbored::decode_vec(&mut r).map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?
                                             };
                                         }
                                     } else {
-                                        let fname_str = format!("{}", ident);
                                         quote! {
                                             let #ident = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
                                         }
-- 
2.43.0

