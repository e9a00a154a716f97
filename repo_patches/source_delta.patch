From 2b4ed8836e1467b8b5a4b7a39b1b3b6065ef372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 01/29] fix: from_vec and from_slice give reserve fields their
 default, like from_bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..da42bbd 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,14 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
+            let from_vec_value = if field.attrs.reserve.read_field() {
+                field_extractor
+            } else {
+                quote! { Default::default() }
+            };
             from_vec_quote = quote! {
                 #from_vec_quote
-                let #field_name = #field_extractor;
+                let #field_name = #from_vec_value;
             };
         }
     }
-- 
2.43.0


From bb481404a1dd06b8eb83926cec2c2893985a9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 02/29] fix: little endian read of a reversed struct takes the
 last bits from the right byte

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index da42bbd..d6fa86b 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -798,7 +798,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 105f50b2cf07fa7eff797a7ec8f3567394a31c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 03/29] fix: writing a little endian field clears exactly that
 field's bits

---
 bondrewd-derive/src/structs/into_bytes.rs | 42 +++++++++--------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..197f909 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -551,6 +551,22 @@ fn get_field_quote(
         Endianness::None => apply_ne_math_to_field_access_quote(field, quote_field_name, flip),
     }
 }
+/// clears exactly the bits of the field, byte by byte.
+fn get_clear_quote(field: &FieldInfo, flip: Option<usize>) -> proc_macro2::TokenStream {
+    let range = &field.attrs.bit_range;
+    let mut clear_quote = quote! {};
+    for byte in range.start / 8..(range.end + 7) / 8 {
+        let before = range.start.saturating_sub(byte * 8);
+        let after = ((byte + 1) * 8).saturating_sub(range.end);
+        let keep_mask = get_left_and_mask(before) | get_right_and_mask(after);
+        let index = flip.map_or(byte, |flip| flip - byte);
+        clear_quote = quote! {
+            #clear_quote
+            output_byte_buffer[#index] &= #keep_mask;
+        };
+    }
+    clear_quote
+}
 // first token stream is actual setter, but second one is overwrite current bits to 0.
 fn apply_le_math_to_field_access_quote(
     field: &FieldInfo,
@@ -651,28 +667,18 @@ fn apply_le_math_to_field_access_quote(
         let mid_shift: u32 = 8 - available_bits_in_first_byte as u32;
         let next_bit_mask = get_left_and_mask(mid_shift as usize);
         let mut i = 0;
-        let mut clear_quote = quote! {};
         while i != fields_last_bits_index {
             let start = if flip.is_none() {
                 starting_inject_byte + i
             } else {
                 starting_inject_byte - i
             };
-            let not_current_bit_mask = !current_bit_mask;
             if available_bits_in_first_byte == 0 && right_shift == 0 {
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #current_bit_mask;
                 };
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
             } else {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
                 if mid_shift != 0 {
                     full_quote = quote! {
                         #full_quote
@@ -724,10 +730,6 @@ fn apply_le_math_to_field_access_quote(
                 #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
             };
             if used_bits < amount_of_bits {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= 0;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #first_bit_mask;
@@ -738,11 +740,6 @@ fn apply_le_math_to_field_access_quote(
                 if amount_of_bits <= used_bits {
                     last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
                 }
-                let not_last_mask = !last_mask;
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_last_mask;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #last_mask;
@@ -760,11 +757,6 @@ fn apply_le_math_to_field_access_quote(
             if amount_of_bits <= used_bits {
                 last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
             }
-            let not_last_mask = !last_mask;
-            clear_quote = quote! {
-                #clear_quote
-                output_byte_buffer[#start] &= #not_last_mask;
-            };
             let mut finalize = quote! {#field_buffer_name[#i]};
             if left_shift != 0 && left_shift != 8 {
                 finalize = quote! {(#finalize.rotate_left(#left_shift))};
@@ -780,7 +772,7 @@ fn apply_le_math_to_field_access_quote(
             }
         }
 
-        Ok((full_quote, clear_quote))
+        Ok((full_quote, get_clear_quote(field, flip)))
     } else {
         // TODO make multi-byte values that for some reason use less then 9 bits work in here.
         // currently only u8 and i8 fields will work here. verify bool works it might.
-- 
2.43.0


From 982c87f4e01d3c8087167358678aedb871fb29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 04/29] fix: reading and writing a nested bitfield touches only
 the bits of the field

---
 bondrewd-derive/src/structs/from_bytes.rs |  9 +++++++
 bondrewd-derive/src/structs/into_bytes.rs | 31 ++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index d6fa86b..606e727 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -1076,6 +1076,15 @@ fn apply_ne_math_to_field_access_quote(
                         }
                     }
                 }
+                // bits past the end of the field belong to other fields.
+                if amount_of_bits % 8 != 0 {
+                    let last_index = amount_of_bits / 8;
+                    let last_mask = get_left_and_mask(amount_of_bits % 8);
+                    quote_builder = quote!{
+                        #quote_builder
+                        #buffer_ident[#last_index] &= #last_mask;
+                    };
+                }
                 // return the value
                 quote_builder = quote!{
                     #quote_builder
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 197f909..0126ad7 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -894,10 +894,18 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
         };
-        let mut clear_quote = quote! {};
         let mut full_quote = quote! {
             #field_byte_buffer;
         };
+        // bits of the inner struct past the end of the field belong to other fields.
+        if amount_of_bits % 8 != 0 {
+            let last_index = amount_of_bits / 8;
+            let last_mask = get_left_and_mask(amount_of_bits % 8);
+            full_quote = quote! {
+                #full_quote
+                #field_buffer_name[#last_index] &= #last_mask;
+            };
+        }
         // fill in the rest of the bits
         match right_shift.cmp(&0) {
             Ordering::Greater => {
@@ -913,12 +921,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    let not_next_bit_mask = !next_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     full_quote = quote! {
                         #full_quote
                         #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
@@ -926,12 +928,6 @@ fn apply_ne_math_to_field_access_quote(
                     };
 
                     if available_bits_in_first_byte + (8 * i) < amount_of_bits {
-                        if not_next_bit_mask != u8::MAX {
-                            clear_quote = quote! {
-                                #clear_quote
-                                output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;//test
-                            };
-                        }
                         if next_bit_mask != 0 {
                             full_quote = quote! {
                                 #full_quote
@@ -976,11 +972,6 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
-                    let not_current_bit_mask = !current_bit_mask;
-                    clear_quote = quote! {
-                        #clear_quote
-                        output_byte_buffer[#start] &= #not_current_bit_mask;
-                    };
                     if i == 0 {
                         if current_bit_mask == u8::MAX {
                             full_quote = quote! {
@@ -1002,7 +993,7 @@ fn apply_ne_math_to_field_access_quote(
                 }
             }
         }
-        Ok((full_quote, clear_quote))
+        Ok((full_quote, get_clear_quote(field, flip)))
     } else {
         // TODO make multi-byte values that for some reason use less then 9 bits work in here.
         // currently only u8 and i8 fields will work here. verify bool works it might.
@@ -1058,7 +1049,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From 1bbfd115b748471c8b70cdb8b8652879816e3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 05/29] fix: sign extension of signed fields at every width,
 position and byte order

---
 bondrewd-derive/src/structs/from_bytes.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 606e727..6dc1991 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -734,7 +734,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -937,7 +937,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1321,7 +1321,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1358,7 +1358,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1541,6 +1541,7 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
@@ -1551,13 +1552,14 @@ fn add_sign_fix_quote(
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                let sign_index = flip.map_or(sign_index, |flip| flip - sign_index);
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
@@ -1641,7 +1643,7 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                let neg_mask = get_left_and_mask(8usize.saturating_sub(*amount_of_bits));
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From 83bab5ebd477368c018be85c4e350f00ee369263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 06/29] fix: an array's bit_length is inferred to divide evenly
 by its total length, not by its end

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..e041d32 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -362,7 +362,7 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if (range.end - range.start) % array_length != 0 {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
-- 
2.43.0


From 64e14976d8bc19758482adb77ac9e1f5d81303f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 07/29] fix: type the elements of an array from the range of
 one element

The element type of an array was resolved with the bit range of the whole
array, so a nested bitfield (or float) element got the byte length of all
elements and the generated code did not compile.
---
 bondrewd-derive/src/structs/common.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index e041d32..19db36c 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -155,6 +155,22 @@ pub enum FieldDataType {
     BlockArray(Box<SubFieldInfo>, usize, proc_macro2::TokenStream),
 }
 
+/// the range of a single element of an array, used to determine the type of the elements.
+fn first_element_range(range: &FieldBuilderRange, array_length: usize) -> FieldBuilderRange {
+    match range {
+        FieldBuilderRange::Range(range)
+            if array_length != 0
+                && range.start <= range.end
+                && (range.end - range.start) % array_length == 0 =>
+        {
+            FieldBuilderRange::Range(
+                range.start..range.start + (range.end - range.start) / array_length,
+            )
+        }
+        range => range.clone(),
+    }
+}
+
 impl FieldDataType {
     /// byte size of actual rust type .
     pub fn size(&self) -> usize {
@@ -279,6 +295,8 @@ impl FieldDataType {
                                         }
                                     };
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range =
+                                        first_element_range(&attrs.bit_range, array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
@@ -301,6 +319,8 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::BlockArray(_) => {
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range =
+                                        first_element_range(&attrs.bit_range, array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
@@ -344,6 +364,8 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::None => {
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range =
+                                        first_element_range(&attrs.bit_range, array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
-- 
2.43.0


From 2d6d7293c771548e27a2b211f83d6a0719a01f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 08/29] fix: from_primitive of a named catch-value variant
 compiles

The generated arm used `field = input` where Rust wants `field: input`.
---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From bcf75dfb430d0107cba14a57b57bc816af4d3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 09/29] fix: an invalid variant without a value gets the lowest
 available value

It was given its declaration index, which could displace a variant with
that literal value (the enum was then rejected) or differ from the
documented lowest available value.
---
 bondrewd-derive/src/enums/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..b0b369a 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -409,9 +409,9 @@ impl EnumInfo {
                                     return Err(syn::Error::new(var.ident.span(), "Literal Values conflict"));
                                 }
                             }else{
-                                literal_variants.insert(i, EnumVariant{
+                                unknown_variants.push_back(EnumVariantBuilder{
                                     name: var.ident.clone(),
-                                    value: EnumVariantType::Skip(Literal::usize_unsuffixed(i)),
+                                    value: EnumVariantBuilderType::Skip,
                                 });
                             }
                         } else if let Some((_, ref discriminant)) = var.discriminant {
-- 
2.43.0


From 74b00f77ebbd0475bd9572a15547f45c2b67879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 10/29] fix: a captured variant id is read with the byte order
 of the enum's id

The captured field kept its own (or its variant's) endianness, so
from_vec, from_slice and the field accessors disagreed with from_bytes
and the stored id when the variant overrides default_endianness.
---
 bondrewd-derive/src/structs/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 19db36c..1644439 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1280,7 +1280,10 @@ impl ObjectInfo {
                     ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
                     ty: id_field_type,
                     attrs: FieldAttrs {
-                        endianness: Box::new(attrs.default_endianess.clone()),
+                        endianness: Box::new(match attrs.default_endianess {
+                            Endianness::None => Endianness::Little,
+                            ref endianness => endianness.clone(),
+                        }),
                         // this need to accommodate tailing ids, currently this locks the
                         // id field to the first field read from the starting point of reading.
                         // TODO make sure this gets corrected if the id size is unknown.
@@ -1882,6 +1885,7 @@ impl ObjectInfo {
                         if i == 0 {
                             match (&parsed_fields[0].ty, &mut parsed_field.ty) {
                                 (FieldDataType::Number(_, ref bon_sign, ref bon_ty), FieldDataType::Number(_, ref user_sign, ref user_ty)) => {
+                                    parsed_field.attrs.endianness = parsed_fields[0].attrs.endianness.clone();
                                     if parsed_fields[0].attrs.bit_range != parsed_field.attrs.bit_range {
                                         parsed_field.attrs.bit_range = parsed_fields[0].attrs.bit_range.clone();
                                     }
-- 
2.43.0


From ef155117466805e9152cf8f24daec2e0077e9d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 11/29] fix: fill_bytes fills what the fields do not use, also
 with read_from lsb0

The filler started at the end of the last declared field, which need not
be the highest bit used, and the lsb0 mirroring did not count the filler
and underflowed.
---
 bondrewd-derive/src/structs/common.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 1644439..c984980 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1946,11 +1946,15 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
+            // the fields might not be in order (redundant and overlapping fields), so fill what they do not use.
+            let first_bit = bit_size;
+            if fill_bits < first_bit {
+                return Err(syn::Error::new(
+                    name.span(),
+                    format!("fill_bytes provides {fill_bits} bits but the fields use {first_bit} bits"),
+                ));
+            }
+            bit_size = fill_bits;
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
-- 
2.43.0


From 09a0fc86c5063d487a59640c267bea5f8888c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 12/29] fix: reverse on an enum reverses the variant id with
 the rest of the bytes

The id stayed in front while the fields of the variants were reversed,
so the last fields overwrote the id.
---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 6dc1991..60d896c 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -218,7 +218,7 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let field_extractor = get_field_quote(
                     &field,
                     if flip {
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 0126ad7..60d8c6d 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,7 +144,7 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                let flip = info.attrs.attrs.flip;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
                     if flip {
-- 
2.43.0


From 8c1ae9d5f6ed4d1d3661d255a88e44ba67435805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 13/29] fix: read_from lsb0 on an enum

The fields of the variants (and the id among them) were mirrored within
the size of each variant and put in reverse order, which moved the id
from where it is read and broke the generated code. Mirror within the
size of the enum, the id included.
---
 bondrewd-derive/src/structs/common.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c984980..081209d 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1115,6 +1115,11 @@ impl EnumInfo {
             Endianness::Big => Endianness::Big,
             Endianness::None => Endianness::Little,
         };
+        let first_bit = if self.attrs.attrs.lsb_zero {
+            self.total_bits() - self.attrs.id_bits
+        } else {
+            0
+        };
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
@@ -1124,7 +1129,7 @@ impl EnumInfo {
             ),
             attrs: FieldAttrs {
                 endianness: Box::new(e),
-                bit_range: 0..self.attrs.id_bits,
+                bit_range: first_bit..first_bit + self.attrs.id_bits,
                 reserve: ReserveFieldOption::NotReserve,
                 overlap: OverlapOptions::None,
                 capture_id: false,
@@ -1539,6 +1544,18 @@ impl ObjectInfo {
                         });
                     }
                 }
+                // mirror the fields for lsb0, the id is mirrored if the enum is lsb0.
+                let id_bits = enum_attrs.id_bits;
+                for v in variants.iter_mut().filter(|v| v.attrs.lsb_zero) {
+                    let fixed_id = if attrs.lsb_zero { 0 } else { id_bits };
+                    for field in v.fields.iter_mut() {
+                        let range = field.attrs.bit_range.clone();
+                        if range.end > fixed_id {
+                            field.attrs.bit_range =
+                                largest + fixed_id - range.end..largest + fixed_id - range.start;
+                        }
+                    }
+                }
                 Ok(Self::Enum(EnumInfo {
                     name,
                     variants,
@@ -1976,7 +1993,8 @@ impl ObjectInfo {
             });
         }
 
-        if attrs.lsb_zero {
+        // variants are mirrored when the size of the enum is known.
+        if attrs.lsb_zero && !is_enum {
             for ref mut field in parsed_fields.iter_mut() {
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
                     ..(bit_size - field.attrs.bit_range.start);
-- 
2.43.0


From 5093103090842e82c98d30df32242dabf0d3debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 14/29] fix: fill_bytes with nothing left to fill and read_from
 lsb0

An empty filler mirrored to the first bit underflowed the bit math.
---
 bondrewd-derive/src/structs/common.rs | 40 ++++++++++++++-------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 081209d..7572f42 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1972,25 +1972,27 @@ impl ObjectInfo {
                 ));
             }
             bit_size = fill_bits;
-            let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
-            let ident = quote::format_ident!("bondrewd_fill_bits");
-            parsed_fields.push(FieldInfo {
-                ident: Box::new(ident.into()),
-                attrs: FieldAttrs {
-                    bit_range: first_bit..fill_bits,
-                    endianness: Box::new(Endianness::Big),
-                    reserve: ReserveFieldOption::FakeReserveField,
-                    overlap: OverlapOptions::None,
-                    capture_id: false,
-                },
-                ty: FieldDataType::BlockArray(
-                    Box::new(SubFieldInfo {
-                        ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
-                    }),
-                    fill_bytes_size,
-                    quote! {[u8;#fill_bytes_size]},
-                ),
-            });
+            if first_bit < fill_bits {
+                let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
+                let ident = quote::format_ident!("bondrewd_fill_bits");
+                parsed_fields.push(FieldInfo {
+                    ident: Box::new(ident.into()),
+                    attrs: FieldAttrs {
+                        bit_range: first_bit..fill_bits,
+                        endianness: Box::new(Endianness::Big),
+                        reserve: ReserveFieldOption::FakeReserveField,
+                        overlap: OverlapOptions::None,
+                        capture_id: false,
+                    },
+                    ty: FieldDataType::BlockArray(
+                        Box::new(SubFieldInfo {
+                            ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
+                        }),
+                        fill_bytes_size,
+                        quote! {[u8;#fill_bytes_size]},
+                    ),
+                });
+            }
         }
 
         // variants are mirrored when the size of the enum is known.
-- 
2.43.0


From 43911efe309880f1518737ff8badd9f3776b4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 15/29] fix: variant ids whose byte count is no power of two
 use the size of their type

---
 bondrewd-derive/src/structs/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7572f42..22f2e58 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1123,7 +1123,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                ((self.attrs.id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
@@ -1274,7 +1274,7 @@ impl ObjectInfo {
                     };
                     (
                         FieldDataType::Number(
-                            (id_bits as f64 / 8.0f64).ceil() as usize,
+                            ((id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                             NumberSignage::Unsigned,
                             get_id_type(id_bits, name.span())?,
                         ),
-- 
2.43.0


From 945c063196785c77b11fd2f84add92fd58da3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 16/29] fix: enum with payload and total sizes derives the id
 size from them and checks the variants against the total

---
 bondrewd-derive/src/structs/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 22f2e58..6857ce7 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1458,7 +1458,7 @@ impl ObjectInfo {
                                     format!("total_size, payload_size, and id_size where all specified but id_size ({id}) + payload_size ({payload}) is not equal to total_size ({total})"),
                                 ));
                             }
-                            if payload < largest {
+                            if total < largest {
                                 return Err(Error::new(
                                     data.enum_token.span(),
                                     format!("detected a variant over the maximum defined size."),
@@ -1472,8 +1472,8 @@ impl ObjectInfo {
                             }
                         } else {
                             EnumAttrInfo {
-                                payload_bit_size: largest,
-                                id_bits: min_id_size,
+                                payload_bit_size: payload,
+                                id_bits: total - payload,
                                 id_position: enum_attrs.id_position,
                                 attrs: attrs.clone(),
                             }
-- 
2.43.0


From 4eb04c9f03193e520bfd40d69b084c413369cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 17/29] fix: slice functions of a reversed struct need the
 bytes up to the field's last one

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 60d896c..9c9188a 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -522,7 +522,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 60d8c6d..b4f30b9 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -374,7 +374,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 52739899b2df4a73a1568904f3acfa747d6a87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 18/29] fix: malformed endianness values are rejected

---
 bondrewd-derive/src/structs/common.rs | 7 ++++++-
 bondrewd-derive/src/structs/parse.rs  | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 6857ce7..5cd6d97 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1749,7 +1749,12 @@ impl ObjectInfo {
                             }
                             "be" | "msb" | "big" => info.default_endianess = Endianness::Big,
                             "ne" | "native" => info.default_endianess = Endianness::None,
-                            _ => {}
+                            _ => {
+                                return Err(syn::Error::new(
+                                    val.span(),
+                                    "Expected literal str \"le\" or \"be\" for default_endianness attribute.",
+                                ))
+                            }
                         }
                     } else {
                         return Err(syn::Error::new(
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 3a6d842..8a84980 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -142,6 +142,11 @@ impl FieldAttrBuilder {
                                         ));
                                     }
                                 });
+                            } else {
+                                return Err(syn::Error::new(
+                                    builder.span(),
+                                    "endianness must use a literal str, use \"le\" or \"be\"",
+                                ));
                             }
                         }
                         "bit_length" => {
-- 
2.43.0


From f4a7ee7f766b899dcf5af7dd08626b41092f64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 19/29] fix: a field longer than its type is rejected

---
 bondrewd-derive/src/structs/common.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 5cd6d97..23447d1 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -209,6 +209,20 @@ impl FieldDataType {
             }
         }
     }
+    /// the most bits a value of the type can take, if the type limits them.
+    fn max_bit_length(&self) -> Option<usize> {
+        match self {
+            Self::Boolean | Self::Struct(_, _) => None,
+            Self::Number(size, _, _)
+            | Self::Float(size, _)
+            | Self::Enum(_, size, _)
+            | Self::Char(size, _) => Some(size * 8),
+            Self::ElementArray(sub, length, _) | Self::BlockArray(sub, length, _) => {
+                sub.ty.max_bit_length().map(|bits| bits * length)
+            }
+        }
+    }
+
     fn get_element_bit_length(&self) -> usize {
         match self {
             Self::Boolean => 1,
@@ -959,6 +973,19 @@ impl FieldInfo {
             }
         };
 
+        if let Some(max) = data_type.max_bit_length() {
+            if attrs.bit_length() > max {
+                return Err(Error::new(
+                    ident.span(),
+                    format!(
+                        "field takes {} bits but its type only has {}",
+                        attrs.bit_length(),
+                        max
+                    ),
+                ));
+            }
+        }
+
         // construct the field we are parsed.
         let new_field = FieldInfo {
             ident: Box::new(ident),
-- 
2.43.0


From 5756e7423a227d9b05c596d3ff2f050f44e65e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 20/29] fix: keep the whole path of a nested type, not only its
 last segment

---
 bondrewd-derive/src/structs/common.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 23447d1..f82bf6b 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -246,22 +246,12 @@ impl FieldDataType {
             Type::Path(ref path) => match attrs.ty {
                 FieldAttrBuilderType::Struct(ref size) => FieldDataType::Struct(
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    quote! {#path},
                 ),
                 FieldAttrBuilderType::Enum(ref size, ref prim) => FieldDataType::Enum(
                     quote! {#prim},
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    quote! {#path},
                 ),
                 _ => Self::parse_path(&path.path, attrs, span)?,
             },
-- 
2.43.0


From 8f935289bfbbc780e322fdfec387ac8e17c1bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 21/29] fix: construct field-less variants declared with {} or
 ()

---
 bondrewd-derive/src/structs/from_bytes.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 9c9188a..8a76930 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -344,14 +344,10 @@ pub fn create_from_bytes_field_quotes_enum(
                 ));
             }
         };
-        let variant_constructor = if field_name_list.is_empty() {
-            quote! {Self::#variant_name}
+        let variant_constructor = if variant.tuple {
+            quote! {Self::#variant_name ( #field_name_list )}
         } else {
-            if variant.tuple{
-                quote! {Self::#variant_name ( #field_name_list )}
-            }else{
-                quote! {Self::#variant_name { #field_name_list }}
-            }
+            quote! {Self::#variant_name { #field_name_list }}
         };
         from_bytes_fn = quote! {
             #from_bytes_fn
-- 
2.43.0


From 4781e5d71f1e4334b75c06c00acafdb299fd6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 22/29] fix: accept raw identifiers as field names

---
 bondrewd-derive/src/structs/from_bytes.rs | 10 +++++-----
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 8a76930..22f294d 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -173,9 +173,9 @@ fn create_fields_quotes(
                 // put the field extraction in the actual from bytes.
                 if field.attrs.reserve.read_field() {
                     let fn_field_name = if let Some(ref p) = lower_name {
-                        format_ident!("read_{p}_{field_name}")
+                        format_ident!("read_{}_{}", p, field_name)
                     } else {
-                        format_ident!("read_{field_name}")
+                        format_ident!("read_{}", field_name)
                     };
                     quote! {
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
@@ -513,7 +513,7 @@ fn make_peek_slice_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_slice_{field_name}");
+    let fn_field_name = format_ident!("read_slice_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -550,7 +550,7 @@ fn make_peek_slice_unchecked_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -578,7 +578,7 @@ fn make_peek_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index b4f30b9..0b0c3ae 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -88,7 +88,7 @@ fn create_fields_quotes(
         )?;
         if field.attrs.reserve.write_field() {
             if let Some(ref name) = lower_name {
-                let fn_name = format_ident!("write_{name}_{field_name}");
+                let fn_name = format_ident!("write_{}_{}", name, field_name);
                 into_bytes_quote = quote! {
                     #into_bytes_quote
                     Self::#fn_name(&mut output_byte_buffer, #field_name);
@@ -366,9 +366,9 @@ fn make_set_slice_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_slice_{p}_{field_name}")
+        format_ident!("write_slice_{}_{}", p, field_name)
     } else {
-        format_ident!("write_slice_{field_name}")
+        format_ident!("write_slice_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -405,9 +405,9 @@ fn make_set_slice_unchecked_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_{p}_{field_name}")
+        format_ident!("write_{}_{}", p, field_name)
     } else {
-        format_ident!("write_{field_name}")
+        format_ident!("write_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -435,9 +435,9 @@ fn make_set_fn(
 ) -> syn::Result<TokenStream> {
     let field_name_short = field.ident().ident();
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{field_name_short}")
+        format_ident!("{}_{}", p, field_name_short)
     } else {
-        format_ident!("{field_name_short}")
+        format_ident!("{}", field_name_short)
     };
     let struct_size = info.total_bytes();
     let bit_range = &field.attrs.bit_range;
-- 
2.43.0


From cba6668c85f8397acad4871ee3effeebd51032d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 23/29] fix: leave attributes of others alone

---
 bondrewd-derive/src/enums/parse.rs    | 11 +++++++++--
 bondrewd-derive/src/structs/common.rs |  4 ++--
 bondrewd-derive/src/structs/parse.rs  |  6 +++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index b0b369a..9d4d285 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -229,7 +229,10 @@ impl EnumInfo {
     ) -> syn::Result<bool> {
         let mut temp: Option<Ident> = None;
         let mut temp_invalid = invalid_found.clone();
-        for attr in attrs {
+        for attr in attrs
+            .iter()
+            .filter(|attr| attr.path.is_ident("bondrewd_enum"))
+        {
             match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, &mut temp, var)? {
                 ParseMetaResult::FoundInvalid => {
                     std::mem::swap(&mut temp, primitive_type);
@@ -258,7 +261,11 @@ impl EnumInfo {
         };
         let mut primitive_type: Option<Ident> = None;
         let mut partial_eq = false;
-        for attr in &input.attrs {
+        for attr in input
+            .attrs
+            .iter()
+            .filter(|attr| attr.path.is_ident("bondrewd_enum"))
+        {
             match attr.parse_meta()? {
                 Meta::NameValue(_) => {}
                 Meta::Path(_) => {}
diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index f82bf6b..358e717 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1219,7 +1219,7 @@ impl ObjectInfo {
         attrs_info: &mut AttrInfo,
         is_variant: bool,
     ) -> syn::Result<()> {
-        for attr in attrs.iter() {
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("bondrewd")) {
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_struct_attrs_meta(span, attrs_info, &meta, is_variant)?;
@@ -1232,7 +1232,7 @@ impl ObjectInfo {
         attrs_info: &mut AttrInfo,
         enum_attrs_info: &mut EnumAttrInfoBuilder,
     ) -> syn::Result<()> {
-        for attr in attrs.iter() {
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("bondrewd")) {
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_enum_attrs_meta(span, attrs_info, enum_attrs_info, &meta)?;
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 8a84980..0114e75 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -104,7 +104,11 @@ impl FieldAttrBuilder {
         // end ( this only works if a all bit fields are in order, ex. if a bit_range attribute defines a
         // complete range which occupies the same space as this field and that field is not the "last_field"
         // you will get a conflicting fields error returned to the user... hopefully )
-        for attr in field.attrs.iter() {
+        for attr in field
+            .attrs
+            .iter()
+            .filter(|attr| attr.path.is_ident("bondrewd"))
+        {
             let meta = attr.parse_meta()?;
             Self::parse_meta(meta, &last_field, &mut builder)?;
         }
-- 
2.43.0


From 0bd96cbd057b5c8a334728ff453ab377e6f64054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 24/29] fix: accept field types given to a macro by example

---
 bondrewd-derive/src/structs/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 358e717..1017530 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -438,6 +438,10 @@ impl FieldDataType {
                     ));
                 }
             }
+            // types given to a macro by example come wrapped in a group.
+            Type::Group(ref group) => {
+                return Self::parse(&group.elem, attrs, span, default_endianess)
+            }
             _ => {
                 return Err(Error::new(span, "Unsupported field type"));
             }
-- 
2.43.0


From 79d16c7ad12803eee51325a66a7473d21b539279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 25/29] fix: PartialEq of primitive enums without std

---
 bondrewd-derive/src/enums/partial_eq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 89264cf..1876b44 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl std::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
-- 
2.43.0


From 95ec3b610e8800466d4bbb1ea62a74d57cea47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 26/29] fix: dyn_fns without std

---
 bondrewd-derive/src/structs/from_bytes.rs |  4 ++--
 bondrewd/src/hex.rs                       |  2 +-
 bondrewd/src/lib.rs                       | 12 +++++++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 22f294d..7f1b50a 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -382,7 +382,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -457,7 +457,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::__private::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
diff --git a/bondrewd/src/hex.rs b/bondrewd/src/hex.rs
index e5a10ac..6f8b259 100644
--- a/bondrewd/src/hex.rs
+++ b/bondrewd/src/hex.rs
@@ -63,7 +63,7 @@ where
 {
     const UPPERS: &'static [u8; 16] = b"0123456789ABCDEF";
     const LOWERS: &'static [u8; 16] = b"0123456789abcdef";
-    fn from_hex_vec(hex: &mut Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
+    fn from_hex_vec(hex: &mut crate::__private::Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
         if hex.len() < HEX_SIZE {
             return Err(crate::BitfieldHexDynError::Length(
                 crate::BitfieldLengthError(hex.len(), HEX_SIZE)
diff --git a/bondrewd/src/lib.rs b/bondrewd/src/lib.rs
index 3abad24..d87b928 100644
--- a/bondrewd/src/lib.rs
+++ b/bondrewd/src/lib.rs
@@ -3,6 +3,16 @@
 //! For Derive Docs see [bondrewd-derive](https://docs.rs/bondrewd-derive/latest/bondrewd_derive/)
 
 mod error;
+
+#[cfg(feature = "dyn_fns")]
+extern crate alloc;
+/// What generated code names. It also has to compile where there is no std prelude.
+#[cfg(feature = "dyn_fns")]
+#[doc(hidden)]
+pub mod __private {
+    pub use alloc::vec::Vec;
+}
+
 #[cfg(feature = "hex_fns")]
 pub use error::BitfieldHexError;
 #[cfg(feature = "dyn_fns")]
@@ -30,7 +40,7 @@ pub trait BitfieldsDyn<const SIZE: usize>: Bitfields<SIZE>
 where 
     Self: Sized
 {
-    fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, BitfieldLengthError>;
+    fn from_vec(input_byte_buffer: &mut __private::Vec<u8>) -> Result<Self, BitfieldLengthError>;
     fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, BitfieldLengthError>;
 }
 
-- 
2.43.0


From fbf0ec2f57dca18afa594c54c85389388da827a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 27/29] fix: PartialEq of enums with their id type without
 dyn_fns

The part_eq_enums feature is documented to implement PartialEq of a
Bitfields enum with its id type, but the impl was only generated
together with dyn_fns.
---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0


From ca0601f0ea0a445b57d4c764d9e336433679a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 28/29] fix: reject fields without bits, blocks without bits
 and overlapping_bits beyond the field

The derive subtracted past zero for these: a panic when it was built with
overflow checks, silent acceptance with a nonsense layout when it was built
in release mode.
---
 bondrewd-derive/src/structs/common.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 1017530..6557171 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -967,6 +967,31 @@ impl FieldInfo {
             }
         };
 
+        if attrs.bit_range.end <= attrs.bit_range.start {
+            return Err(Error::new(ident.span(), "field takes no bits"));
+        }
+        if let OverlapOptions::Allow(bits) = attrs.overlap {
+            if bits > attrs.bit_length() {
+                return Err(Error::new(
+                    ident.span(),
+                    format!(
+                        "overlapping_bits is {bits} but the field takes {} bits",
+                        attrs.bit_length()
+                    ),
+                ));
+            }
+        }
+        if let FieldDataType::BlockArray(ref sub_field, array_length, _) = data_type {
+            if array_length.saturating_sub(1) * sub_field.ty.size() * 8 >= attrs.bit_length() {
+                return Err(Error::new(
+                    ident.span(),
+                    format!(
+                        "field takes {} bits, which is not enough for {array_length} blocks",
+                        attrs.bit_length()
+                    ),
+                ));
+            }
+        }
         if let Some(max) = data_type.max_bit_length() {
             if attrs.bit_length() > max {
                 return Err(Error::new(
-- 
2.43.0


From d6f11f30245beae9649c9e5a309b625db77f92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 29/29] fix: reject a bits range which ends before it starts

range.end - range.start wrapped when the derive was built in release mode,
and a nested field or an array with such a range was accepted.
---
 bondrewd-derive/src/structs/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 0114e75..bf35d1d 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -287,6 +287,12 @@ impl FieldAttrBuilder {
                                 let split = val_string.split("..").collect::<Vec<&str>>();
                                 if split.len() == 2 {
                                     match (split[0].parse::<usize>(), split[1].parse::<usize>()) {
+                                        (Ok(start), Ok(end)) if end < start => {
+                                            return Err(Error::new(
+                                                builder.span(),
+                                                "bits attribute ends before it starts",
+                                            ));
+                                        }
                                         (Ok(start), Ok(end)) => match builder.bit_range {
                                             FieldBuilderRange::Range(ref range) => {
                                                 if range.end - range.start == end - start {
-- 
2.43.0

