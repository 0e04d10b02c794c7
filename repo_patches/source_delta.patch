From 9546a63bc0c25515f9adcc05b7cb0260fb05aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 01/49] fix: range bit operations no longer overflow on offset
 + length

The bounds check computed offset + length in u32, so a huge length panicked
with overflow checks and wrapped past the check (touching unrelated or
out-of-range bits) without them.
---
 .../src/generating/bitfield/features/set_get_bit_ops_feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..3d83a3c 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -475,7 +475,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From e080c20faa822c8fdaf11138e59eba886bfe66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 02/49] fix: zero-length ranges on integer-backed bitfields
 select no bits

A length of 0 shifted by the full type width: it panicked with overflow
checks and, without them, read or overwrote every bit above the offset.
Array-backed bitfields already treated it as an empty range.
---
 .../features/set_get_bit_ops_feature.rs       | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 3d83a3c..4acf808 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -91,6 +91,8 @@ impl SetGetBitOpsFeature {
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::ReadOnly);
 
+        let length_mask_tokens = Self::generate_length_mask_tokens(bitfield);
+
         if bitfield.is_integer_backed() {
             quote! {
                 #[doc = "Sets a bit in the bitfield."]
@@ -130,7 +132,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    let range_mask = (#length_mask_tokens) << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +147,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = #length_mask_tokens;
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -301,6 +303,7 @@ impl SetGetBitOpsFeature {
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::WriteOnly);
         let array_len = bitfield.spanned_data_type_token().array_length().unwrap_or_default();
+        let length_mask_tokens = Self::generate_length_mask_tokens(bitfield);
 
         if bitfield.is_integer_backed() {
             quote! {
@@ -326,7 +329,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = #length_mask_tokens;
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +344,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = #length_mask_tokens;
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -435,6 +438,20 @@ impl SetGetBitOpsFeature {
         }
     }
 
+    /// Generates a mask of the lowest `length` bits. An empty range selects no
+    /// bits.
+    fn generate_length_mask_tokens(bitfield: &Bitfield) -> TokenStream {
+        let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+
+        quote! {
+            if length == 0 {
+                0
+            } else {
+                #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)
+            }
+        }
+    }
+
     fn generate_check_offset_bitfield_range_tokens(
         bitfield: &Bitfield,
         guard_return_type: GuardReturnType,
-- 
2.43.0


From 38546c337799cf9e0bbbe7dbf5f3279b3a0c9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:20 +0000
Subject: [PATCH 03/49] fix: write_bit_ops argument controls the write
 operations

The write group was gated by the bit_ops and set_get_bit_ops arguments, so
write_bit_ops = false was ignored and bit_ops = false, write_bit_ops = true
generated nothing.
---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From 3dbba415e06fca400f90d6145a94afbe9d9867bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 04/49] fix: accept i128::MIN as a default value

The magnitude was negated as an i128, which is not representable for
i128::MIN, so the macro panicked; larger magnitudes wrapped past the range
check.
---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..1036290 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -323,12 +323,9 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
-
-        if negative_default_value < negative_bits_min_value {
+        // Compared by magnitude, since the magnitude of `i128::MIN` isn't
+        // representable as an `i128`.
+        if *number > negative_bits_min_value.unsigned_abs() {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From b003f429d01682d5ebe9812879f242f3b8228f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:58 +0000
Subject: [PATCH 05/49] fix: only numeric literals are rejected as float
 defaults

Negative hex literals ending in f32/f64 digits and const paths ending in
f32/f64 (or using a method call) were reported as floats.
---
 bitfields_impl/src/parsing/common/const_expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..2eb5670 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,7 +78,12 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
+        let unsigned_number_str = Self::strip_negative_sign(number_str);
+        // Only a numeric literal can be a float, anything else is a const
+        // variable or const function.
+        let is_numeric_literal = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
+
+        if is_numeric_literal && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-- 
2.43.0


From cfb870fd87e870a34d400be1c709ccecc495a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:10 +0000
Subject: [PATCH 06/49] fix: defaults of fields without a setter are converted
 through the field type

---
 .../features/common/generator_helper.rs       | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..d00b605 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -673,8 +673,11 @@ fn generate_setting_field_without_setter_tokens(
             DataType::Custom => quote! {
                 #value_tokens.into_bits() as u128
             },
-            _ => quote! {
-                #value_tokens as u128
+            _ => {
+                let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+                quote! {
+                    (#value_tokens) as #field_data_type_tokens as u128
+                }
             },
         };
 
@@ -717,9 +720,19 @@ fn generate_setting_field_without_setter_tokens(
         };
     }
 
+    // The value may be a default expression of the field type, so it's converted
+    // through the field type to the bitfield type.
+    let field_value_tokens = match field.spanned_data_type_token().data_type() {
+        DataType::Integer(_) => {
+            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            quote! { (#value_tokens) as #field_data_type_tokens as #bitfield_data_type_tokens }
+        },
+        _ => value_tokens,
+    };
+
     quote! {
         let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
-        let field_bits = #value_tokens;
+        let field_bits = #field_value_tokens;
         #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << #field_offset_tokens)) | ((field_bits & mask) << #field_offset_tokens);
     }
 }
-- 
2.43.0


From 68edcfccc31832cbacd4134c8660bf95503d68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 07/49] fix: leave literals below i128::MIN to the compiler

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 1036290..22774f0 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -323,9 +323,11 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        // Compared by magnitude, since the magnitude of `i128::MIN` isn't
-        // representable as an `i128`.
-        if *number > negative_bits_min_value.unsigned_abs() {
+        // Wrapping, since the magnitude of `i128::MIN` isn't representable as an
+        // `i128`. The compiler rejects literals with a bigger magnitude.
+        let negative_default_value = (*number as i128).wrapping_neg();
+
+        if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From 2051a73090e7b7bb7a8ead32230bb31a0bd54713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 08/49] fix: checked setters check the value before casting it
 to the bitfield type

---
 .../features/common/generator_helper.rs       | 48 +++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index d00b605..8ee194e 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -244,17 +244,37 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    // The field's value may be wider than the bitfield type, so it must be checked
+    // before it's cast to the bitfield type.
+    let check_before_cast = !using_setter
+        && check_bit_size
+        && cast_bits
+        && bitfield.is_integer_backed()
+        && !is_signed_integer
+        && !is_bool_field
+        && !is_array_field;
+
+    let pre_extract_check_tokens = if check_before_cast {
+        Some(generate_unsigned_bit_size_check_before_cast_tokens(field))
+    } else {
+        (!using_setter && check_bit_size && is_signed_integer)
+            .then(|| generate_signed_bit_size_check_tokens(field))
+    };
 
     let post_extract_check_tokens = (!using_setter
         && check_bit_size
+        && !check_before_cast
         && !is_signed_integer
         && !is_bool_field
         && !is_array_field)
         .then(generate_bit_size_check_tokens);
 
-    let extract_field_bits_into_variable_tokens =
+    let extract_field_bits_into_variable_tokens = if check_before_cast {
+        let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+        quote! {
+            let value = bits as #bitfield_data_type_tokens;
+        }
+    } else {
         generate_extract_field_bits_from_source_into_variable_tokens(
             bitfield,
             field,
@@ -262,7 +282,8 @@ pub fn generate_setting_field_from_variable_tokens(
             cast_bits,
             /* invert_bits= */ false,
             builder_caller,
-        );
+        )
+    };
 
     let value_variable_tokens = get_value_variable_tokens(field);
     let set_field_to_extracted_bits_from_variable_tokens = if using_setter {
@@ -344,6 +365,25 @@ fn generate_bit_size_check_tokens() -> TokenStream {
     }
 }
 
+/// Generates an overflow check for unsigned/custom fields of integer-backed
+/// bitfields. Must run before `bits` is cast to the bitfield type.
+fn generate_unsigned_bit_size_check_before_cast_tokens(field: &Field) -> TokenStream {
+    let max = u128::MAX >> (u128::BITS - field.bits());
+    let into_bits_tokens =
+        matches!(field.spanned_data_type_token().data_type(), DataType::Custom).then(|| {
+            quote! { .into_bits() }
+        });
+
+    quote! {
+        #[allow(clippy::unnecessary_cast)]
+        let bits = bits #into_bits_tokens as u128;
+        let max = #max;
+        if bits > max {
+            return Err("Value is too big to fit within the field bits.");
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
-- 
2.43.0


From f7c32bccf46fe1ce666bcb8bf646c1d04ff495a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 09/49] fix: checked setters of array fields reject bytes that
 don't fit the field bits

---
 .../features/common/generator_helper.rs       | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 8ee194e..0ce381e 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -256,6 +256,8 @@ pub fn generate_setting_field_from_variable_tokens(
 
     let pre_extract_check_tokens = if check_before_cast {
         Some(generate_unsigned_bit_size_check_before_cast_tokens(field))
+    } else if !using_setter && check_bit_size && is_array_field {
+        Some(generate_array_bit_size_check_tokens(field))
     } else {
         (!using_setter && check_bit_size && is_signed_integer)
             .then(|| generate_signed_bit_size_check_tokens(field))
@@ -384,6 +386,33 @@ fn generate_unsigned_bit_size_check_before_cast_tokens(field: &Field) -> TokenSt
     }
 }
 
+/// Generates an overflow check for array fields, the array bits past the field
+/// bits must be unset. Skipped when the field uses all of the array bits.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let DataType::Array {
+        length,
+    } = field.spanned_data_type_token().data_type()
+    else {
+        unreachable!("Expected array type for generating array bit size check");
+    };
+    let field_bits = field.bits() as usize;
+    let type_bits = length as usize * 8;
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        let mut __i: usize = #field_bits;
+        while __i < #type_bits {
+            if (bits[__i / 8] >> (__i % 8)) & 1 == 1 {
+                return Err("Value is too big to fit within the field bits.");
+            }
+            __i += 1;
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
-- 
2.43.0


From 832d8fdf092c349dee7a4a026d461d7443a8c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:35 +0000
Subject: [PATCH 10/49] fix: array fields of integer-backed bitfields keep
 their last partial byte

---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 0ce381e..8e3a10e 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -496,7 +496,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = (field.bits() as usize).div_ceil(8).min(len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-- 
2.43.0


From f6f1970d381ebd3a2baf647e620897bf8b01f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 11/49] fix: inverted getters sign-extend signed fields

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..b570a1b 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -167,11 +167,13 @@ impl InvertBitOpsFeature {
                         /* invert_bits= */ true,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 quote! {
                     #[doc = #documentation]
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From e9e0175f46f14b81480f1452ca759c5c1c31c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 12/49] fix: Debug prints signed fields sign-extended

---
 .../src/generating/bitfield/features/debug_trait_feature.rs    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index ca46d0d..8d428c1 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -4,6 +4,7 @@ use quote::quote;
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
+    generate_sign_extend_bit_operation_tokens,
 };
 use crate::parsing::bitfields::bitfield::Bitfield;
 
@@ -62,9 +63,11 @@ impl DebugTraitFeature {
                         /* invert_bits= */ false,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
 
                 quote! {
                     #extract_field_bits_from_bitfield_into_variable
+                    #sign_extend_tokens
                     debug.field(#field_name, &value);
                 }
             })
-- 
2.43.0


From 5d22a818bdc58589343e9eb60575972693a993a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 13/49] fix: reject bits that don't fit an array field's type

---
 .../src/parsing/bitfields/bitfield_parser.rs         |  6 ++++--
 .../src/parsing/common/spanned_data_type.rs          | 12 ------------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 22774f0..7eae410 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -124,6 +124,9 @@ fn parse_field_helper(
 
     if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    }
+
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_field_data_type_can_hold_bits(
             bits_attribute.as_ref(),
             bits,
@@ -360,12 +363,11 @@ fn check_field_data_type_can_hold_bits(
     };
 
     let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
             format!(
-                "The field type '{spanned_data_type_tokens}' is too small to hold the specified \
+                "The field type '{spanned_data_type_token}' is too small to hold the specified \
                  '{bits} bits'."
             ),
         ));
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..b97b4fa 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -124,18 +124,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From 3b4f9a2807753bd2f91813cadeeacbc15b5933ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:04 +0000
Subject: [PATCH 14/49] fix: reject custom fields with more than 128 bits

---
 .../src/parsing/bitfields/bitfield_parser.rs  | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 7eae410..2125ff4 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -134,6 +134,10 @@ fn parse_field_helper(
         )?;
     }
 
+    if matches!(spanned_data_type_token.data_type(), DataType::Custom) {
+        check_custom_type_can_hold_bits(bits_attribute.as_ref(), bits)?;
+    }
+
     let offset = calculate_field_offset(bitfield_attribute, field_tokens, bits, prev_fields)?;
     let access = get_field_access(bits_attribute.as_ref(), reserved)?;
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
@@ -376,6 +380,30 @@ fn check_field_data_type_can_hold_bits(
     Ok(())
 }
 
+/// Checks if a custom type can contain the defined bits, their bits are
+/// converted through an integer.
+fn check_custom_type_can_hold_bits(
+    bits_attribute: Option<&BitsAttribute>,
+    bits: u32,
+) -> syn::Result<()> {
+    let Some(bits_attr) = bits_attribute else {
+        return Ok(());
+    };
+
+    if bits > u128::BITS {
+        return Err(create_user_parsing_compiler_error(
+            bits_attr.span().expect("Expected bits attribute for bits checking"),
+            format!(
+                "Custom and nested field types can hold at most '{} bits', but '{bits} bits' were \
+                 specified.",
+                u128::BITS
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Compute the minimum and maximum representable signed/unsigned values for
 /// a given number of bits.
 const fn min_max_for_bits(bits: u32) -> (i128, u128) {
-- 
2.43.0


From 1e16a92bf9ce76b2754d1377fd20cadcfafb3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 15/49] fix: ignored fields keep their visibility

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..da01bfa 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -144,6 +144,11 @@ impl Field {
 
     /// Returns the visibility of the field.
     pub fn visibility(&self) -> Visibility {
+        // Ignored fields are plain struct fields, so they keep their visibility.
+        if self.ignored {
+            return self.visibility.clone();
+        }
+
         let has_public_access =
             matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
         if !has_public_access {
-- 
2.43.0


From a0a940c77c232c5b1d0d4b5eb290f0862c0f8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 16/49] fix: ignored fields may have any type that implements
 Default

---
 .../bitfield/features/common/generator_helper.rs    |  8 +-------
 .../src/parsing/bitfields/bitfield_parser.rs        |  3 +--
 .../src/parsing/common/spanned_data_type.rs         | 13 +++++++++++++
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 8e3a10e..9594373 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -100,14 +100,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 2125ff4..156e9e6 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -156,8 +156,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_opaque(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index b97b4fa..25119b7 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,19 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates a new type kind from any syn type, for types the bitfield doesn't
+    /// store bits for.
+    pub fn new_opaque(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(
+                Self::get_syn_type_string(syn_type),
+                syn_type.span(),
+            ),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From b1389fd780609c55fcea4094090a4c2bfff39006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 17/49] fix: support pub(in path) visibility

---
 .../src/parsing/common/visibility.rs           | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..31e9ddc 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::quote;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -9,7 +9,7 @@ pub enum Visibility {
     /// A public visibility level.
     Public,
 
-    /// A restricted visibility level.
+    /// A restricted visibility level (e.g., `crate` or `in crate::module`).
     Restricted(String),
 
     /// A private visibility level.
@@ -22,13 +22,8 @@ impl Visibility {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
             syn::Visibility::Restricted(r) => {
-                let path = r
-                    .path
-                    .segments
-                    .iter()
-                    .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
-                Self::Restricted(path)
+                let (in_token, path) = (&r.in_token, &r.path);
+                Self::Restricted(quote! { #in_token #path }.to_string())
             },
             syn::Visibility::Inherited => Self::Private,
         }
@@ -44,9 +39,10 @@ impl ToTokens for Visibility {
                 }
             },
             Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
+                let path_tokens: TokenStream =
+                    path.parse().expect("Expected a valid restricted visibility path");
                 quote! {
-                    pub(#path_ident)
+                    pub(#path_tokens)
                 }
             },
             Self::Private => {
-- 
2.43.0


From 1752dc9620031d04ef4b06d240d592fab57ef76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 18/49] fix: derive core::marker::Copy so no_std crates can
 copy bitfields

---
 .../src/generating/bitfield/features/bitfield_struct_feature.rs | 2 +-
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..f88075e 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -87,7 +87,7 @@ impl BitfieldStructFeatureGenerator {
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(core::marker::Copy, core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..fe95e09 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(core::marker::Copy, core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 4cdb4da76124e10ce6dd1859786a2ac4e064dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 19/49] fix: Default without a new function zeroes fields like
 new does

---
 .../bitfield/features/default_trait_feature.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..59d7a81 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -2,10 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
-use crate::generating::bitfield::features::common::generator_helper::{
-    generate_bitfield_struct_initialization_tokens,
-    generate_setting_fields_to_default_value_tokens_list,
-};
+use crate::generating::bitfield::features::common::generator_helper::generate_new_function_implementation_tokens;
 use crate::parsing::bitfields::bitfield::Bitfield;
 
 /// Generates `Default` trait implementation.
@@ -50,16 +47,13 @@ impl DefaultTraitFeature {
                 Self::new()
             }
         } else {
-            let bitfield_struct_initialization_tokens =
-                generate_bitfield_struct_initialization_tokens(
-                    bitfield, /* builder_caller= */ false,
-                );
-            let setting_fields_to_default_value_tokens_list =
-                generate_setting_fields_to_default_value_tokens_list(bitfield);
+            let new_implementation_tokens = generate_new_function_implementation_tokens(
+                bitfield, /* generate_setting_defaults= */ true,
+                /* builder_caller= */ false, /* existing_bitfield= */ false,
+            );
 
             quote! {
-                let mut this = #bitfield_struct_initialization_tokens;
-                #( #setting_fields_to_default_value_tokens_list )*
+                #new_implementation_tokens
                 this
             }
         }
-- 
2.43.0


From 6840f63df2529741e7f7700f2dbfc21036668124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 20/49] fix: builders of bitfields without a new function
 support fields without a setter

---
 .../features/common/generator_helper.rs       | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 9594373..bb80a27 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -468,8 +468,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
 
             let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
 
-            let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-            let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+            let field_bits_tokens = get_field_bits_tokens(bitfield, field);
+            let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
             let invert_value_tokens = invert_bits.then(|| {
                 quote! {
@@ -701,8 +701,8 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    let field_bits_tokens = get_field_bits_tokens(bitfield, field);
+    let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
@@ -832,12 +832,9 @@ pub fn generate_extract_all_field_bits_from_variable_into_variable_tokens_and_se
 }
 
 /// Returns the field bits tokens, using the bits constant if available.
-pub fn get_field_bits_tokens(
-    bitfield: &Bitfield,
-    field: &Field,
-    builder_caller: bool,
-) -> TokenStream {
-    let bitfield_reference = get_bitfield_reference_tokens(bitfield, builder_caller);
+pub fn get_field_bits_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
+    // The bitfield is named because `Self` may be the bitfield builder.
+    let bitfield_reference = bitfield.name_tokens();
 
     if field.has_constants() {
         let field_bits_constant_ident_tokens = field.bits_constant_ident_tokens();
@@ -854,12 +851,9 @@ pub fn get_field_bits_tokens(
 }
 
 /// Returns the field offset tokens, using the offset constant if available.
-pub fn get_field_offset_tokens(
-    bitfield: &Bitfield,
-    field: &Field,
-    builder_caller: bool,
-) -> TokenStream {
-    let bitfield_reference = get_bitfield_reference_tokens(bitfield, builder_caller);
+pub fn get_field_offset_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
+    // The bitfield is named because `Self` may be the bitfield builder.
+    let bitfield_reference = bitfield.name_tokens();
 
     if field.has_constants() {
         let field_offset_constant_ident_tokens = field.offset_constant_ident_tokens();
-- 
2.43.0


From cbf289c11fc5fa7623df79421584d7dd305b9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 21/49] fix: support raw identifiers as field names

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index da01bfa..e3d9903 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From c6ee73e1722a93b9b7c2811989504bfa1f62862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 22/49] fix: builders have no functions for fields without
 access

---
 .../src/generating/bitfield/features/builder_feature.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 3370677..a0d7913 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -129,7 +129,7 @@ impl BuilderFeature {
         bitfield
             .fields()
             .iter()
-            .filter(|field: &&Field| !field.is_reserved())
+            .filter(|field: &&Field| field.has_getter() || field.has_setter())
             .map(|field| Self::generate_generate_builder_setters_setter_helper(bitfield, field))
             .collect()
     }
-- 
2.43.0


From 1c421a66271e998f7db861e85dae0999602847f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:01 +0000
Subject: [PATCH 23/49] fix: reject negative defaults whose magnitude exceeds
 i128::MAX

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 156e9e6..fb264a9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -329,11 +329,9 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        // Wrapping, since the magnitude of `i128::MIN` isn't representable as an
-        // `i128`. The compiler rejects literals with a bigger magnitude.
-        let negative_default_value = (*number as i128).wrapping_neg();
-
-        if negative_default_value < negative_bits_min_value {
+        // Compared by magnitude, since the magnitude of `i128::MIN` isn't
+        // representable as an `i128`.
+        if bits < i128::BITS && *number > negative_bits_min_value.unsigned_abs() {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From 878c3ecfdbd074fedec6f4dcb72f510af9111317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 24/49] fix: reject bitflag variant literals that don't fit the
 bitflag type

---
 .../src/parsing/bitflags/bitflag_parser.rs    | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index da21523..6d60732 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -22,6 +22,7 @@ pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<
     let variants = parse_variants(&enum_tokens.variants)?;
 
     check_base_bitflag_variants(&enum_tokens, &variants)?;
+    check_variants_fit_in_bitflag_type(&bitflag_attribute, &variants)?;
 
     Ok(Bitflag::new(
         user_attributes_tokens,
@@ -84,6 +85,37 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
     Ok(BitflagVariant::new(user_attributes_tokens, name_ident, value, base, default))
 }
 
+/// Ensure the literal values of the variants fit in the bitflag type. Const
+/// variables and const functions are left to the compiler.
+fn check_variants_fit_in_bitflag_type(
+    bitflag_attribute: &BitflagAttribute,
+    variants: &[BitflagVariant],
+) -> syn::Result<()> {
+    let spanned_data_type_token = bitflag_attribute.spanned_data_type_token();
+    let bits = spanned_data_type_token.data_type().bit_size();
+    let max = u128::MAX >> u128::BITS.saturating_sub(bits);
+
+    for variant in variants {
+        let value = variant.value();
+        if let ConstExpr::Literal {
+            number, ..
+        } = &value
+        {
+            if *number > max {
+                return Err(create_user_parsing_compiler_error(
+                    value.span(),
+                    format!(
+                        "The variant value '{number}' exceeds the maximum value for the bitflag \
+                         type '{spanned_data_type_token} ({max})'."
+                    ),
+                ));
+            }
+        }
+    }
+
+    Ok(())
+}
+
 fn check_base_bitflag_variants(
     item_enum: &ItemEnum,
     variants: &[BitflagVariant],
-- 
2.43.0


From ac8c913492a80c17a4191fc3f85bbeaf019b6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 25/49] fix: array fields longer than 16 bytes in
 integer-backed bitfields don't overflow shifts

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 +++-
 .../src/generating/bitfield/features/field_getters_feature.rs | 4 +++-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index bb80a27..2e171a1 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -669,13 +669,15 @@ fn generate_field_setter_call_tokens(
             length,
         } => {
             let len = length as usize;
+            // Bytes past the biggest integer are always zero.
+            let unpack_len = len.min(16);
             if bitfield.is_integer_backed() {
                 quote! {
                     #bitfield_variable_reference.#field_setter_ident_tokens({
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #unpack_len {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..0edd96c 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -94,13 +94,15 @@ impl FieldGettersFeature {
                 length,
             } => {
                 let len = length as usize;
+                // Bytes past the biggest integer are always zero.
+                let unpack_len = len.min(16);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index b570a1b..9e8f29b 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -196,13 +196,15 @@ impl InvertBitOpsFeature {
                 length,
             } => {
                 let len = length as usize;
+                // Bytes past the biggest integer are always zero.
+                let unpack_len = len.min(16);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From 067643a108dcf7c02dbceb9967083b34a58cd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:54 +0000
Subject: [PATCH 26/49] fix: default literals wider than an i32 keep their
 value

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 2e171a1..eb50792 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -655,8 +655,10 @@ fn generate_field_setter_call_tokens(
                     #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens);
                 }
             } else {
+                // Cast to the field type, since a literal cast to `_` is an `i32`.
+                let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens as _);
+                    #bitfield_variable_reference.#field_setter_ident_tokens((#value_tokens) as #field_data_type_tokens);
                 }
             }
         },
-- 
2.43.0


From d89f8b2b21f607ae6ce320b33d220367477ada23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 27/49] fix: don't overflow when checking the default value of
 a field with more than 128 bits

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index fb264a9..a200891 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -404,8 +404,8 @@ fn check_custom_type_can_hold_bits(
 /// Compute the minimum and maximum representable signed/unsigned values for
 /// a given number of bits.
 const fn min_max_for_bits(bits: u32) -> (i128, u128) {
-    let max: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
-    let min: i128 = if bits == 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
+    let max: u128 = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
+    let min: i128 = if bits >= 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
     (min, max)
 }
 
-- 
2.43.0


From 361b50ea67c8220400df093dc5b31611b9f75d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 28/49] fix: don't crash on hex, binary and octal literals that
 don't fit in 128 bits

---
 bitfields_impl/src/parsing/common/const_expr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 2eb5670..8404019 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -159,7 +159,10 @@ impl ConstExpr {
                 IntegerPrefix::Hex.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -169,7 +172,10 @@ impl ConstExpr {
                 IntegerPrefix::Binary.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -179,7 +185,10 @@ impl ConstExpr {
                 IntegerPrefix::Octal.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
-- 
2.43.0


From 4bcff100a0ac672fe93c37f3a2de22979e8d4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 29/49] fix: don't read identifiers that start with an
 underscore as integer literals

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 8404019..7ddeab2 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -62,6 +62,11 @@ impl ConstExpr {
         let trimmed_number_str =
             spanned_token.token().trim().replace([' ', '_'], "").to_ascii_lowercase();
 
+        // An identifier can start with underscores followed by digits.
+        if spanned_token.token().trim().starts_with('_') {
+            return Ok(Self::parse_path(spanned_token));
+        }
+
         Self::check_float(&trimmed_number_str, spanned_token.span())?;
 
         if Self::is_boolean(&trimmed_number_str) {
-- 
2.43.0


From 1eb62326f4e0d728415c1c6565a13fea37bada4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 30/49] fix: reject default values that are floats in exponent
 notation

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 7ddeab2..b1ca091 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
-use syn::Expr;
+use syn::{Expr, LitFloat};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -91,7 +91,8 @@ impl ConstExpr {
         if is_numeric_literal && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
-            if number_str.contains(FLOAT_DOT) || contains_float_identifier {
+            let is_float_literal = syn::parse_str::<LitFloat>(&unsigned_number_str).is_ok();
+            if number_str.contains(FLOAT_DOT) || contains_float_identifier || is_float_literal {
                 return Err(create_user_parsing_compiler_error(
                     span,
                     "Float are not supported.".to_string(),
-- 
2.43.0


From ec3510f3fff378237714bc9670acc5fabbaa40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 31/49] fix: reject arrays whose number of bits overflows

---
 .../bitfield_attribute/bitfield_attribute_parser.rs          | 4 ++++
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs      | 5 +++++
 bitfields_impl/src/parsing/common/spanned_data_type.rs       | 4 ++++
 bitfields_impl/src/parsing/common/type_parse_error.rs        | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs
index 4250bdb..1cda9ce 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs
@@ -76,6 +76,10 @@ impl BitfieldAttribute {
                     input.span(),
                     "The bitfield array length is currently capped at 4,294,967,295, please reduce the array length.",
                 )),
+                TypeParsingError::ArrayBitsTooLarge => Err(create_user_parsing_compiler_error(
+                    input.span(),
+                    "The bitfield array bits are currently capped at 4,294,967,295, please reduce the array length.",
+                )),
             },
         }
     }
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index a200891..a3a5222 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -233,6 +233,11 @@ fn get_field_data_type_spanned_token(
                     "Field array length is currently capped at 4,294,967,295, please reduce the \
                      array length.",
                 )),
+                TypeParsingError::ArrayBitsTooLarge => Err(create_user_parsing_compiler_error(
+                    field_tokens.ty.span(),
+                    "Field array bits are currently capped at 4,294,967,295, please reduce the \
+                     array length.",
+                )),
                 _ => Err(create_user_parsing_compiler_error(
                     field_tokens.ty.span(),
                     "A field can only have `#[bits]` attributed custom or integers type."
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 25119b7..9e32445 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -105,6 +105,10 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::ZeroArrayLength);
                 }
 
+                if length.checked_mul(IntegerType::U8.bit_size()).is_none() {
+                    return Err(TypeParsingError::ArrayBitsTooLarge);
+                }
+
                 Ok(DataType::Array {
                     length,
                 })
diff --git a/bitfields_impl/src/parsing/common/type_parse_error.rs b/bitfields_impl/src/parsing/common/type_parse_error.rs
index 56885ed..1cf6f94 100644
--- a/bitfields_impl/src/parsing/common/type_parse_error.rs
+++ b/bitfields_impl/src/parsing/common/type_parse_error.rs
@@ -26,6 +26,9 @@ pub enum TypeParsingError {
     #[error("Array length too large")]
     ArrayLengthTooLarge,
 
+    #[error("Array has too many bits")]
+    ArrayBitsTooLarge,
+
     #[error("unexpected parsing error: {0}")]
     Unexpected(String),
 }
-- 
2.43.0


From e48857dc580eca16ac45b3d133b748e3f033c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 32/49] fix: don't overflow when adding up the bits of the
 fields

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index a3a5222..19f62ea 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -420,7 +420,7 @@ fn calculate_field_offset(
     bits: u32,
     prev_fields: &[Field],
 ) -> syn::Result<u32> {
-    let offset = prev_fields.iter().map(Field::bits).sum::<u32>();
+    let offset = prev_fields.iter().map(Field::bits).fold(0, u32::saturating_add);
 
     match bitfield_attribute.arguments().order() {
         BitOrder::Lsb => Ok(offset),
@@ -431,7 +431,7 @@ fn calculate_field_offset(
             // the total bits of all fields is greater than the number of bits
             // of the bitfield type. We will catch it later so
             // we can ignore for now.
-            let total_bits = offset + bits;
+            let total_bits = offset.saturating_add(bits);
             if total_bits <= bitfield_bit_size {
                 Ok(bitfield_bit_size - bits - offset)
             } else {
@@ -499,7 +499,8 @@ fn check_fields_fit_in_bitfield_type(
     bitfield_attribute: &BitfieldAttribute,
     fields: &[Field],
 ) -> syn::Result<()> {
-    let total_field_bits = fields.iter().map(Field::bits).sum::<u32>();
+    // A saturated total is always greater than the bits of the bitfield.
+    let total_field_bits = fields.iter().map(Field::bits).fold(0, u32::saturating_add);
     let bitfield_bit_size = bitfield_attribute.spanned_data_type_token().data_type().bit_size();
 
     match total_field_bits.cmp(&bitfield_bit_size) {
-- 
2.43.0


From 0786184c7f67d35f78edfefbf1df1c4760d2de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 33/49] fix: reject bitflag variants with fields, they were
 dropped

---
 bitfields_impl/src/parsing/bitflags/bitflag_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 6d60732..609b572 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{ItemEnum, Token, Variant};
+use syn::{Fields, ItemEnum, Token, Variant};
 
 use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
@@ -64,6 +64,13 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
 
     let name_ident = variant.ident.clone();
 
+    if !matches!(variant.fields, Fields::Unit) {
+        return Err(create_user_parsing_compiler_error(
+            variant.fields.span(),
+            format!("Bitflag variant '{name_ident}' cannot have fields."),
+        ));
+    }
+
     let value = match variant.discriminant.clone() {
         Some((_, expr)) => {
             let token = quote!(#expr).to_string();
-- 
2.43.0


From 5fb44c768dd6c71ee3ffb045ab3925b8cfa5fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 34/49] fix: reject generic bitfields and bitflags, their
 generics were dropped

---
 .../src/parsing/bitfields/bitfield_parser.rs  |  2 ++
 .../src/parsing/bitflags/bitflag_parser.rs    |  2 ++
 bitfields_impl/src/parsing/common/generics.rs | 24 +++++++++++++++++++
 bitfields_impl/src/parsing/common/mod.rs      |  1 +
 4 files changed, 29 insertions(+)
 create mode 100644 bitfields_impl/src/parsing/common/generics.rs

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 19f62ea..0f34594 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -12,6 +12,7 @@ use crate::parsing::bitfields::bits_attribute::bits_arguments::FieldAccess;
 use crate::parsing::bitfields::bits_attribute::bits_attribute_parser::BitsAttribute;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
+use crate::parsing::common::generics::check_no_generics;
 use crate::parsing::common::spanned_data_type::{DataType, SpannedDataTypeToken};
 use crate::parsing::common::type_parse_error::TypeParsingError;
 use crate::parsing::common::visibility::Visibility;
@@ -19,6 +20,7 @@ use crate::parsing::common::visibility::Visibility;
 /// Parses a bitfield struct annotated with `#[bitfield(..)]`.
 pub fn parse_bitfield_struct(args: TokenStream, input: TokenStream) -> syn::Result<Bitfield> {
     let struct_tokens = parse_struct_tokens(&input)?;
+    check_no_generics(&struct_tokens.generics)?;
     let user_attributes_tokens =
         struct_tokens.attrs.iter().map(quote::ToTokens::into_token_stream).collect();
     let visibility = Visibility::new(&struct_tokens.vis);
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 609b572..8fe1ce1 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -8,12 +8,14 @@ use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
+use crate::parsing::common::generics::check_no_generics;
 use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::visibility::Visibility;
 
 /// Parses an enum annotated with `#[bitflag(..)]` into a [`Bitflag`].
 pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<Bitflag> {
     let enum_tokens = parse_enum_tokens(&input)?;
+    check_no_generics(&enum_tokens.generics)?;
     let user_attributes_tokens =
         enum_tokens.attrs.iter().map(quote::ToTokens::into_token_stream).collect();
     let visibility = Visibility::new(&enum_tokens.vis);
diff --git a/bitfields_impl/src/parsing/common/generics.rs b/bitfields_impl/src/parsing/common/generics.rs
new file mode 100644
index 0000000..860aa20
--- /dev/null
+++ b/bitfields_impl/src/parsing/common/generics.rs
@@ -0,0 +1,24 @@
+use syn::Generics;
+use syn::spanned::Spanned;
+
+use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
+
+/// Ensure an item has no generics, they aren't carried over to the generated
+/// code.
+pub fn check_no_generics(generics: &Generics) -> syn::Result<()> {
+    if !generics.params.is_empty() {
+        return Err(create_user_parsing_compiler_error(
+            generics.span(),
+            "Generics are not supported.".to_string(),
+        ));
+    }
+
+    if let Some(where_clause) = &generics.where_clause {
+        return Err(create_user_parsing_compiler_error(
+            where_clause.span(),
+            "Where clauses are not supported.".to_string(),
+        ));
+    }
+
+    Ok(())
+}
diff --git a/bitfields_impl/src/parsing/common/mod.rs b/bitfields_impl/src/parsing/common/mod.rs
index a2ff10c..972abd8 100644
--- a/bitfields_impl/src/parsing/common/mod.rs
+++ b/bitfields_impl/src/parsing/common/mod.rs
@@ -2,6 +2,7 @@ pub mod attribute_argument_parser;
 pub mod compiler_error;
 pub mod const_expr;
 pub mod conversion_endian;
+pub mod generics;
 pub mod spanned_data_type;
 pub mod spanned_token;
 pub mod to_tokens;
-- 
2.43.0


From 04ca2196b69afbf39f5fe5fbbfd08c1b16e724e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 35/49] fix: reject fields with more than one bits attribute,
 all but the first were dropped

---
 .../src/parsing/bitfields/bitfield_parser.rs        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 0f34594..6ae8081 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -175,12 +175,19 @@ fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
 
 /// Returns the bits attribute if the field is attributed.
 fn get_bits_attribute(field_tokens: &syn::Field) -> syn::Result<Option<BitsAttribute>> {
-    let bits_attribute = field_tokens
+    let mut bits_attributes = field_tokens
         .attrs
         .iter()
-        .find(|attr| attr.path().is_ident("bits") && attr.style == syn::AttrStyle::Outer);
+        .filter(|attr| attr.path().is_ident("bits") && attr.style == syn::AttrStyle::Outer);
 
-    let Some(attr) = bits_attribute else { return Ok(None) };
+    let Some(attr) = bits_attributes.next() else { return Ok(None) };
+
+    if let Some(duplicate_attr) = bits_attributes.next() {
+        return Err(create_user_parsing_compiler_error(
+            duplicate_attr.span(),
+            "A field can only have one '#[bits]' attribute.",
+        ));
+    }
 
     let Meta::List(bits_attribute_tokens) = &attr.meta else {
         return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From 5c02b6d655b401d4ddab37c7453e1764f5f19e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 36/49] fix: report unsupported bool bitfields and bool or
 array bitflags on the attribute

---
 .../bitfield_attribute/bitfield_attribute_parser.rs        | 6 ++++--
 .../src/parsing/bitflags/bitflag_attribute_parser.rs       | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs
index 1cda9ce..07b7ff9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs
@@ -6,7 +6,7 @@ use syn::parse::{Parse, ParseStream};
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
-use crate::parsing::common::spanned_data_type::{DataType, SpannedDataTypeToken};
+use crate::parsing::common::spanned_data_type::{DataType, IntegerType, SpannedDataTypeToken};
 use crate::parsing::common::type_parse_error::TypeParsingError;
 
 /// Represents the `#[bitfield]` attribute.
@@ -101,7 +101,9 @@ impl BitfieldAttribute {
         spanned_data_type_token: &SpannedDataTypeToken,
     ) -> syn::Result<()> {
         let data_type = spanned_data_type_token.data_type();
-        if matches!(data_type, DataType::Custom) || !data_type.unsigned() {
+        if matches!(data_type, DataType::Custom | DataType::Integer(IntegerType::Bool))
+            || !data_type.unsigned()
+        {
             return Err(Self::create_unsupported_type_compiler_error(
                 &spanned_data_type_token.to_string(),
                 spanned_data_type_token.span(),
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_attribute_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_attribute_parser.rs
index ed5d3f2..849c3da 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_attribute_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_attribute_parser.rs
@@ -6,7 +6,7 @@ use syn::parse::{Parse, ParseStream};
 
 use crate::parsing::bitflags::bitflag_arguments::BitflagArguments;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
-use crate::parsing::common::spanned_data_type::{DataType, SpannedDataTypeToken};
+use crate::parsing::common::spanned_data_type::{DataType, IntegerType, SpannedDataTypeToken};
 use crate::parsing::common::type_parse_error::TypeParsingError;
 
 /// Represents the `#[bitflag]` attribute.
@@ -79,7 +79,10 @@ impl BitflagAttribute {
         spanned_data_type_token: &SpannedDataTypeToken,
     ) -> syn::Result<()> {
         let data_type = spanned_data_type_token.data_type();
-        if matches!(data_type, DataType::Custom) || !data_type.unsigned() {
+        if !matches!(data_type, DataType::Integer(..))
+            || matches!(data_type, DataType::Integer(IntegerType::Bool))
+            || !data_type.unsigned()
+        {
             return Err(Self::create_unsupported_type_compiler_error(
                 &spanned_data_type_token.to_string(),
                 spanned_data_type_token.span(),
-- 
2.43.0


From 9185d690256671eb80843108be6462b1a6a51edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 37/49] fix: accept types that are passed through a declarative
 macro

---
 bitfields_impl/src/parsing/common/spanned_data_type.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 9e32445..6e9c709 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -113,6 +113,8 @@ impl SpannedDataTypeToken {
                     length,
                 })
             },
+            // A type that was passed through a declarative macro.
+            Type::Group(type_group) => Self::get_data_type(&type_group.elem),
             _ => Err(TypeParsingError::Unexpected(format!("Unsupported type: {syn_type:?}"))),
         }
     }
-- 
2.43.0


From 5e890e5e0b49083c0d674118873ac711aadd1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:04 +0000
Subject: [PATCH 38/49] fix: check the range of long negative literals, their
 tokens are printed on two lines

---
 bitfields_impl/src/parsing/common/const_expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index b1ca091..60cbe69 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -59,8 +59,11 @@ impl IntegerPrefix {
 
 impl ConstExpr {
     pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
-        let trimmed_number_str =
-            spanned_token.token().trim().replace([' ', '_'], "").to_ascii_lowercase();
+        // Long tokens can be printed on several lines.
+        let trimmed_number_str = spanned_token
+            .token()
+            .replace(|c: char| c.is_whitespace() || c == '_', "")
+            .to_ascii_lowercase();
 
         // An identifier can start with underscores followed by digits.
         if spanned_token.token().trim().starts_with('_') {
-- 
2.43.0


From 50dc13fc3a475028c480ffb0037af7d7a9418dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:55 +0000
Subject: [PATCH 39/49] fix: don't crash on default and variant values that
 contain $crate

---
 .../src/parsing/bitflags/bitflag_parser.rs    |  4 +-
 .../common/attribute_argument_parser.rs       |  3 +-
 .../src/parsing/common/const_expr.rs          | 17 ++-------
 .../src/parsing/common/spanned_token.rs       | 38 ++++++++++++++++++-
 4 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 8fe1ce1..7cbaa57 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -75,9 +75,7 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
 
     let value = match variant.discriminant.clone() {
         Some((_, expr)) => {
-            let token = quote!(#expr).to_string();
-            let span = expr.span();
-            let spanned_token = SpannedToken::new(token, span);
+            let spanned_token = SpannedToken::from_expr_tokens(quote!(#expr), expr.span());
             ConstExpr::new(&spanned_token)?
         },
         None => {
diff --git a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
index 9db6421..abd96b7 100644
--- a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
+++ b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
@@ -98,11 +98,10 @@ pub fn parse_attribute_arguments(
         };
 
         let value_span = expr.span();
-        let value = quote!(#expr).to_string();
 
         arguments.push(AttributeArgument::new(
             SpannedToken::new(key.to_string(), key.span()),
-            SpannedToken::new(value, value_span),
+            SpannedToken::from_expr_tokens(quote!(#expr), value_span),
         ));
     }
 
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 60cbe69..d8632d5 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,6 +1,5 @@
 use proc_macro2::{Span, TokenStream};
-use quote::quote;
-use syn::{Expr, LitFloat};
+use syn::LitFloat;
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -234,18 +233,10 @@ impl ToTokens for ConstExpr {
         match self {
             Self::Literal {
                 spanned_token, ..
-            } => {
-                let expr: Expr = syn::parse_str(&spanned_token.token())
-                    .expect("Failed to parse previously accepted literal expression");
-                quote! { #expr }
-            },
-            Self::Path {
+            }
+            | Self::Path {
                 spanned_token,
-            } => {
-                let expr: Expr = syn::parse_str(&spanned_token.token())
-                    .expect("Failed to parse previously accepted path expression");
-                quote! { #expr }
-            },
+            } => spanned_token.expr_tokens().expect("Expected the tokens of an expression"),
         }
     }
 }
diff --git a/bitfields_impl/src/parsing/common/spanned_token.rs b/bitfields_impl/src/parsing/common/spanned_token.rs
index fd2077c..394f74f 100644
--- a/bitfields_impl/src/parsing/common/spanned_token.rs
+++ b/bitfields_impl/src/parsing/common/spanned_token.rs
@@ -1,5 +1,5 @@
 use getset::{CloneGetters, Getters};
-use proc_macro2::Span;
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
 
 /// Represents a token and its span for error reporting.
 #[derive(Clone, Debug, Getters, CloneGetters)]
@@ -7,6 +7,9 @@ use proc_macro2::Span;
 pub struct SpannedToken {
     token: String,
     span: Span,
+
+    /// The original tokens of the token, if it stands for an expression.
+    expr_tokens: Option<TokenStream>,
 }
 
 impl SpannedToken {
@@ -15,6 +18,39 @@ impl SpannedToken {
         Self {
             token,
             span,
+            expr_tokens: None,
+        }
+    }
+
+    /// Creates a new [`SpannedToken`] instance from the tokens of an
+    /// expression, which can't always be restored from its string.
+    pub fn from_expr_tokens(expr_tokens: TokenStream, span: Span) -> Self {
+        Self {
+            token: expr_tokens.to_string(),
+            span,
+            expr_tokens: Some(locate_at_call_site(expr_tokens)),
         }
     }
 }
+
+/// Moves tokens to the call site of the attribute. Only `$crate` depends on
+/// where it was written, so it's merely reported there.
+fn locate_at_call_site(tokens: TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .map(|token_tree| match token_tree {
+            TokenTree::Group(group) => TokenTree::Group(Group::new(
+                group.delimiter(),
+                locate_at_call_site(group.stream()),
+            )),
+            TokenTree::Ident(mut ident) if ident == "$crate" => {
+                ident.set_span(ident.span().located_at(Span::call_site()));
+                TokenTree::Ident(ident)
+            },
+            mut token_tree => {
+                token_tree.set_span(Span::call_site());
+                token_tree
+            },
+        })
+        .collect()
+}
-- 
2.43.0


From bf1639a37e0f8d5a17506fe864e9cc4ef290bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 40/49] fix: name the sign bit in the documentation of signed
 getters

It named the lowest bit of the field, and the closing backtick was missing.
---
 .../src/generating/bitfield/features/field_getters_feature.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 0edd96c..661d91d 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -144,7 +144,7 @@ impl FieldGettersFeature {
             format!(
                 "Returns sign-extended {units} \
                  `{documentation_bits_start}..={documentation_bits_end}`, from the sign-{unit} \
-                 `{offset}."
+                 `{bits_end}`."
             )
         }
     }
-- 
2.43.0


From 256ddd8126087a793e57a72e974d43ecd11652c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:27 +0000
Subject: [PATCH 41/49] fix: document array fields in bits, the unit of their
 numbers

"Returns bytes `32..=63`" was said of bytes 4 to 7, and the number of
bits a field occupies was called its number of bytes.
---
 .../features/clear_bit_ops_feature.rs         |  8 +++-----
 .../features/common/generator_helper.rs       | 20 ++++---------------
 .../features/field_constants_feature.rs       |  6 ++----
 .../features/field_getters_feature.rs         | 13 ++++++------
 .../features/invert_bit_ops_feature.rs        |  7 +++----
 5 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs
index d5c23e7..e544f7e 100644
--- a/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs
@@ -4,8 +4,7 @@ use quote::{ToTokens as QuoteTokens, format_ident, quote};
 use crate::generating::bitfield::feature::{Feature, FeaturePosition, is_bit_ops_feature_enabled};
 use crate::generating::bitfield::features::common::generator_helper::{
     generate_new_function_implementation_tokens, generate_setting_field_to_default_tokens,
-    generate_setting_field_to_zero_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_setting_field_to_zero_tokens, get_bits_or_bytes_term, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -128,10 +127,9 @@ impl ClearBitOpsFeature {
     /// Returns clear field documentation.
     fn get_clear_field_documentation(bitfield: &Bitfield, field: &Field) -> String {
         let offset = field.offset();
-        let (unit, units) = get_field_unit_terms(field);
 
         if field.bits() == 1 {
-            return format!("Clears {unit} `{offset}`.");
+            return format!("Clears bit `{offset}`.");
         }
 
         let bits_end = offset + field.bits() - 1;
@@ -143,6 +141,6 @@ impl ClearBitOpsFeature {
                 (offset, bits_end)
             };
 
-        format!("Clears {units} `{documentation_bits_start}..={documentation_bits_end}`.")
+        format!("Clears bits `{documentation_bits_start}..={documentation_bits_end}`.")
     }
 }
diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index eb50792..9009094 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -887,17 +887,6 @@ fn get_bitfield_reference_tokens(bitfield: &Bitfield, builder_caller: bool) -> T
     }
 }
 
-/// Returns `("bit", "bits")` for integer/custom fields and `("byte", "bytes")`
-/// for array fields.
-pub fn get_field_unit_terms(field: &Field) -> (&'static str, &'static str) {
-    match field.spanned_data_type_token().data_type() {
-        DataType::Array {
-            ..
-        } => ("byte", "bytes"),
-        _ => ("bit", "bits"),
-    }
-}
-
 /// Returns the setter documentation for a field.
 pub fn get_setter_documentation(
     bitfield: &Bitfield,
@@ -907,7 +896,6 @@ pub fn get_setter_documentation(
 ) -> String {
     let offset = field.offset();
     let builder_caller_prefix = if builder_caller { "builder" } else { "" };
-    let (unit, units) = get_field_unit_terms(field);
 
     if field.bits() == 1 {
         let suffix = if checked_setter
@@ -915,11 +903,11 @@ pub fn get_setter_documentation(
                 field.spanned_data_type_token().data_type(),
                 DataType::Integer(IntegerType::Bool)
             ) {
-            format!(". Returns an error if the value is too big to fit within the field {unit}")
+            String::from(". Returns an error if the value is too big to fit within the field bit")
         } else {
             String::new()
         };
-        return format!("Sets {builder_caller_prefix} {unit} `{offset}`{suffix}.");
+        return format!("Sets {builder_caller_prefix} bit `{offset}`{suffix}.");
     }
 
     let bits_end = offset + field.bits() - 1;
@@ -932,12 +920,12 @@ pub fn get_setter_documentation(
         };
 
     let suffix = if checked_setter {
-        format!(". Returns an error if the value is too big to fit within the field {units}")
+        String::from(". Returns an error if the value is too big to fit within the field bits")
     } else {
         String::new()
     };
     format!(
-        "Sets {builder_caller_prefix} {units} \
+        "Sets {builder_caller_prefix} bits \
          `{documentation_bits_start}..={documentation_bits_end}`{suffix}."
     )
 }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_constants_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_constants_feature.rs
index 89a000e..712768b 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_constants_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_constants_feature.rs
@@ -2,7 +2,6 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
-use crate::generating::bitfield::features::common::generator_helper::get_field_unit_terms;
 use crate::parsing::bitfields::bitfield::Bitfield;
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -53,11 +52,10 @@ impl FieldConstantsFeature {
                 let field_bits_constant_ident_tokens = field.bits_constant_ident_tokens();
                 let field_offset_constant_ident_tokens = field.offset_constant_ident_tokens();
 
-                let (unit, units) = get_field_unit_terms(field);
                 let bits_documentation =
-                    format!("The number of {units} `{}` occupies in the bitfield.", field.name());
+                    format!("The number of bits `{}` occupies in the bitfield.", field.name());
                 let offset_documentation =
-                    format!("The {unit} offset of `{}` in the bitfield.", field.name());
+                    format!("The bit offset of `{}` in the bitfield.", field.name());
                 quote! {
                     #[doc = #bits_documentation]
                     #visibility_tokens const #field_bits_constant_ident_tokens: u32 = #field_bits;
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 661d91d..c3e1f8f 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -4,7 +4,7 @@ use quote::quote;
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_sign_extend_bit_operation_tokens, get_field_unit_terms, get_function_modifier_tokens,
+    generate_sign_extend_bit_operation_tokens, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -119,13 +119,12 @@ impl FieldGettersFeature {
     /// Returns field getter documentation.
     fn get_getter_documentation(bitfield: &Bitfield, field: &Field) -> String {
         let offset = field.offset();
-        let (unit, units) = get_field_unit_terms(field);
 
         if field.bits() == 1 {
             return if field.spanned_data_type_token().data_type().unsigned() {
-                format!("Returns {unit} `{offset}`.")
+                format!("Returns bit `{offset}`.")
             } else {
-                format!("Returns sign-extended {unit} `{offset}`.")
+                format!("Returns sign-extended bit `{offset}`.")
             };
         }
 
@@ -139,11 +138,11 @@ impl FieldGettersFeature {
             };
 
         if field.spanned_data_type_token().data_type().unsigned() {
-            format!("Returns {units} `{documentation_bits_start}..={documentation_bits_end}`.")
+            format!("Returns bits `{documentation_bits_start}..={documentation_bits_end}`.")
         } else {
             format!(
-                "Returns sign-extended {units} \
-                 `{documentation_bits_start}..={documentation_bits_end}`, from the sign-{unit} \
+                "Returns sign-extended bits \
+                 `{documentation_bits_start}..={documentation_bits_end}`, from the sign-bit \
                  `{bits_end}`."
             )
         }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 9e8f29b..8988c12 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -7,7 +7,7 @@ use crate::generating::bitfield::features::common::generator_helper::{
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
     generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
-    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
+    get_bits_or_bytes_term, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -224,10 +224,9 @@ impl InvertBitOpsFeature {
     /// Returns invert field documentation.
     fn get_invert_field_documentation(bitfield: &Bitfield, field: &Field) -> String {
         let offset = field.offset();
-        let (unit, units) = get_field_unit_terms(field);
 
         if field.bits() == 1 {
-            return format!("Inverts {unit} `{offset}`.");
+            return format!("Inverts bit `{offset}`.");
         }
 
         let bits_end = offset + field.bits() - 1;
@@ -239,6 +238,6 @@ impl InvertBitOpsFeature {
                 (offset, bits_end)
             };
 
-        format!("Inverts {units} `{documentation_bits_start}..={documentation_bits_end}`.")
+        format!("Inverts bits `{documentation_bits_start}..={documentation_bits_end}`.")
     }
 }
-- 
2.43.0


From a0357508aeb6dabfbefec68cccf082c2e88ab561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 42/49] fix: generate constant functions with beta and
 development compilers, too

Functions were constant with stable compilers since 1.83 and with nightly ones
only, so that a beta compiler of any version made them ordinary functions.
---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 9009094..1f63176 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -24,7 +24,7 @@ pub fn get_function_modifier_tokens(bitfield: &Bitfield) -> Option<TokenStream>
 
 /// Returns if the rust version supports const mut references.
 const fn supports_const_mut_refs() -> bool {
-    rustversion::cfg!(any(all(stable, since(1.83)), all(nightly, since(1.41))))
+    rustversion::cfg!(any(since(1.83), all(nightly, since(1.41))))
 }
 
 /// Generates bitfield struct initialization tokens.
-- 
2.43.0


From 6207589a6e27695bb54082f3085a93a5e25c159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 43/49] fix: bitflag variants with a constant expression as
 their value

`from_bits` used the expression as a pattern, so `1 | 2` matched 1 and 2
instead of 3, and `1 << 3` or a const function did not compile.
---
 .../generating/bitflag/bitflag_generator.rs   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index fe95e09..6f2a193 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::quote;
+use syn::Expr;
 
 use crate::generating::common::endian_conversion::generate_bits_variable_endian_conversion_tokens;
 use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
@@ -80,7 +81,18 @@ fn generate_from_bits_tokens(bitflag: &Bitflag) -> TokenStream {
     }
 }
 
+/// Returns if the value of a variant means the same as a pattern.
+fn is_pattern(const_expr: &TokenStream) -> bool {
+    let mut parsed_expr = syn::parse2::<Expr>(const_expr.clone());
+    while let Ok(Expr::Group(group)) = parsed_expr {
+        parsed_expr = Ok(*group.expr);
+    }
+
+    matches!(parsed_expr, Ok(Expr::Lit(_) | Expr::Path(_)))
+}
+
 fn generate_match_cases_tokens_list(bitflag: &Bitflag) -> Vec<TokenStream> {
+    let bitflag_data_type_tokens = bitflag.spanned_data_type_token().to_tokens();
     let mut match_cases: Vec<TokenStream> = bitflag
         .variants()
         .iter()
@@ -88,8 +100,16 @@ fn generate_match_cases_tokens_list(bitflag: &Bitflag) -> Vec<TokenStream> {
         .map(|variant| {
             let const_expr = variant.value().to_tokens();
             let name_tokens = variant.name_tokens();
-            quote! {
-                #const_expr => Self::#name_tokens
+            if is_pattern(&const_expr) {
+                quote! {
+                    #const_expr => Self::#name_tokens
+                }
+            } else {
+                // Other expressions aren't patterns or mean something else in one
+                // (e.g. `1 | 2`), so the bits are compared with the variant.
+                quote! {
+                    _ if bits == Self::#name_tokens as #bitflag_data_type_tokens => Self::#name_tokens
+                }
             }
         })
         .collect();
-- 
2.43.0


From adcc7c5d8f8d6e902be714e846e0565798db5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 44/49] fix: fields of generic types and of types named through
 a trait

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 ++--
 .../src/generating/bitfield/features/field_getters_feature.rs | 2 +-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 1f63176..f292424 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -184,7 +184,7 @@ pub fn generate_setting_field_to_zero_tokens(bitfield: &Bitfield, field: &Field)
         },
         DataType::Custom => {
             let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            quote! { #custom_field_data_type_tokens::from_bits(0) }
+            quote! { <#custom_field_data_type_tokens>::from_bits(0) }
         },
         DataType::Array {
             length,
@@ -340,7 +340,7 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     match field.spanned_data_type_token().data_type() {
         DataType::Custom => {
             quote! {
-                #custom_field_data_type_tokens::from_bits(value as _)
+                <#custom_field_data_type_tokens>::from_bits(value as _)
             }
         },
         DataType::Integer(IntegerType::Bool) => {
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index c3e1f8f..23732e1 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -87,7 +87,7 @@ impl FieldGettersFeature {
             DataType::Custom => {
                 let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Array {
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 8988c12..88d71c6 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -186,7 +186,7 @@ impl InvertBitOpsFeature {
         match field.spanned_data_type_token().data_type() {
             DataType::Custom => {
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Integer(IntegerType::Bool) => {
-- 
2.43.0


From 03e9c1a7197fe88e672cf7faee0141a56ac76ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 45/49] fix: default expressions of fields without a setter
 keep their precedence

---
 .../bitfield/features/common/generator_helper.rs          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index f292424..7b4fc13 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -735,10 +735,10 @@ fn generate_setting_field_without_setter_tokens(
 
         let val_to_set_tokens = match field.spanned_data_type_token().data_type() {
             DataType::Integer(IntegerType::Bool) => quote! {
-                if #value_tokens { 1u128 } else { 0u128 }
+                if (#value_tokens) { 1u128 } else { 0u128 }
             },
             DataType::Custom => quote! {
-                #value_tokens.into_bits() as u128
+                (#value_tokens).into_bits() as u128
             },
             _ => {
                 let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
@@ -770,7 +770,7 @@ fn generate_setting_field_without_setter_tokens(
 
     if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(IntegerType::Bool)) {
         return quote! {
-            if #value_tokens {
+            if (#value_tokens) {
                 #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(1 << #field_offset_tokens)) | (1 << #field_offset_tokens);
             } else {
                 #bitfield_internal_value_ident_tokens &= !(1 << #field_offset_tokens);
@@ -782,7 +782,7 @@ fn generate_setting_field_without_setter_tokens(
         return quote! {
             let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
             #[allow(clippy::unnecessary_cast)]
-            let field_bits = #value_tokens.into_bits() as #bitfield_data_type_tokens;
+            let field_bits = (#value_tokens).into_bits() as #bitfield_data_type_tokens;
             #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << #field_offset_tokens)) | ((field_bits & mask) << #field_offset_tokens);
         };
     }
-- 
2.43.0


From c8f0009600a862a475ceefb5ccef0ab32749029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 46/49] fix: expressions with method calls on literals aren't
 floats

---
 .../src/parsing/common/const_expr.rs          | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index d8632d5..901f2b4 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,12 +1,11 @@
-use proc_macro2::{Span, TokenStream};
-use syn::LitFloat;
+use proc_macro2::{Span, TokenStream, TokenTree};
+use syn::Lit;
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::to_tokens::ToTokens;
 
 const FLOAT_IDENTIFIERS: [&str; 2] = ["f32", "f64"];
-const FLOAT_DOT: &str = ".";
 
 const INTEGER_IDENTIFIERS: [&str; 12] =
     ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
@@ -69,7 +68,7 @@ impl ConstExpr {
             return Ok(Self::parse_path(spanned_token));
         }
 
-        Self::check_float(&trimmed_number_str, spanned_token.span())?;
+        Self::check_float(&trimmed_number_str, spanned_token)?;
 
         if Self::is_boolean(&trimmed_number_str) {
             return Ok(Self::parse_boolean(&trimmed_number_str, spanned_token));
@@ -84,27 +83,39 @@ impl ConstExpr {
         Ok(Self::parse_path(spanned_token))
     }
 
-    fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
+    fn check_float(number_str: &str, spanned_token: &SpannedToken) -> syn::Result<()> {
         let unsigned_number_str = Self::strip_negative_sign(number_str);
         // Only a numeric literal can be a float, anything else is a const
         // variable or const function.
         let is_numeric_literal = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
 
-        if is_numeric_literal && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
-            let contains_float_identifier =
-                FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
-            let is_float_literal = syn::parse_str::<LitFloat>(&unsigned_number_str).is_ok();
-            if number_str.contains(FLOAT_DOT) || contains_float_identifier || is_float_literal {
-                return Err(create_user_parsing_compiler_error(
-                    span,
-                    "Float are not supported.".to_string(),
-                ));
-            }
+        if is_numeric_literal
+            && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix())
+            && Self::contains_float(spanned_token.expr_tokens().unwrap_or_default())
+        {
+            return Err(create_user_parsing_compiler_error(
+                spanned_token.span(),
+                "Float are not supported.".to_string(),
+            ));
         }
 
         Ok(())
     }
 
+    /// Returns if any token of an expression is a float literal or a float type,
+    /// a dot can be the one of a method call, too (e.g. `2u8.pow(3)`).
+    fn contains_float(expr_tokens: TokenStream) -> bool {
+        expr_tokens.into_iter().any(|token_tree| match token_tree {
+            TokenTree::Group(group) => Self::contains_float(group.stream()),
+            TokenTree::Ident(ident) => FLOAT_IDENTIFIERS.iter().any(|&float| ident == float),
+            TokenTree::Literal(literal) => match Lit::new(literal) {
+                Lit::Int(lit_int) => FLOAT_IDENTIFIERS.contains(&lit_int.suffix()),
+                lit => matches!(lit, Lit::Float(_)),
+            },
+            TokenTree::Punct(_) => false,
+        })
+    }
+
     fn is_boolean(number_str: &str) -> bool {
         BOOLEAN_IDENTIFIERS.contains(&number_str)
     }
-- 
2.43.0


From 3256646a428be4e7d39cd13d6726a7333652bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 47/49] fix: default expressions of literals have the type of
 the field

---
 .../features/common/generator_helper.rs       | 28 ++++++++-
 .../src/parsing/common/const_expr.rs          | 59 ++++++++++++++++++-
 2 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 7b4fc13..9fee038 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -130,12 +130,20 @@ pub fn generate_setting_fields_to_default_value_tokens_list(
 
 /// Generates tokens for setting a field to default.
 pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
-    let field_default_value_tokens = field
+    let default_value_expr = field
         .arguments()
         .expect("Expected field arguments when setting default value")
         .default_value_expr()
-        .expect("Expected default value when setting field defaults")
-        .to_tokens();
+        .expect("Expected default value when setting field defaults");
+    let field_default_value_tokens = match get_default_value_integer_type_tokens(bitfield, field) {
+        Some(integer_type_tokens) if default_value_expr.is_untyped_integer() => {
+            // The integers of an expression are `i32`s unless something else
+            // gives them a type, a cast of the expression doesn't.
+            let default_value_tokens = default_value_expr.to_tokens();
+            quote! { { let value: #integer_type_tokens = #default_value_tokens; value } }
+        },
+        _ => default_value_expr.to_tokens(),
+    };
 
     if field.has_setter() {
         return generate_field_setter_call_tokens(
@@ -154,6 +162,20 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
     )
 }
 
+/// Returns the type an integer default value of the field is cast to, if any.
+fn get_default_value_integer_type_tokens(
+    bitfield: &Bitfield,
+    field: &Field,
+) -> Option<TokenStream> {
+    match field.spanned_data_type_token().data_type() {
+        DataType::Integer(IntegerType::Bool) | DataType::Custom => None,
+        DataType::Integer(_) => Some(field.spanned_data_type_token().to_tokens()),
+        DataType::Array {
+            ..
+        } => (bitfield.is_integer_backed() && field.has_setter()).then(|| quote! { u128 }),
+    }
+}
+
 /// Generates tokens for setting fields to zero list.
 ///
 /// # Example
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 901f2b4..22c6f9f 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{Span, TokenStream, TokenTree};
-use syn::Lit;
+use syn::{BinOp, Block, Expr, Lit, Stmt, UnOp};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -102,8 +102,8 @@ impl ConstExpr {
         Ok(())
     }
 
-    /// Returns if any token of an expression is a float literal or a float type,
-    /// a dot can be the one of a method call, too (e.g. `2u8.pow(3)`).
+    /// Returns if any token of an expression is a float literal or a float
+    /// type, a dot can be the one of a method call, too (e.g. `2u8.pow(3)`).
     fn contains_float(expr_tokens: TokenStream) -> bool {
         expr_tokens.into_iter().any(|token_tree| match token_tree {
             TokenTree::Group(group) => Self::contains_float(group.stream()),
@@ -227,6 +227,59 @@ impl ConstExpr {
         }
     }
 
+    /// Returns if the expression calculates an integer from literals that have
+    /// no type of their own (e.g. `1 << 40`).
+    pub fn is_untyped_integer(&self) -> bool {
+        matches!(self, Self::Path { .. })
+            && syn::parse2::<Expr>(self.to_tokens())
+                .is_ok_and(|expr| Self::is_untyped_integer_expr(&expr))
+    }
+
+    fn is_untyped_integer_expr(expr: &Expr) -> bool {
+        match expr {
+            Expr::Lit(expr_lit) => {
+                matches!(&expr_lit.lit, Lit::Int(lit_int) if lit_int.suffix().is_empty())
+            },
+            Expr::Paren(expr_paren) => Self::is_untyped_integer_expr(&expr_paren.expr),
+            Expr::Group(expr_group) => Self::is_untyped_integer_expr(&expr_group.expr),
+            Expr::Unary(expr_unary) if !matches!(expr_unary.op, UnOp::Deref(_)) => {
+                Self::is_untyped_integer_expr(&expr_unary.expr)
+            },
+            Expr::Binary(expr_binary) => match expr_binary.op {
+                // Only the shifted value has the type of the expression.
+                BinOp::Shl(_) | BinOp::Shr(_) => Self::is_untyped_integer_expr(&expr_binary.left),
+                BinOp::Add(_)
+                | BinOp::Sub(_)
+                | BinOp::Mul(_)
+                | BinOp::Div(_)
+                | BinOp::Rem(_)
+                | BinOp::BitAnd(_)
+                | BinOp::BitOr(_)
+                | BinOp::BitXor(_) => {
+                    Self::is_untyped_integer_expr(&expr_binary.left)
+                        && Self::is_untyped_integer_expr(&expr_binary.right)
+                },
+                _ => false,
+            },
+            Expr::Block(expr_block) => Self::is_untyped_integer_block(&expr_block.block),
+            Expr::If(expr_if) => {
+                Self::is_untyped_integer_block(&expr_if.then_branch)
+                    && expr_if
+                        .else_branch
+                        .as_ref()
+                        .is_some_and(|(_, expr)| Self::is_untyped_integer_expr(expr))
+            },
+            Expr::Match(expr_match) => {
+                expr_match.arms.iter().all(|arm| Self::is_untyped_integer_expr(&arm.body))
+            },
+            _ => false,
+        }
+    }
+
+    fn is_untyped_integer_block(block: &Block) -> bool {
+        matches!(block.stmts.last(), Some(Stmt::Expr(expr, None)) if Self::is_untyped_integer_expr(expr))
+    }
+
     pub fn span(&self) -> Span {
         match self {
             Self::Literal {
-- 
2.43.0


From 961aaf90a2d9ca252084c5dab34acb05851366b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 48/49] fix: bitflags of an integer type given by its path

---
 .../src/generating/bitflag/bitflag_generator.rs           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 6f2a193..79e1433 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -4,6 +4,7 @@ use syn::Expr;
 
 use crate::generating::common::endian_conversion::generate_bits_variable_endian_conversion_tokens;
 use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
+use crate::parsing::common::spanned_data_type::DataType;
 use crate::parsing::common::to_tokens::ToTokens;
 
 pub fn generate_bitflag(bitflag: &Bitflag) -> TokenStream {
@@ -32,7 +33,12 @@ pub fn generate_bitflag(bitflag: &Bitflag) -> TokenStream {
 }
 
 fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
-    let data_type_tokens = bitflag.spanned_data_type_token().to_tokens();
+    // The representation has to be the bare name of an integer type, which may be
+    // given by its path.
+    let data_type_tokens = match bitflag.spanned_data_type_token().data_type() {
+        DataType::Integer(integer_type) => integer_type.to_tokens(),
+        _ => bitflag.spanned_data_type_token().to_tokens(),
+    };
     quote! {
         #[repr(#data_type_tokens)]
     }
-- 
2.43.0


From df2a4140c14f482884709a4db6fb2312eeab0886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 49/49] fix: checked setters of custom types whose bits are of
 a signed integer type

A value whose into_bits returns a negative integer was sign-extended before
the check, so it was rejected even if the setter stores and returns it.
---
 .../features/common/generator_helper.rs       | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 9fee038..a817841 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -387,14 +387,15 @@ fn generate_bit_size_check_tokens() -> TokenStream {
 /// bitfields. Must run before `bits` is cast to the bitfield type.
 fn generate_unsigned_bit_size_check_before_cast_tokens(field: &Field) -> TokenStream {
     let max = u128::MAX >> (u128::BITS - field.bits());
-    let into_bits_tokens =
-        matches!(field.spanned_data_type_token().data_type(), DataType::Custom).then(|| {
-            quote! { .into_bits() }
-        });
+    let bits_tokens = if field.spanned_data_type_token().data_type() == DataType::Custom {
+        generate_custom_type_bits_tokens()
+    } else {
+        quote! { bits as u128 }
+    };
 
     quote! {
         #[allow(clippy::unnecessary_cast)]
-        let bits = bits #into_bits_tokens as u128;
+        let bits = #bits_tokens;
         let max = #max;
         if bits > max {
             return Err("Value is too big to fit within the field bits.");
@@ -402,6 +403,20 @@ fn generate_unsigned_bit_size_check_before_cast_tokens(field: &Field) -> TokenSt
     }
 }
 
+/// Generates the bits of a custom type, which may be of a signed integer type
+/// whose sign isn't part of the value past its own bits.
+fn generate_custom_type_bits_tokens() -> TokenStream {
+    quote! {
+        {
+            let bits = bits.into_bits();
+            let type_bits = 8 * ::core::mem::size_of_val(&bits) as u32;
+            #[allow(clippy::unnecessary_cast)]
+            let bits = bits as u128;
+            bits & (u128::MAX >> (u128::BITS - type_bits))
+        }
+    }
+}
+
 /// Generates an overflow check for array fields, the array bits past the field
 /// bits must be unset. Skipped when the field uses all of the array bits.
 fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
@@ -565,8 +580,9 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     };
                 }
                 if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
+                    let custom_type_bits_tokens = generate_custom_type_bits_tokens();
                     return quote! {
-                        let bits = bits.into_bits() as u128;
+                        let bits = #custom_type_bits_tokens;
                         let mask = if #field_bits_tokens == 128 { u128::MAX } else { (1u128 << #field_bits_tokens) - 1 };
                         let value = {
                             let val = bits & mask;
-- 
2.43.0

