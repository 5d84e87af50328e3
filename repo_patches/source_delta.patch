From 8122954f788b3b462b9d197dd4fe5e07d01888cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 01/18] fix: write layout-compatible values directly in
 constructor thunks

The C++ declaration of a Clone/Default thunk for Option<T> takes the
constructed rs_std::Option<T> as out-pointer, but the Rust side encoded the
value as a bridging buffer into it, which is larger than the object.
---
 .../generate_bindings/generate_function_thunk.rs             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..7541744 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -446,6 +446,11 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
+    // A C++ constructor passes `this`, which points to the layout-compatible type (e.g.
+    // `rs_std::Option<T>`) and not to a bridging buffer. See `generate_thunk_decl`.
+    if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        return write_directly();
+    }
     Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
-- 
2.43.0


From e750651d56004410946b544adb67892dd3c05c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 02/18] fix: move-construct values into Slot instead of
 assigning or relocating

Slot<std::array<T, N>>(std::array<T, N>&&) bitwise-copied the elements out of an
array whose owner still destroys them, so passing an array of values with drop
glue to Rust dropped every element twice; both move constructors assigned to an
uninitialised union member.
---
 support/internal/slot.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..4d95f21 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -105,7 +105,7 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
 
   // Does not destroy the contained value.
   //
@@ -145,13 +145,7 @@ class Slot<std::array<UT, S>> {
  public:
   using T = std::array<UT, S>;
   Slot() {}
-  explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
-    } else {
-      value_ = std::move(x);
-    }
-  }
+  explicit constexpr Slot(T&& x) : value_(std::move(x)) {}
   T* Get() { return &value_; }
   T AssumeInitAndTakeValue() && {
     if constexpr (requires(UT x) { UT(UnsafeRelocateTag{}, std::move(x)); }) {
@@ -163,7 +157,7 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From e5f5b2ec143a8c47a92ab529167ea0086b56fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 03/18] fix: destroy the decode buffer's object and move values
 through tuple and pair ABIs

TransmuteAbi::Decode never destroyed the moved-from object in its buffer,
TupleAbi::Encode copied its elements, and PairAbi::Decode could not be
instantiated (std::pair is not an aggregate).
---
 support/bridge.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..ba65c4c 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -12,6 +12,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstring>
+#include <memory>
 #include <optional>
 #include <tuple>
 #include <utility>
@@ -252,8 +253,12 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, and destroy the moved-from
+    // object that is left there.
+    Value* source = reinterpret_cast<Value*>(buf);
+    Value value(std::move(*source));
+    std::destroy_at(source);
+    return value;
   }
 };
 
@@ -267,7 +272,9 @@ struct TupleAbi {
         [&](auto&&... args) {
           return std::apply(
               [&](auto&&... abis) {
-                (std::move(abis).Encode(args, encoder), ...);
+                (std::move(abis).Encode(std::forward<decltype(args)>(args),
+                                        encoder),
+                 ...);
               },
               std::move(abis));
         },
@@ -297,8 +304,8 @@ struct PairAbi {
   }
   Value Decode(Decoder& decoder) && {
     return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
+        std::move(abis.first).Decode(decoder),
+        std::move(abis.second).Decode(decoder),
     };
   }
 
-- 
2.43.0


From 146aa2bccccdc339866df0bfe508f60d78a55540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 04/18] fix: DynCallable self-move and reuse after an rvalue
 call

Self-move relocated from already disposed storage, and a callable consumed by
an rvalue call still reported that it had a value, so passing it back to Rust
handed over a freed box.
---
 support/rs_std/dyn_callable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 8ae7d89..8e8871f 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -57,8 +57,9 @@ class ManagedCallable {
   }
 
   ManagedCallable& operator=(ManagedCallable&& other) {
-    // Dispose this.
+    // Dispose this. `other` may be `*this`, so forget the disposed state.
     manager_(FunctionToCall::dispose, &this->storage_, &this->storage_);
+    manager_ = EmptyManager;
 
     // Move other into this.
     other.manager_(FunctionToCall::relocate_from_to, /*from=*/&other.storage_,
@@ -133,7 +134,10 @@ inline ReturnType InvokedAfterMove(TypeErasedState*,
       }                                                                        \
     }                                                                          \
                                                                                \
-    bool HasValue() const { return invoker_ != nullptr; }                      \
+    bool HasValue() const {                                                    \
+      return invoker_ != nullptr &&                                            \
+             invoker_ != InvokedAfterMove<ReturnType, P...>;                   \
+    }                                                                          \
                                                                                \
    protected:                                                                  \
     InvokerType* invoker_ = nullptr;                                           \
-- 
2.43.0


From da2d26866eacc070caff38c62ad6f68c5eca9419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 05/18] fix: choose type specializations, symbols and crate
 renames in a stable order, not hash order

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 30 +++++++++-----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 3a4fa85..ea798a0 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -197,7 +197,9 @@ fn specializations<'tcx>(db: &crate::BindingsGenerator<'tcx>) -> Rc<[CppTypeSpec
     let mut specializations = Vec::new();
 
     let all_public_paths = db.all_public_paths_by_def_id();
-    for (adt_or_alias_def_id, paths) in all_public_paths {
+    for (adt_or_alias_def_id, paths) in
+        all_public_paths.into_iter().sorted_by_def_with(tcx, |(def_id, _)| *def_id)
+    {
         specializations.extend(
             std::iter::once(adt_or_alias_def_id)
                 .chain(
@@ -730,15 +732,12 @@ fn def_id_by_symbol(
     name: Symbol,
 ) -> Option<DefId> {
     let public_paths = db.public_paths_by_def_id(crate_num);
-    public_paths.iter().find_map(
-        |(def_id, paths)| {
-            if paths.canonical().name == name {
-                Some(*def_id)
-            } else {
-                None
-            }
-        },
-    )
+    public_paths
+        .into_iter()
+        .filter(|(_, paths)| paths.canonical().name == name)
+        .map(|(def_id, _)| def_id)
+        .sorted_by_def(db.tcx())
+        .next()
 }
 
 fn module_children(tcx: TyCtxt<'_>, parent: DefId) -> &[ModChild] {
@@ -795,12 +794,11 @@ fn symbol_unqualified_name(db: &BindingsGenerator<'_>, def_id: DefId) -> Option<
 fn renamed_crate_original_name(db: &BindingsGenerator<'_>, krate_id: CrateNum) -> Option<Rc<str>> {
     let tcx = db.tcx();
     let crate_name = tcx.crate_name(krate_id);
-    for (name, renamed) in db.crate_renames().iter() {
-        if renamed.as_ref() == crate_name.as_str() {
-            return Some(name.clone());
-        }
-    }
-    return None;
+    db.crate_renames()
+        .iter()
+        .filter(|(_, renamed)| renamed.as_ref() == crate_name.as_str())
+        .map(|(name, _)| name.clone())
+        .min()
 }
 
 /// Implementation of `BindingsGenerator::symbol_canonical_name`.
-- 
2.43.0


From a5116e454e081f749d4028f58ca8b8abfc984b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/18] fix: construct types that need drop in place, not by
 assigning over uninitialized memory

A constructor generated from Default, Clone or From for a #[repr(transparent)]
type assigned the thunk's by-value result to the object under construction. If
the type needs drop, that dropped the uninitialized old value (or did not
compile when the type is not assignable). Such thunks now write through an
out-pointer.
---
 .../generate_bindings/generate_function.rs    |  7 +++---
 .../generate_function_thunk.rs                | 25 +++++++++++++++----
 .../generate_struct_and_union.rs              |  8 +++---
 cc_bindings_from_rs/generate_bindings/lib.rs  | 19 ++++++++++----
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index e871b11..e76f516 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -13,8 +13,7 @@ use crate::generate_function_thunk::{
 use crate::{
     format_param_types_for_cc_api, format_region_as_cc_lifetime, format_ret_ty_for_cc,
     format_top_level_ns_for_crate, generate_deprecated_tag, is_bridged_type,
-    is_c_abi_compatible_by_value, liberate_and_deanonymize_late_bound_regions, BridgedType, CcType,
-    RsSnippet,
+    liberate_and_deanonymize_late_bound_regions, BridgedType, CcType, RsSnippet,
 };
 use arc_anyhow::{Context, Result};
 use code_gen_utils::{expect_format_cc_ident, make_rs_ident, CcInclude};
@@ -25,8 +24,8 @@ use error_report::{anyhow, bail};
 use itertools::Itertools;
 use proc_macro2::{Ident, Literal, TokenStream};
 use query_compiler::{
-    does_type_implement_trait, does_type_implement_trait_considering_regions, is_copy,
-    post_analysis_typing_env,
+    does_type_implement_trait, does_type_implement_trait_considering_regions,
+    is_c_abi_compatible_by_value, is_copy, post_analysis_typing_env,
 };
 use quote::quote;
 use rustc_hir::attrs::AttributeKind;
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index 7541744..97d5029 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -5,8 +5,8 @@
 use crate::generate_function::{fn_arg_idents, get_async_future_output_ty};
 use crate::{
     does_type_implement_trait, format_cc_ident, format_param_types_for_cc_thunk, is_bridged_type,
-    is_c_abi_compatible_by_value, liberate_and_deanonymize_late_bound_regions, BridgedBuiltin,
-    BridgedType, BridgedTypeConversionInfo, RsSnippet, TypeLocation,
+    liberate_and_deanonymize_late_bound_regions, BridgedBuiltin, BridgedType,
+    BridgedTypeConversionInfo, RsSnippet, TypeLocation,
 };
 use arc_anyhow::{Context, Result};
 use code_gen_utils::escape_non_identifier_chars;
@@ -18,7 +18,7 @@ use database::BindingsGenerator;
 use error_report::{anyhow, bail, ensure};
 use itertools::Itertools;
 use proc_macro2::{Ident, TokenStream};
-use query_compiler::{post_analysis_typing_env, try_normalize};
+use query_compiler::{is_c_abi_compatible_by_value, post_analysis_typing_env, try_normalize};
 use quote::format_ident;
 use quote::quote;
 #[rustversion::since(2026-04-22)]
@@ -102,6 +102,19 @@ fn array_c_abi_c_type<'tcx>(tcx: TyCtxt<'tcx>, inner_ty: Ty<'tcx>) -> Result<Tok
     }
 }
 
+/// Returns whether a thunk returns a (non-bridged) value of type `ty` by value, as opposed to writing
+/// it through an out-pointer.
+pub(crate) fn thunk_returns_by_value<'tcx>(
+    db: &BindingsGenerator<'tcx>,
+    ty: Ty<'tcx>,
+    is_constructor: bool,
+) -> bool {
+    // A constructor has to initialize `*this` in place when the type needs drop: assigning the
+    // returned value to `*this` would drop the not yet initialized old value.
+    is_c_abi_compatible_by_value(db, ty)
+        && !(is_constructor && ty.needs_drop(db.tcx(), ty::TypingEnv::fully_monomorphized()))
+}
+
 /// Formats a C++ declaration of a C-ABI-compatible-function wrapper around a Rust function.
 pub fn generate_thunk_decl<'tcx>(
     db: &BindingsGenerator<'tcx>,
@@ -206,7 +219,7 @@ pub fn generate_thunk_decl<'tcx>(
                 quote! { void }
             }
         }
-    } else if is_c_abi_compatible_by_value(db, sig_mid.output()) {
+    } else if thunk_returns_by_value(db, sig_mid.output(), is_constructor) {
         main_api_ret_type
     } else if let Some(tuple_abi) = tuple_c_abi_c_type(db, sig_mid.output()) {
         thunk_params.push(quote! { #tuple_abi __ret_ptr });
@@ -627,7 +640,9 @@ pub fn generate_thunk_impl<'tcx>(
                 ::dyn_erased_future::DynErasedFuture::new(#fully_qualified_fn_name( #( #fn_args ),* ))
             );
         };
-    } else if output_is_bridged.is_none() && is_c_abi_compatible_by_value(db, sig.output()) {
+    } else if output_is_bridged.is_none()
+        && thunk_returns_by_value(db, sig.output(), is_constructor)
+    {
         // The output is not bridged and is C ABI compatible by-value, so we can just return
         // the result directly, and no out-param is needed.
         thunk_return_type = db.format_ty_for_rs(sig.output())?;
diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 772368b..b6a23b2 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -16,7 +16,7 @@ use crate::generate_function::{
 };
 use crate::generate_function_thunk::{
     generate_thunk_decl, generate_thunk_impl, make_thunk_name, replace_all_regions_with_static,
-    trait_method_thunk_name, ThunkKind,
+    thunk_returns_by_value, trait_method_thunk_name, ThunkKind,
 };
 use crate::{
     does_type_implement_trait, generate_const, generate_deprecated_tag, generate_must_use_tag,
@@ -38,8 +38,7 @@ use error_report::{anyhow, bail, ensure};
 use itertools::Itertools;
 use proc_macro2::{Ident, Literal, TokenStream};
 use query_compiler::{
-    is_c_abi_compatible_by_value, liberate_and_deanonymize_late_bound_regions,
-    post_analysis_typing_env, try_normalize,
+    liberate_and_deanonymize_late_bound_regions, post_analysis_typing_env, try_normalize,
 };
 use quote::{format_ident, quote};
 #[rustversion::since(2026-05-18)]
@@ -881,7 +880,8 @@ fn generate_constructor_impls<'tcx>(
             )
             .ok()?;
 
-            let returns_by_value = is_c_abi_compatible_by_value(db, core.common.self_ty);
+            let returns_by_value =
+                thunk_returns_by_value(db, core.common.self_ty, /*is_constructor=*/ true);
             let impl_body_tokens = if returns_by_value {
                 quote! {
                     #statements
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index ea798a0..d765b74 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -33,7 +33,9 @@ use crate::format_type::{
     BridgedType, BridgedTypeConversionInfo,
 };
 use crate::generate_function::{generate_function, must_use_attr_of};
-use crate::generate_function_thunk::{generate_trait_thunks, TraitThunks};
+use crate::generate_function_thunk::{
+    generate_trait_thunks, thunk_returns_by_value, TraitThunks,
+};
 use crate::generate_struct_and_union::{
     adt_needs_bindings, cpp_enum_cpp_underlying_type, from_trait_impls_by_argument, generate_adt,
     generate_adt_core, into_trait_impls_by_destination, scalar_value_to_string,
@@ -57,8 +59,7 @@ use itertools::Itertools;
 use proc_macro2::{Ident, TokenStream};
 use query_compiler::{
     does_type_implement_trait, get_layout, get_scalar_int_type, get_tag_size_with_padding,
-    is_c_abi_compatible_by_value, is_copy, liberate_and_deanonymize_late_bound_regions,
-    post_analysis_typing_env, repr_attrs,
+    is_copy, liberate_and_deanonymize_late_bound_regions, post_analysis_typing_env, repr_attrs,
 };
 use quote::{format_ident, quote};
 use rustc_abi::{AddressSpace, BackendRepr, HasDataLayout, Integer, Primitive, Scalar};
@@ -1429,7 +1430,11 @@ fn generate_default_ctor<'tcx>(
             // This might be the case for `#[repr(transparent)]` types.
             // TODO: b/459482188 - This is ultimately dependent on the return ABI of the thunk and
             // should be centralized with the other callsites that depend on return type ABI.
-            let ctor_impl = if is_c_abi_compatible_by_value(db, core.common.self_ty) {
+            let ctor_impl = if thunk_returns_by_value(
+                db,
+                core.common.self_ty,
+                /*is_constructor=*/ true,
+            ) {
                 quote! {
                     inline #fully_qualified_name::#cc_struct_name() {
                        *this = __crubit_internal::#thunk_name();
@@ -1550,7 +1555,11 @@ fn copy_ctor_style_to_snippets<'tcx>(
 
                     // TODO: b/459482188 - This is ultimately dependent on the return ABI of the thunk and
                     // should be centralized with the other callsites that depend on return type ABI.
-                    let ctor_body = if is_c_abi_compatible_by_value(db, core.common.self_ty) {
+                    let ctor_body = if thunk_returns_by_value(
+                        db,
+                        core.common.self_ty,
+                        /*is_constructor=*/ true,
+                    ) {
                         quote! {
                             *this = __crubit_internal::#clone_thunk_name(other);
                         }
-- 
2.43.0


From c111cdf9159b38b34e8dafc99a9760af820ee359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 07/18] fix: give every field of a union the whole union, not
 just the last one

The bytes a union field may take up were computed from the offset of the
next field, which is 0 for all but the last one. A field of an unsupported
type before the last one was thus taken to be zero-sized and left out of the
bindings, and the size assertion of the generated union failed to compile if
that field was its largest.
---
 .../generate_struct_and_union.rs               | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index b6a23b2..7cf580a 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2251,13 +2251,17 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                     });
                 }
 
-                let next_offsets = fields
-                    .iter()
-                    .map(|Field { offset, .. }| offset)
-                    .skip(1)
-                    .copied()
-                    .chain(once(size))
-                    .collect_vec();
+                let next_offsets = match field_shape {
+                    // No field of a union follows another one: each of them may take up all of it.
+                    FieldsShape::Union { .. } => vec![size; fields.len()],
+                    _ => fields
+                        .iter()
+                        .map(|Field { offset, .. }| offset)
+                        .skip(1)
+                        .copied()
+                        .chain(once(size))
+                        .collect_vec(),
+                };
                 for (field, next_offset) in fields.iter_mut().zip(next_offsets) {
                     field.offset_of_next_field = next_offset;
                 }
-- 
2.43.0


From 157b4940af81691ea4e51d4bf419feb576cc6921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 08/18] fix: store the tag of rs_std::Option and rs_std::Result
 in native byte order

The storage of the C++ classes has Rust's layout, where the tag is in native
byte order, and std::bit_cast also gives the bytes in native order. Reversing
them on big-endian targets made C++ and Rust disagree on the tag.
---
 .../generate_template_specialization.rs       | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 6fbbad6..dfb416a 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -1122,15 +1122,6 @@ fn specialize_result<'tcx>(
     };
     let ResultVariantIndices { ok_idx, err_idx } = get_result_variant_indices(tcx, *adt);
     let tag_offset = Literal::u64_unsuffixed(layout.fields().offset(tag_field.as_usize()).bytes());
-    let endian = tcx.sess.target.options.endian;
-    let byte_index_read = match endian {
-        rustc_abi::Endian::Little => quote! { i },
-        rustc_abi::Endian::Big => quote! { sizeof(#tag_type_cc_tokens) - 1 - i },
-    };
-    let byte_index_write = match endian {
-        rustc_abi::Endian::Little => quote! { i },
-        rustc_abi::Endian::Big => quote! { sizeof(#tag_type_cc_tokens) - 1 - i },
-    };
     let tag_method = ApiSnippets {
         main_api: CcSnippet::new(quote! {
             constexpr #tag_type_cc_tokens tag() const& noexcept; __NEWLINE__
@@ -1141,7 +1132,7 @@ fn specialize_result<'tcx>(
                 inline constexpr #tag_type_cc_tokens rs_std::Result<#ok_ty_tokens, #err_ty_tokens>::tag() const& noexcept {
                     std::array<unsigned char, sizeof(#tag_type_cc_tokens)> __bytes = {};
                     for (std::size_t i = 0; i < sizeof(#tag_type_cc_tokens); ++i) {
-                        __bytes[#byte_index_read] = __storage[#tag_offset + i];
+                        __bytes[i] = __storage[#tag_offset + i];
                     }
                     return std::bit_cast<#tag_type_cc_tokens>(__bytes);
                 }
@@ -1149,7 +1140,7 @@ fn specialize_result<'tcx>(
                 inline constexpr void rs_std::Result<#ok_ty_tokens, #err_ty_tokens>::set_tag(#tag_type_cc_tokens tag) noexcept {
                     auto __bytes = std::bit_cast<std::array<unsigned char, sizeof(#tag_type_cc_tokens)>>(tag);
                     for (std::size_t i = 0; i < sizeof(#tag_type_cc_tokens); ++i) {
-                        __storage[#tag_offset + i] = __bytes[#byte_index_write];
+                        __storage[#tag_offset + i] = __bytes[i];
                     }
                 }
                 __NEWLINE__
@@ -1375,11 +1366,6 @@ fn specialize_option<'tcx>(
     prereqs.includes.insert(CcInclude::optional());
     let tag_offset = Literal::u64_unsuffixed(layout.fields().offset(tag_field.as_usize()).bytes());
 
-    let endian = tcx.sess.target.options.endian;
-    let endian_index = match endian {
-        rustc_abi::Endian::Little => quote! { i },
-        rustc_abi::Endian::Big => quote! { sizeof(#tag_type_cc) - 1 - i },
-    };
     let tag_method = ApiSnippets {
         main_api: CcSnippet::new(quote! {
             constexpr #tag_type_cc tag() const& noexcept; __NEWLINE__
@@ -1390,7 +1376,7 @@ fn specialize_option<'tcx>(
                 inline constexpr #tag_type_cc rs_std::Option<#ty_tokens>::tag() const& noexcept {
                     ::std::array<unsigned char, sizeof(#tag_type_cc)> __bytes = {};
                     for (::std::size_t i = 0; i < sizeof(#tag_type_cc); ++i) {
-                        __bytes[#endian_index] = storage_[#tag_offset + i];
+                        __bytes[i] = storage_[#tag_offset + i];
                     }
                     return ::std::bit_cast<#tag_type_cc>(__bytes);
                 }
@@ -1398,7 +1384,7 @@ fn specialize_option<'tcx>(
                 inline constexpr void rs_std::Option<#ty_tokens>::set_tag(#tag_type_cc tag) noexcept {
                     auto __bytes = ::std::bit_cast<::std::array<unsigned char, sizeof(#tag_type_cc)>>(tag);
                     for (::std::size_t i = 0; i < sizeof(#tag_type_cc); ++i) {
-                        storage_[#tag_offset + i] = __bytes[#endian_index];
+                        storage_[#tag_offset + i] = __bytes[i];
                     }
                 }
                 __NEWLINE__
-- 
2.43.0


From ca276b60793533377dd26d4415323847b913db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 09/18] fix: let slices of mutable elements be compared

---
 support/rs_std/slice_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 7e2b5b7..dd9d2e3 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -180,25 +180,25 @@ constexpr bool EqualImpl(SliceRef<const T> a, SliceRef<const T> b) {
 
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<const T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<const T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(const U& a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(SliceRef<T> a, const U& b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 
 template <typename T>
-- 
2.43.0


From 605b654f0e4f6fa7a9d13f00fe11b369f9b36f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 10/18] fix: ctor: drop the value when a ctor_then callback
 fails or unwinds

---
 support/ctor.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index fac28d9..5696396 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -311,11 +311,15 @@ unsafe impl<C: Ctor, F: FnOnce(Pin<&mut C::Output>) -> Result<(), C::Error>> Cto
     type Output = C::Output;
     type Error = C::Error;
     unsafe fn ctor(self, dest: *mut Self::Output) -> Result<(), Self::Error> {
+        let Self { ctor, f } = self;
         unsafe {
-            self.ctor.ctor(dest)?;
+            ctor.ctor(dest)?;
         }
-        let dest = unsafe { Pin::new_unchecked(&mut *dest) };
-        (self.f)(dest)
+        // If `f` fails or unwinds, `dest` must be left uninitialized.
+        let guard = macro_internal::UnsafeDropGuard(dest);
+        f(unsafe { Pin::new_unchecked(&mut *dest) })?;
+        core::mem::forget(guard);
+        Ok(())
     }
 }
 
@@ -1247,8 +1251,8 @@ pub mod macro_internal {
     /// Safety: this will drop the pointer, so this is only safe if no other
     /// code will access the pointer afterwards. This includes drop: the
     /// pointer must itself be in a ManuallyDrop.
-    pub struct UnsafeDropGuard<T>(*mut T);
-    impl<T> Drop for UnsafeDropGuard<T> {
+    pub struct UnsafeDropGuard<T: ?Sized>(pub(super) *mut T);
+    impl<T: ?Sized> Drop for UnsafeDropGuard<T> {
         fn drop(&mut self) {
             unsafe { core::ptr::drop_in_place(self.0) };
         }
-- 
2.43.0


From 1382ade52b24dd24e912d2b6b2e7d5746eb5a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 11/18] fix: ctor: abort when the old value's destructor
 unwinds in reconstruct

---
 support/ctor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index 5696396..3c56536 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1623,11 +1623,9 @@ macro_rules! internal_hlist {
 /// is just the in-place Ctor version of the existing method `Pin<T>::set(T)`.)
 pub unsafe fn reconstruct<T>(p: Pin<&mut T>, ctor: impl Ctor<Output = T, Error = Infallible>) {
     let raw_ptr = unsafe { Pin::into_inner_unchecked(p) } as *mut _;
-    unsafe {
+    abort_on_unwind(move || unsafe {
         core::ptr::drop_in_place(raw_ptr);
-    }
-    abort_on_unwind(move || {
-        unsafe { ctor.ctor(raw_ptr) }.unwrap();
+        ctor.ctor(raw_ptr).unwrap();
     });
 }
 
-- 
2.43.0


From 168d9bb34abdf9b594768891d0a551e9a81e52c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 12/18] fix: ctor: mark a Slot empty before dropping its value

---
 support/ctor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index 3c56536..cc8e5c6 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1111,10 +1111,11 @@ impl<T> Slot<T> {
     pub fn clear(self: Pin<&mut Self>) {
         if self.is_initialized {
             let Self { is_initialized, maybe_uninit } = unsafe { Pin::into_inner_unchecked(self) };
+            // Cleared first, so that the value isn't dropped again if its destructor unwinds.
+            *is_initialized = false;
             unsafe {
                 core::ptr::drop_in_place(maybe_uninit.as_mut_ptr());
             }
-            *is_initialized = false;
         }
     }
 
-- 
2.43.0


From f3828f384a4a4034d22e0c359d877b1baffb5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 13/18] fix: keep the bytes after a NUL in &str constants

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index d765b74..e9864fa 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -56,7 +56,7 @@ pub use database::{
 };
 use error_report::{anyhow, bail, ErrorReporting, ReportFatalError};
 use itertools::Itertools;
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use query_compiler::{
     does_type_implement_trait, get_layout, get_scalar_int_type, get_tag_size_with_padding,
     is_copy, liberate_and_deanonymize_late_bound_regions, post_analysis_typing_env, repr_attrs,
@@ -1148,7 +1148,21 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
                     }
                     if let Some(slice) = const_value.try_get_slice_bytes_for_diagnostics(tcx) {
                         let str_data = std::str::from_utf8(slice).unwrap();
-                        Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        if str_data.contains('\0') {
+                            // `StrRef(const char*)` would stop at the first NUL. The literal is
+                            // split after each NUL, so that a following digit isn't read as part
+                            // of its escape sequence.
+                            let pieces = str_data.split_inclusive('\0');
+                            let len = Literal::usize_unsuffixed(str_data.len());
+                            Some(
+                                quote! {
+                                    rs_std::StrRef(::std::string_view(#(#pieces)*, #len))
+                                }
+                                .to_string(),
+                            )
+                        } else {
+                            Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        }
                     } else { None }
                 }
                 _ => None
-- 
2.43.0


From 5c9eb135904e0b6184954cd38bab302d2acbfec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 14/18] fix: emit valid literals for whole, and none for
 non-finite, floating-point constants

---
 .../generate_struct_and_union.rs              | 23 +++++++++++++++++--
 cc_bindings_from_rs/generate_bindings/lib.rs  |  1 +
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 7cf580a..a16e25f 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -107,6 +107,18 @@ pub(crate) fn cpp_enum_cpp_underlying_type<'tcx>(
     db.format_ty_for_cc(field_type, TypeLocation::Field)
 }
 
+/// Makes the digits of a finite floating-point value usable in a C++ floating-point literal: `1`
+/// would make an integer literal, and infinities and NaNs have no literal.
+fn float_literal_digits(mut digits: String, is_finite: bool) -> Result<String> {
+    if !is_finite {
+        bail!("Non-finite floating-point constants have no C++ literal.");
+    }
+    if !digits.contains(['.', 'E']) {
+        digits.push_str(".0");
+    }
+    Ok(digits)
+}
+
 /// Returns a string representation of the value of a given numeric Scalar having a given TyKind.
 pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Result<String> {
     let scalar = match scalar {
@@ -123,6 +135,7 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         }
     }
 
+    use rustc_apfloat::Float;
     use ty::FloatTy::*;
     use ty::IntTy::*;
     use ty::TyKind;
@@ -137,8 +150,14 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Uint(U16) => format!("UINT16_C({})", scalar.to_u16()),
         TyKind::Uint(U32) => format!("UINT32_C({})", scalar.to_u32()),
         TyKind::Uint(U64) => format!("UINT64_C({})", scalar.to_u64()),
-        TyKind::Float(F32) => format!("{}f", scalar.to_f32()),
-        TyKind::Float(F64) => format!("{}L", scalar.to_f64()),
+        TyKind::Float(F32) => {
+            let value = scalar.to_f32();
+            format!("{}f", float_literal_digits(value.to_string(), value.is_finite())?)
+        }
+        TyKind::Float(F64) => {
+            let value = scalar.to_f64();
+            format!("{}L", float_literal_digits(value.to_string(), value.is_finite())?)
+        }
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
         // Signed integer minimums cannot be expressed with literals, as `-<int>` parses as a unary
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index e9864fa..ada5eb4 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -7,6 +7,7 @@
 #![feature(proc_macro_hygiene)]
 
 extern crate rustc_abi;
+extern crate rustc_apfloat;
 extern crate rustc_ast;
 extern crate rustc_attr_parsing;
 extern crate rustc_data_structures;
-- 
2.43.0


From 1b8f824f1dcf9e77fe170072c79ba06b3a7e8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 15/18] fix: emit INT64_MIN for the minimum c_longlong constant

---
 .../generate_bindings/generate_struct_and_union.rs       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index a16e25f..4035307 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -187,7 +187,14 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
                 // same for c_ulong.
                 "c_long" => format!("INT32_C({})", scalar.to_i32()),
                 "c_ulong" => format!("UINT32_C({})", scalar.to_u32()),
-                "c_longlong" => format!("INT64_C({})", scalar.to_i64()),
+                "c_longlong" => {
+                    let value = scalar.to_i64();
+                    if value == i64::MIN {
+                        "INT64_MIN".to_string()
+                    } else {
+                        format!("INT64_C({value})")
+                    }
+                }
                 "c_ulonglong" => format!("UINT64_C({})", scalar.to_u64()),
                 _ => bail!("Unsupported ffi_11 type: {:?}", kind),
             }
-- 
2.43.0


From 0e6836b8f064ff0da0356b005da71ae403d5a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:40 +0000
Subject: [PATCH 16/18] fix: private access for the stand-in of an unsupported
 field in every enum variant

---
 .../generate_bindings/generate_struct_and_union.rs             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 4035307..1ec5f04 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2817,10 +2817,11 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 }
             };
 
-            let mut current_visibility = CcFieldVisState::default();
             let tokens_per_variant: Vec<TokenStream> = variants
                 .iter()
                 .map(|variant_layout| {
+                    // Each variant's fields go into a `struct` of their own.
+                    let mut current_visibility = CcFieldVisState::default();
                     variant_layout
                         .fields
                         .iter()
-- 
2.43.0


From 034af10bb6b9c7f634a13ae69595008db03872cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 17/18] fix: include annotations_internal.h where a
 specialization names its Rust type

---
 .../generate_bindings/generate_template_specialization.rs     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index dfb416a..218a517 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -779,6 +779,7 @@ fn specialize_tuple<'tcx>(
     .collect();
 
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
     let qualified_name = cc_fully_qualified_name.to_string();
     let name = escape_non_identifier_chars(&qualified_name);
     let guard_name = format_ident!("_CRUBIT_BINDINGS_FOR_{}", name);
@@ -1048,6 +1049,7 @@ fn specialize_vec<'tcx>(
     rs_details.tokens.extend(rs_drop);
 
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
     let guard_name = format_ident!("_CRUBIT_BINDINGS_FOR_{}", name);
     let size_literal = Literal::u64_unsuffixed(layout.size().bytes());
     let align_literal = Literal::u64_unsuffixed(layout.align().abi.bytes());
@@ -1291,6 +1293,7 @@ fn specialize_result<'tcx>(
     .into_iter()
     .collect();
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
 
     let qualified_name = cc_fully_qualified_name.to_string();
     let name = escape_non_identifier_chars(&qualified_name);
@@ -1504,6 +1507,7 @@ fn specialize_option<'tcx>(
     .into_iter()
     .collect();
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
 
     let qualified_name = cc_fully_qualified_name.to_string();
     let name = escape_non_identifier_chars(&qualified_name);
-- 
2.43.0


From 679b92c8e6eda5768bc8b3c15177892979b47b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:41 +0000
Subject: [PATCH 18/18] fix: include the standard headers of the names used in
 function bodies and comparisons

---
 cc_bindings_from_rs/generate_bindings/generate_function.rs     | 3 +++
 .../generate_bindings/generate_struct_and_union.rs             | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index e76f516..35dc006 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -344,6 +344,8 @@ fn cc_return_value_from_c_abi<'tcx>(
                     let union_type =
                         expect_format_cc_ident(&format!("__{ident}_crubit_return_union"));
                     let local_name = expect_format_cc_ident(&format!("__{ident}_ret_val_holder"));
+                    prereqs.includes.insert(CcInclude::memory()); // for `std::destroy_at`
+                    prereqs.includes.insert(CcInclude::utility()); // for `std::move`
                     storage_statements.extend(quote! {
                         union #union_type {
                             constexpr #union_type() {}
@@ -647,6 +649,7 @@ pub(crate) fn generate_thunk_call<'tcx>(
         .map(|(i, Param { cc_name, ty, .. })| {
             if i == 0 && self_param.is_inherent_self_method() {
                 if self_param.takes_self_by_copy() {
+                    prereqs.includes.insert(CcInclude::type_traits());
                     // Self-by-copy methods are `const` qualified. The Rust thunk does not
                     // accept a const pointer, but we can just const_cast since underlying C++
                     // object is not modified: Rust copies the object before passing it into
diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 1ec5f04..76e96ef 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1208,6 +1208,7 @@ fn generate_ord_impls<'tcx>(
 
     let mut cc_details_prereqs = CcPrerequisites::default();
     cc_details_prereqs.includes.insert(CcInclude::compare());
+    cc_details_prereqs.includes.insert(CcInclude::cstdint());
 
     let ref_self_ty = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, core.common.self_ty);
     let ref_self_cc_ty = db.format_ty_for_cc(
@@ -1307,6 +1308,7 @@ fn generate_partial_ord_impls<'tcx>(
 
     let mut cc_details_prereqs = CcPrerequisites::default();
     let rhs_cc_tokens_for_impl = rhs_cc_ty_for_impl.into_tokens(&mut cc_details_prereqs);
+    cc_details_prereqs.includes.insert(CcInclude::cstdint());
 
     let ref_self_ty = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, core.common.self_ty);
     let ref_self_cc_ty = db.format_ty_for_cc(
-- 
2.43.0

