//# externs: forward_declare cref
#![allow(unused, dead_code, incomplete_features)]
#![feature(unsized_const_params, adt_const_params)]
use forward_declare::*;
use std::pin::Pin;
pub struct DA; pub struct DB;
pub type SymA = symbol!("A");
pub type SymB = symbol!("B");
pub type IncA1 = Incomplete<SymA, DA>;
pub type IncA2 = Incomplete<SymA, DB>;
pub type IncB = Incomplete<SymB, DA>;
pub struct A(i32);
unsafe_define!(SymA, A);
pub struct B(i32);
unsafe_define!(SymB, B);
pub struct PA(i32, std::marker::PhantomPinned);
unsafe_define!(SymA, PA);
pub struct NotCpp(i32);
//% same_name | | forward declarations and definitions of one C++ type cast to each other
pub fn f<'a>(a: &'a A) -> &'a IncA2 { let x: &'a IncA1 = a.cpp_cast(); x.cpp_cast() }
pub fn g<'a>(a: Pin<&'a mut IncA1>) -> Pin<&'a mut A> { a.cpp_cast() }
pub fn h<'a>(a: &'a IncA1) -> &'a A { a.cpp_cast() }
pub fn i<'a>(a: Vec<&'a IncA1>) -> Vec<&'a A> { a.cpp_cast() }
pub fn j<'a>(a: *mut IncA1) -> *mut A { a.cpp_cast() }
pub fn k<'a>(a: &'a mut A) -> Pin<&'a mut IncA1> { a.cpp_cast() }
//% ref_other_name | E0271 E0277 | & casts only between the same C++ type
pub fn f<'a>(a: &'a IncA1) {
    let _: &'a A = a.cpp_cast(); //+
    let _: &'a B = a.cpp_cast(); //~
}
//% inc_other_name | E0271 E0277 | & casts only between the same C++ type (both incomplete)
pub fn f<'a>(a: &'a IncA1) {
    let _: &'a IncA2 = a.cpp_cast(); //+
    let _: &'a IncB = a.cpp_cast(); //~
}
//% pin_other_name | E0271 E0277 | Pin casts only between the same C++ type
pub fn f<'a>(a: Pin<&'a mut IncA1>) {
    let _: Pin<&'a mut A> = a.cpp_cast(); //+
    let _: Pin<&'a mut B> = a.cpp_cast(); //~
}
//% ptr_other_name | E0271 E0277 | pointer casts only between the same C++ type
pub fn f(a: *const IncA1) {
    let _: *const A = a.cpp_cast(); //+
    let _: *const B = a.cpp_cast(); //~
}
//% mut_ptr_other_name | E0271 E0277 | pointer casts only between the same C++ type
pub fn f(a: *mut IncA1) {
    let _: *mut A = a.cpp_cast(); //+
    let _: *mut B = a.cpp_cast(); //~
}
//% vec_other_name | E0271 E0277 | vector casts only between the same C++ type
pub fn f<'a>(a: Vec<&'a IncA1>) {
    let _: Vec<&'a A> = a.cpp_cast(); //+
    let _: Vec<&'a B> = a.cpp_cast(); //~
}
//% slice_other_name | E0271 E0277 | slice casts only between the same C++ type
pub fn f<'a>(a: &'a [&'a IncA1]) {
    let _: &'a [&'a A] = a.cpp_cast(); //+
    let _: &'a [&'a B] = a.cpp_cast(); //~
}
//% cref_other_name | E0271 E0277 | C++ reference casts only between the same C++ type
pub fn f<'a>(a: cref::CRef<'a, IncA1>) {
    let _: cref::CRef<'a, A> = a.cpp_cast(); //+
    let _: cref::CRef<'a, B> = a.cpp_cast(); //~
}
//% cmut_other_name | E0271 E0277 | C++ mutable reference casts only between the same C++ type
pub fn f<'a>(a: cref::CMut<'a, IncA1>) {
    let _: cref::CMut<'a, A> = a.cpp_cast(); //+
    let _: cref::CMut<'a, B> = a.cpp_cast(); //~
}
//% not_cpp | E0277 | only declared C++ types cast
pub fn f<'a>(a: &'a IncA1) {
    let _: &'a A = a.cpp_cast(); //+
    let _: &'a NotCpp = a.cpp_cast(); //~
}
//% const_to_mut_ref | E0271 E0277 | no cast turns a shared reference into a mutable one
pub fn f<'a>(a: &'a IncA1) {
    let _: &'a A = a.cpp_cast(); //+
    let _: &'a mut A = a.cpp_cast(); //~
}
//% const_to_pin_mut | E0271 E0277 | no cast turns a shared reference into a pinned mutable one
pub fn f<'a>(a: &'a IncA1) {
    let _: &'a A = a.cpp_cast(); //+
    let _: Pin<&'a mut A> = a.cpp_cast(); //~
}
//% cref_to_cmut | E0271 E0277 | no cast turns a const C++ reference into a mutable one
pub fn f<'a>(a: cref::CRef<'a, IncA1>) {
    let _: cref::CRef<'a, A> = a.cpp_cast(); //+
    let _: cref::CMut<'a, A> = a.cpp_cast(); //~
}
//% ptr_to_ref | E0271 E0277 | no cast turns a raw pointer into a reference
pub fn f<'a>(a: *const IncA1) {
    let _: *const A = a.cpp_cast(); //+
    let _: &'a A = a.cpp_cast(); //~
}
//% const_ptr_to_mut_ptr | E0271 E0277 | no cast turns a const pointer into a mutable one
pub fn f(a: *const IncA1) {
    let _: *const A = a.cpp_cast(); //+
    let _: *mut A = a.cpp_cast(); //~
}
//% pin_to_unpinned | E0271 E0277 | no cast hands out an unpinned &mut to an incomplete type
pub fn f<'a>(a: Pin<&'a mut A>) {
    let _: Pin<&'a mut IncA1> = a.cpp_cast(); //+
    let _: &'a mut IncA1 = a.cpp_cast(); //~
}
//% pin_to_unpinned_complete | E0271 E0277 | no cast hands out an unpinned &mut to a type that must stay pinned
pub fn f<'a>(a: Pin<&'a mut IncA1>) {
    let _: Pin<&'a mut PA> = a.cpp_cast(); //+
    let _: &'a mut PA = a.cpp_cast(); //~
}
//% array_len | E0271 E0277 | array casts keep the length
pub fn f<'a>(a: &'a [&'a IncA1; 3]) {
    let _: &'a [&'a A; 3] = a.cpp_cast(); //+
    let _: &'a [&'a A; 4] = a.cpp_cast(); //~
}
//% array_to_slice | E0271 E0277 | arrays do not cast to slices
pub fn f<'a>(a: &'a [&'a IncA1; 3]) {
    let _: &'a [&'a A; 3] = a.cpp_cast(); //+
    let _: &'a [&'a A] = a.cpp_cast(); //~
}
//% lifetime_ref | lifetime | casts keep the lifetime (&)
pub fn f<'a>(a: &'a IncA1) -> &'a A { a.cpp_cast() } //+
pub fn f<'a>(a: &'a IncA1) -> &'static A { a.cpp_cast() } //~
//% lifetime_pin | lifetime | casts keep the lifetime (Pin<&mut>)
pub fn f<'a>(a: Pin<&'a mut IncA1>) -> Pin<&'a mut A> { a.cpp_cast() } //+
pub fn f<'a>(a: Pin<&'a mut IncA1>) -> Pin<&'static mut A> { a.cpp_cast() } //~
//% lifetime_pin_shared | lifetime | casts keep the lifetime (Pin<&>)
pub fn f<'a>(a: Pin<&'a IncA1>) -> Pin<&'a A> { a.cpp_cast() } //+
pub fn f<'a>(a: Pin<&'a IncA1>) -> Pin<&'static A> { a.cpp_cast() } //~
//% lifetime_mut | lifetime | casts keep the lifetime (&mut)
pub fn f<'a>(a: &'a mut A) -> Pin<&'a mut IncA1> { a.cpp_cast() } //+
pub fn f<'a>(a: &'a mut A) -> Pin<&'static mut IncA1> { a.cpp_cast() } //~
//% lifetime_vec | lifetime | casts keep the lifetime (vector of references)
pub fn f<'a>(a: Vec<&'a IncA1>) -> Vec<&'a A> { a.cpp_cast() } //+
pub fn f<'a>(a: Vec<&'a IncA1>) -> Vec<&'static A> { a.cpp_cast() } //~
//% lifetime_cref | lifetime | casts keep the lifetime (C++ reference)
pub fn f<'a>(a: cref::CRef<'a, IncA1>) -> cref::CRef<'a, A> { a.cpp_cast() } //+
pub fn f<'a>(a: cref::CRef<'a, IncA1>) -> cref::CRef<'static, A> { a.cpp_cast() } //~
//% lifetime_cmut | lifetime | casts keep the lifetime (mutable C++ reference)
pub fn f<'a>(a: cref::CMut<'a, IncA1>) -> cref::CMut<'a, A> { a.cpp_cast() } //+
pub fn f<'a>(a: cref::CMut<'a, IncA1>) -> cref::CMut<'static, A> { a.cpp_cast() } //~
//% incomplete_not_unpin | E0277 | an incomplete type is never Unpin
pub fn need<T: Unpin>() {}
pub fn f() {
    need::<A>(); //+
    need::<IncA1>(); //~
}
//% incomplete_not_send | E0277 | an incomplete type is never Send
pub fn need<T: Send>() {}
pub fn f() {
    need::<A>(); //+
    need::<IncA1>(); //~
}
//% incomplete_not_sync | E0277 | an incomplete type is never Sync
pub fn need<T: Sync>() {}
pub fn f() {
    need::<A>(); //+
    need::<IncA1>(); //~
}
//% incomplete_not_complete | E0277 | an incomplete type is never considered complete
pub fn need<T: Complete>() {}
pub fn f() {
    need::<A>(); //+
    need::<IncA1>(); //~
}
//% no_construct | E0423 E0451 E0603 | an incomplete type is never constructed by value
pub fn f(p: *const IncA1) {
    let _: *const IncA1 = p; //+
    let _: IncA1 = Incomplete(std::marker::PhantomData, ()); //~
}
//% cpptype_unsafe | E0200 | claiming to be a C++ type is unsafe
pub struct Mine(i32);
unsafe impl internal::CppType for Mine { type Name = SymB; } //+
impl internal::CppType for Mine { type Name = SymB; } //~
//% unsafe_coerce_call | E0133 | the unchecked conversion is unsafe to call
pub fn f<'a, T: UnsafeCppCast<'a, U>, U>(t: T) where U: 'a {
    let _: U = unsafe { t.unsafe_cpp_cast() }; //+
    let _: U = t.unsafe_cpp_cast(); //~
}
//% unsafe_coerce_impl | E0200 | implementing the unchecked conversion is unsafe
pub struct Mine(i32);
unsafe impl<'a> UnsafeCppCoerce<'a, B> for Mine { unsafe fn unsafe_cpp_coerce(self) -> B { B(0) } } //+
impl<'a> UnsafeCppCoerce<'a, B> for Mine { unsafe fn unsafe_cpp_coerce(self) -> B { B(0) } } //~
//% symbols_differ | E0308 | differently spelled C++ names are different symbols
pub fn f(a: std::marker::PhantomData<symbol!("X<int>")>) {
    let _: std::marker::PhantomData<symbol!("X<int>")> = a; //+
    let _: std::marker::PhantomData<symbol!("X<int >")> = a; //~
}
//% symbol_prefix_differ | E0308 | a name and its prefix are different symbols
pub fn f(a: std::marker::PhantomData<symbol!("AB")>) {
    let _: std::marker::PhantomData<symbol!("AB")> = a; //+
    let _: std::marker::PhantomData<symbol!("A")> = a; //~
}
//% forward_declare_macro | E0271 E0277 | forward_declare! introduces an incomplete type of the given name
forward_declare!(pub FwdA = symbol!("A"));
forward_declare!(pub FwdB = symbol!("B"));
pub fn f<'a>(a: &'a FwdA) {
    let _: &'a A = a.cpp_cast(); //+
    let _: &'a B = a.cpp_cast(); //~
}
