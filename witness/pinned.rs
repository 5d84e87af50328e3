//# externs: ctor
#![allow(unused, dead_code, incomplete_features, internal_features)]
#![feature(negative_impls, super_let)]
use std::pin::Pin;
pub mod m {
    #[::ctor::recursively_pinned]
    pub struct S { pub x: i32, y: i32 }
    #[::ctor::recursively_pinned]
    pub struct T(pub i32, i32);
    #[::ctor::recursively_pinned]
    pub struct U;
    #[::ctor::recursively_pinned]
    pub enum E { A, B { x: i32 }, C(i32) }
    #[::ctor::recursively_pinned(PinnedDrop)]
    pub struct D { pub x: i32 }
    impl ::ctor::PinnedDrop for D { unsafe fn pinned_drop(self: super::Pin<&mut Self>) {} }
    #[::ctor::recursively_pinned]
    pub struct P { pub x: i32, pub y: i32 }
    #[::ctor::recursively_pinned]
    pub struct TP(pub i32, pub i32);
    #[::ctor::recursively_pinned(?Unpin)]
    pub struct M<T> { pub x: T }
    #[::ctor::recursively_pinned]
    pub struct G<'a, T> { pub x: &'a T }
    #[::ctor::recursively_pinned]
    pub union W { pub x: i32, pub y: u32 }
    pub fn s_ctor() -> impl ::ctor::Ctor<Output = S, Error = ::ctor::Infallible> { ::ctor::ctor!(S { x: 1, y: 2 }) }
    pub struct Plain { pub x: i32 }
}
use m::*;
pub fn nu<T: Unpin>() {}
//% s_not_unpin | E0277 | a recursively pinned struct is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<S>(); //~
}
//% t_not_unpin | E0277 | a recursively pinned tuple struct is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<T>(); //~
}
//% u_not_unpin | E0277 | a recursively pinned unit struct is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<U>(); //~
}
//% e_not_unpin | E0277 | a recursively pinned enum is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<E>(); //~
}
//% d_not_unpin | E0277 | a recursively pinned struct with a destructor is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<D>(); //~
}
//% w_not_unpin | E0277 | a recursively pinned union is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<W>(); //~
}
//% g_not_unpin | E0277 | a recursively pinned generic struct is never Unpin
pub fn f() {
    nu::<i32>(); //+
    nu::<G<'static, i32>>(); //~
}
//% maybe_unpin | E0277 | ?Unpin inherits pinnedness from the fields
pub fn f() {
    nu::<M<i32>>(); //+
    nu::<M<std::marker::PhantomPinned>>(); //~
}
//% no_literal | E0063 E0451 | a recursively pinned struct is not created by literal outside its module
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2 })); //+
    let _ = P { x: 1, y: 2 }; //~
}
//% no_literal_inside | E0063 | a recursively pinned struct is not created by literal even next to its definition
#[::ctor::recursively_pinned]
pub struct L { pub x: i32 }
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(L { x: 1 })); //+
    let _ = L { x: 1 }; //~
}
//% no_tuple_literal | E0061 E0423 E0603 | a recursively pinned tuple struct is not created by literal
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(TP(1, 2))); //+
    let _ = TP(1, 2); //~
}
//% no_unit_literal | E0423 E0063 E0533 E0451 | a recursively pinned unit struct is not created by literal
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(U)); //+
    let _: U = U; //~
}
//% no_unit_brace_literal | E0423 E0063 E0533 E0451 | a recursively pinned unit struct is not created by literal
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(U)); //+
    let _: U = U {}; //~
}
//% no_enum_literal | E0423 E0063 E0533 | a recursively pinned enum is not created by literal
pub fn f(e: Pin<&mut E>) {
    let _ = e; //+
    let _ = E::A; //~
}
//% no_enum_struct_literal | E0063 | a recursively pinned enum is not created by literal
pub fn f(e: Pin<&mut E>) {
    let _ = e; //+
    let _ = E::B { x: 1 }; //~
}
//% no_enum_tuple_literal | E0061 | a recursively pinned enum is not created by literal
pub fn f(e: Pin<&mut E>) {
    let _ = e; //+
    let _ = E::C(1); //~
}
//% ctor_missing_field | E0063 | every field must be initialized
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2 })); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1 })); //~
}
//% ctor_missing_tuple_field | E0063 | every tuple field must be initialized
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(TP(1, 2))); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(TP(1))); //~
}
//% ctor_dup_field | E0062 | no field is initialized twice
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2 })); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2, x: 3 })); //~
}
//% ctor_unknown_field | E0560 E0609 | only declared fields are initialized
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2 })); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2, z: 3 })); //~
}
//% ctor_field_type | E0308 E0271 E0277 | a field's initializer builds the field's type
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 2 })); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: "s" })); //~
}
//% ctor_field_infallible | E0271 | a field's initializer is infallible
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: ::ctor::RustMoveCtor::new(2), y: 2 })); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: ::ctor::ctor_error::<i32, u8>(2), y: 2 })); //~
}
//% ctor_private_field | E0451 E0616 | private fields are not initialized from outside
pub fn f() {
    let _ = ::ctor::emplace!(s_ctor()); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(S { x: 1, y: 2 })); //~
}
//% ctor_plain_struct | E0277 | ctor! only builds recursively pinned types
pub fn f() {
    let _ = ::ctor::emplace!(::ctor::ctor!(P { x: 1, y: 1 })); //+
    let _ = ::ctor::emplace!(::ctor::ctor!(Plain { x: 1 })); //~
}
//% project_pinned | E0308 | projection of a mutable pinned struct gives pinned fields
pub fn f(p: Pin<&mut P>) {
    let _: Pin<&mut i32> = p.project_pin().x; //+
    let _: &mut i32 = p.project_pin().x; //~
}
//% project_ref_pinned | E0308 | projection of a shared pinned struct gives pinned fields
pub fn f(p: Pin<&P>) {
    let _: Pin<&i32> = p.project_ref().x; //+
    let _: &i32 = p.project_ref().x; //~
}
//% project_shared_not_mut | E0308 E0599 | a shared struct does not project to mutable fields
pub fn f(p: Pin<&P>) {
    let _: Pin<&i32> = p.project_ref().x; //+
    let _: Pin<&mut i32> = p.project_ref().x; //~
}
//% project_pin_needs_mut | E0308 E0599 | mutable projection needs a mutable pinned struct
pub fn f(p: Pin<&P>, q: Pin<&mut P>) {
    let _ = q.project_pin(); //+
    let _ = p.project_pin(); //~
}
//% project_pin_needs_pin | E0599 E0308 | mutable projection needs a pinned struct
pub fn f(p: &mut P, q: Pin<&mut P>) {
    let _ = q.project_pin(); //+
    let _ = p.project_pin(); //~
}
//% project_pin_lifetime | lifetime | projected fields live no longer than the struct (mutable)
pub fn f<'a>(p: Pin<&'a mut P>) -> Pin<&'a mut i32> { p.project_pin().x } //+
pub fn f<'a>(p: Pin<&'a mut P>) -> Pin<&'static mut i32> { p.project_pin().x } //~
//% project_ref_lifetime | lifetime | projected fields live no longer than the struct (shared)
pub fn f<'a>(p: Pin<&'a P>) -> Pin<&'a i32> { p.project_ref().x } //+
pub fn f<'a>(p: Pin<&'a P>) -> Pin<&'static i32> { p.project_ref().x } //~
//% project_private | E0616 | projection does not widen field visibility
pub fn f(p: Pin<&mut S>) {
    let _ = p.project_pin().x; //+
    let _ = p.project_pin().y; //~
}
//% project_ref_private | E0616 | projection does not widen field visibility (shared)
pub fn f(p: Pin<&S>) {
    let _ = p.project_ref().x; //+
    let _ = p.project_ref().y; //~
}
//% project_tuple_private | E0616 | projection does not widen tuple field visibility
pub fn f(p: Pin<&mut T>) {
    let _ = p.project_pin().0; //+
    let _ = p.project_pin().1; //~
}
//% union_no_project | E0599 | unions are never projected
pub fn f(p: Pin<&mut W>, q: Pin<&mut P>) {
    let _ = q.project_pin(); //+
    let _ = p.project_pin(); //~
}
//% no_drop_impl | E0119 | a recursively pinned type has no ordinary destructor
#[::ctor::recursively_pinned] //^
pub struct Q { x: i32 } //^
impl Drop for Q { fn drop(&mut self) {} } //~
//% no_drop_impl_enum | E0119 | a recursively pinned enum has no ordinary destructor
#[::ctor::recursively_pinned] //^
pub enum Q { A { x: i32 } } //^
impl Drop for Q { fn drop(&mut self) {} } //~
//% no_drop_with_pinned_drop | E0119 | a pinned destructor excludes an ordinary one
#[::ctor::recursively_pinned(PinnedDrop)]
pub struct Q { x: i32 }
impl ::ctor::PinnedDrop for Q { unsafe fn pinned_drop(self: Pin<&mut Self>) {} }
impl Drop for Q { fn drop(&mut self) {} } //~
//% pinned_drop_requires_flag | E0119 | a pinned destructor that would never run is rejected
#[::ctor::recursively_pinned(PinnedDrop)] //+
#[::ctor::recursively_pinned] //~
pub struct Q { x: i32 }
impl ::ctor::PinnedDrop for Q { unsafe fn pinned_drop(self: Pin<&mut Self>) {} } //^
//% pinned_drop_required | E0277 | a promised pinned destructor must be provided
#[::ctor::recursively_pinned] //+
#[::ctor::recursively_pinned(PinnedDrop)] //~
pub struct Q { x: i32 }
//% default_derive_fields | E0277 | a derived default constructor needs every field to have one
struct NoDef(i32);
#[derive(::ctor::CtorFrom_Default)]
#[::ctor::recursively_pinned]
struct Q { x: i32, y: i32 } //+
struct Q { x: i32, y: NoDef } //~
//% default_derive_enum | | a derived default constructor works for structs
#[derive(::ctor::CtorFrom_Default)]
#[::ctor::recursively_pinned]
struct Q { x: i32, y: u8 }
pub fn f() { let _ = ::ctor::emplace!(<Q as ::ctor::CtorNew<()>>::ctor_new(())); }
