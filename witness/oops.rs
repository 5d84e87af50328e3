//# externs: oops
#![allow(unused, dead_code)]
use oops::{Inherits, UnsafeUpcast, Upcast};
use std::marker::PhantomPinned;
use std::pin::Pin;
pub struct Base(i32);
pub struct Derived { x: u32, b: Base }
pub struct Other(i32);
unsafe impl Inherits<Base> for Derived { unsafe fn upcast_ptr(d: *const Self) -> *const Base { unsafe { &raw const (*d).b } } }
pub struct PBase(i32, PhantomPinned);
pub struct PDerived { x: u32, b: PBase }
unsafe impl Inherits<PBase> for PDerived { unsafe fn upcast_ptr(d: *const Self) -> *const PBase { unsafe { &raw const (*d).b } } }
pub struct UDerived { x: u32, b: PBase }
impl Unpin for UDerived {}
unsafe impl Inherits<PBase> for UDerived { unsafe fn upcast_ptr(d: *const Self) -> *const PBase { unsafe { &raw const (*d).b } } }
//% undeclared_ref | E0277 | & upcast needs a declared inheritance relation
pub fn f(d: &Derived) {
    let _: &Base = d.upcast(); //+
    let _: &Other = d.upcast(); //~
}
//% undeclared_mut | E0277 | &mut upcast needs a declared inheritance relation
pub fn f(d: &mut Derived) {
    let _: &mut Base = d.upcast(); //+
    let _: &mut Other = d.upcast(); //~
}
//% undeclared_pin | E0277 | Pin<&mut> upcast needs a declared inheritance relation
pub fn f(d: Pin<&mut Derived>) {
    let _: Pin<&mut Base> = d.upcast(); //+
    let _: Pin<&mut Other> = d.upcast(); //~
}
//% undeclared_const_ptr | E0277 E0308 | *const upcast needs a declared inheritance relation
pub unsafe fn f(d: *const Derived) { unsafe {
    let _: *const Base = d.unsafe_upcast(); //+
    let _: *const Other = d.unsafe_upcast(); //~
} }
//% undeclared_mut_ptr | E0277 E0308 | *mut upcast needs a declared inheritance relation
pub unsafe fn f(d: *mut Derived) { unsafe {
    let _: *mut Base = d.unsafe_upcast(); //+
    let _: *mut Other = d.unsafe_upcast(); //~
} }
//% no_downcast_ref | E0277 | upcast is never a downcast
pub fn f(b: &Base, d: &Derived) {
    let _: &Base = d.upcast(); //+
    let _: &Derived = b.upcast(); //~
}
//% no_downcast_pin | E0277 | upcast is never a downcast
pub fn f(b: Pin<&mut Base>, d: Pin<&mut Derived>) {
    let _: Pin<&mut Base> = d.upcast(); //+
    let _: Pin<&mut Derived> = b.upcast(); //~
}
//% no_downcast_mut | E0277 | upcast is never a downcast
pub fn f(b: &mut Base, d: &mut Derived) {
    let _: &mut Base = d.upcast(); //+
    let _: &mut Derived = b.upcast(); //~
}
//% no_shared_to_mut | E0277 | a shared reference is never upcast to a mutable one
pub fn f(d: &Derived, m: &mut Derived) {
    let _: &mut Base = m.upcast(); //+
    let _: &mut Base = d.upcast(); //~
}
//% no_shared_to_pin_mut | E0277 | a shared reference is never upcast to a pinned mutable one
pub fn f(d: &Derived, m: &mut Derived) {
    let _: Pin<&mut Base> = m.upcast(); //+
    let _: Pin<&mut Base> = d.upcast(); //~
}
//% const_ptr_to_mut_ptr | E0277 E0308 | const pointers are never upcast to mutable ones
pub unsafe fn f(d: *const Derived, m: *mut Derived) { unsafe {
    let _: *mut Base = m.unsafe_upcast(); //+
    let _: *mut Base = d.unsafe_upcast(); //~
} }
//% unpin_derived_pinned_base | E0277 | &mut Base is not handed out for a Base that must stay pinned
pub fn f(d: &mut UDerived) {
    let _: Pin<&mut PBase> = d.upcast(); //+
    let _: &mut PBase = d.upcast(); //~
}
//% pinned_derived_mut | E0277 | &mut access to an unpinned-only class is not turned into a pinned base
pub fn f(d: &mut PDerived, p: Pin<&mut PDerived>) {
    let _: Pin<&mut PBase> = p.upcast(); //+
    let _: Pin<&mut PBase> = d.upcast(); //~
}
//% pinned_derived_mut_base | E0277 | &mut of a pinned class upcasts to no &mut
pub fn f(d: &mut PDerived, u: &mut Derived) {
    let _: &mut Base = u.upcast(); //+
    let _: &mut PBase = d.upcast(); //~
}
//% pin_not_unpinned | E0277 | a pinned reference upcasts to a pinned one only
pub fn f(d: Pin<&mut Derived>) {
    let _: Pin<&mut Base> = d.upcast(); //+
    let _: &mut Base = d.upcast(); //~
}
//% lifetime_ref | lifetime E0621 E0521 E0495 E0597 | the upcast reference lives no longer than the original (&)
pub fn f<'a>(d: &'a Derived) -> &'a Base { d.upcast() } //+
pub fn f<'a>(d: &'a Derived) -> &'static Base { d.upcast() } //~
//% lifetime_mut | lifetime | the upcast reference lives no longer than the original (&mut)
pub fn f<'a>(d: &'a mut Derived) -> &'a mut Base { d.upcast() } //+
pub fn f<'a>(d: &'a mut Derived) -> &'static mut Base { d.upcast() } //~
//% lifetime_pin | lifetime | the upcast reference lives no longer than the original (Pin<&mut>)
pub fn f<'a>(d: Pin<&'a mut Derived>) -> Pin<&'a mut Base> { d.upcast() } //+
pub fn f<'a>(d: Pin<&'a mut Derived>) -> Pin<&'static mut Base> { d.upcast() } //~
//% lifetime_mut_pin | lifetime | the upcast reference lives no longer than the original (&mut to Pin)
pub fn f<'a>(d: &'a mut Derived) -> Pin<&'a mut Base> { d.upcast() } //+
pub fn f<'a>(d: &'a mut Derived) -> Pin<&'static mut Base> { d.upcast() } //~
//% exclusive | E0499 | the upcast mutable reference keeps the original exclusively borrowed
pub fn f(mut d: Derived) {
    let a: &mut Base = (&mut d).upcast();
    let b: &mut Base = (&mut d).upcast(); //~
    a.0 = 1;
}
//% exclusive_pin | E0499 | the upcast pinned reference keeps the original exclusively borrowed
pub fn f(mut d: Derived) {
    let mut a: Pin<&mut Base> = (&mut d).upcast();
    let b: Pin<&mut Base> = (&mut d).upcast(); //~
    a.0 = 1;
}
//% shared_excludes_mut | E0502 | a shared upcast keeps the original from being mutated
pub fn f(mut d: Derived) {
    let a: &Base = (&d).upcast();
    let b: &mut Base = (&mut d).upcast(); //~
    let _ = a.0;
}
//% declare_unsafe | E0200 | declaring an inheritance relation is unsafe
pub struct D2(Other);
unsafe impl Inherits<Other> for D2 { unsafe fn upcast_ptr(d: *const Self) -> *const Other { d as *const Other } } //+
impl Inherits<Other> for D2 { unsafe fn upcast_ptr(d: *const Self) -> *const Other { d as *const Other } } //~
//% impl_unsafe_upcast_unsafe | E0200 | implementing the raw pointer upcast is unsafe
pub struct D2(Other);
unsafe impl UnsafeUpcast<u8> for D2 { unsafe fn unsafe_upcast(self) -> u8 { 0 } } //+
impl UnsafeUpcast<u8> for D2 { unsafe fn unsafe_upcast(self) -> u8 { 0 } } //~
//% call_ptr_unsafe | E0133 | raw pointer upcasts are unsafe to call
pub fn f(d: *const Derived) {
    let _: *const Base = unsafe { d.unsafe_upcast() }; //+
    let _: *const Base = d.unsafe_upcast(); //~
}
//% call_mut_ptr_unsafe | E0133 | raw pointer upcasts are unsafe to call
pub fn f(d: *mut Derived) {
    let _: *mut Base = unsafe { d.unsafe_upcast() }; //+
    let _: *mut Base = d.unsafe_upcast(); //~
}
//% call_upcast_ptr_unsafe | E0133 | the class-supplied pointer adjustment is unsafe to call
pub fn f(d: *const Derived) {
    let _: *const Base = unsafe { Derived::upcast_ptr(d) }; //+
    let _: *const Base = Derived::upcast_ptr(d); //~
}
//% call_upcast_ptr_mut_unsafe | E0133 | the class-supplied pointer adjustment is unsafe to call
pub fn f(d: *mut Derived) {
    let _: *mut Base = unsafe { Derived::upcast_ptr_mut(d) }; //+
    let _: *mut Base = Derived::upcast_ptr_mut(d); //~
}
//% identity | | every class upcasts to itself
pub fn f<'a>(d: &'a mut Derived) -> &'a mut Derived { let p: &mut Derived = d.upcast(); p }
pub fn g<'a>(d: Pin<&'a mut PDerived>) -> Pin<&'a mut PDerived> { d.upcast() }
pub fn h<'a>(d: &'a PDerived) -> &'a PDerived { d.upcast() }
