//# externs: cref
#![allow(unused, dead_code)]
use cref::*;
use std::marker::PhantomPinned;
use std::pin::Pin;
pub struct NotUnpin(i32, PhantomPinned);
//% from_ref_unpin | E0277 | a C++ reference to a value that must stay pinned is only built from a Pin (shared)
pub fn f<'a>(r: &'a NotUnpin, u: &'a i32) {
    let _ = CRef::from_ref(u); //+
    let _ = CRef::from_ref(r); //~
}
//% mut_from_ref_unpin | E0277 | a C++ reference to a value that must stay pinned is only built from a Pin (mutable)
pub fn f<'a>(r: &'a mut NotUnpin, u: &'a mut i32) {
    let _ = CMut::from_ref(u); //+
    let _ = CMut::from_ref(r); //~
}
//% from_pin | | a C++ reference is built from a Pin for every type
pub fn f<'a>(r: Pin<&'a NotUnpin>) -> CRef<'a, NotUnpin> { CRef::from_pin(r) }
pub fn g<'a>(r: Pin<&'a mut NotUnpin>) -> CMut<'a, NotUnpin> { CMut::from_pin(r) }
pub fn h<'a>(r: Pin<&'a mut str>) -> CRef<'a, str> { CMut::into_const(CMut::from_pin(r)) }
//% cref_from_ptr_unsafe | E0133 | building a reference from a raw pointer is unsafe
pub fn f(p: *const i32) {
    let _ = unsafe { CRef::from_ptr(p) }; //+
    let _ = CRef::from_ptr(p); //~
}
//% cmut_from_ptr_unsafe | E0133 | building a mutable reference from a raw pointer is unsafe
pub fn f(p: *mut i32) {
    let _ = unsafe { CMut::from_ptr(p) }; //+
    let _ = CMut::from_ptr(p); //~
}
//% cref_unchanging_unsafe | E0133 | turning a C++ reference into a Rust one is unsafe
pub fn f(p: CRef<i32>) {
    let _ = unsafe { CRef::unchanging(p) }; //+
    let _ = CRef::unchanging(p); //~
}
//% cmut_unchanging_unsafe | E0133 | turning a C++ mutable reference into a Rust one is unsafe
pub fn f(p: CMut<i32>) {
    let _ = unsafe { CMut::unchanging(p) }; //+
    let _ = CMut::unchanging(p); //~
}
//% cmut_unique_unsafe | E0133 | turning a C++ mutable reference into an exclusive Rust one is unsafe
pub fn f(p: CMut<i32>) {
    let _ = unsafe { CMut::unique(p) }; //+
    let _ = CMut::unique(p); //~
}
//% cmut_unpin_unique_unsafe | E0133 | turning a C++ mutable reference into an exclusive Rust one is unsafe
pub fn f(p: CMut<i32>) {
    let _ = unsafe { CMut::unpin_unique(p) }; //+
    let _ = CMut::unpin_unique(p); //~
}
//% cmut_unpin_unique_needs_unpin | E0277 | an unpinned exclusive reference is only handed out for types that may move
pub unsafe fn f(p: CMut<NotUnpin>, q: CMut<i32>) { unsafe {
    let _ = CMut::unpin_unique(q); //+
    let _ = CMut::unpin_unique(p); //~
} }
//% unique_is_pinned | E0308 E0277 | exclusive access is handed out pinned
pub unsafe fn f<'a>(p: CMut<'a, NotUnpin>) { unsafe {
    let _: Pin<&'a mut NotUnpin> = CMut::unique(p); //+
    let _: &'a mut NotUnpin = CMut::unique(p); //~
} }
//% unchanging_is_pinned | E0308 | shared access is handed out pinned
pub unsafe fn f<'a>(p: CRef<'a, NotUnpin>) { unsafe {
    let _: Pin<&'a NotUnpin> = CRef::unchanging(p); //+
    let _: &'a NotUnpin = CRef::unchanging(p); //~
} }
//% const_cast_unsafe | E0133 | removing const is unsafe
pub fn f(p: CRef<i32>) {
    let _ = unsafe { CRef::const_cast(p) }; //+
    let _ = CRef::const_cast(p); //~
}
//% const_to_mut_like | E0277 | a const reference is never accepted where a mutable one is required
pub fn need<'a, T: CMutLike<'a>>(t: T) {}
pub fn f<'a>(c: CRef<'a, i32>, m: CMut<'a, i32>) {
    need(m); //+
    need(c); //~
}
//% shared_ref_to_mut_like | E0277 | a shared Rust reference is never accepted where a mutable one is required
pub fn need<'a, T: CMutLike<'a>>(t: T) {}
pub fn f<'a>(c: &'a i32, m: &'a mut i32) {
    need(m); //+
    need(c); //~
}
//% shared_pin_to_mut_like | E0277 | a shared pinned reference is never accepted where a mutable one is required
pub fn need<'a, T: CMutLike<'a>>(t: T) {}
pub fn f<'a>(c: Pin<&'a i32>, m: Pin<&'a mut i32>) {
    need(m); //+
    need(c); //~
}
//% unpinned_ref_like | E0277 | an unpinned & to a value that must stay pinned does not convert
pub fn need<'a, T: CRefLike<'a>>(t: T) {}
pub fn f<'a>(c: &'a NotUnpin, m: Pin<&'a NotUnpin>) {
    need(m); //+
    need(c); //~
}
//% unpinned_mut_like | E0277 | an unpinned &mut to a value that must stay pinned does not convert
pub fn need<'a, T: CRefLike<'a>>(t: T) {}
pub fn f<'a>(c: &'a mut NotUnpin, m: Pin<&'a mut NotUnpin>) {
    need(m); //+
    need(c); //~
}
//% unpinned_mut_mut_like | E0277 | an unpinned &mut to a value that must stay pinned does not convert to a mutable C++ reference
pub fn need<'a, T: CMutLike<'a>>(t: T) {}
pub fn f<'a>(c: &'a mut NotUnpin, m: Pin<&'a mut NotUnpin>) {
    need(m); //+
    need(c); //~
}
//% raw_ptr_like | E0277 | raw pointers do not convert to C++ references
pub fn need<'a, T: CRefLike<'a>>(t: T) {}
pub fn f<'a>(c: *const i32, m: &'a i32) {
    need(m); //+
    need(c); //~
}
//% raw_mut_ptr_like | E0277 | raw pointers do not convert to C++ references
pub fn need<'a, T: CRefLike<'a>>(t: T) {}
pub fn f<'a>(c: *mut i32, m: &'a i32) {
    need(m); //+
    need(c); //~
}
//% box_like | E0277 | owning pointers do not convert to C++ references
pub fn need<'a, T: CRefLike<'a>>(t: T) {}
pub fn f<'a>(c: Box<i32>, m: &'a i32) {
    need(m); //+
    need(c); //~
}
//% sealed | E0277 | no other type can claim to be a C++ reference
pub struct Mine(i32);
pub fn need<'a, T: CRefLike<'a>>() {} //+
unsafe impl<'a> CRefLike<'a> for Mine { type Target = i32; } //~
//% like_unsafe | E0200 | claiming to be a C++ reference is unsafe
pub struct Mine(i32);
pub fn need<'a, T: CRefLike<'a>>() {} //+
impl<'a> CRefLike<'a> for Mine { type Target = i32; } //~
//% same_target | E0271 E0308 | conversions keep the pointee type
pub fn f<'a>(p: Pin<&'a i32>) {
    let _: CRef<'a, i32> = p.into_cref(); //+
    let _: CRef<'a, u32> = p.into_cref(); //~
}
//% mut_same_target | E0271 E0308 | conversions keep the pointee type
pub fn f<'a>(p: Pin<&'a mut i32>) {
    let _: CMut<'a, i32> = p.into_cmut(); //+
    let _: CMut<'a, u32> = p.into_cmut(); //~
}
//% lifetime_cref | lifetime | a C++ reference lives no longer than the Rust reference it came from
pub fn f<'a>(p: &'a i32) -> CRef<'a, i32> { CRef::from_ref(p) } //+
pub fn f<'a>(p: &'a i32) -> CRef<'static, i32> { CRef::from_ref(p) } //~
//% lifetime_cref_pin | lifetime | a C++ reference lives no longer than the Rust reference it came from
pub fn f<'a>(p: Pin<&'a i32>) -> CRef<'a, i32> { CRef::from_pin(p) } //+
pub fn f<'a>(p: Pin<&'a i32>) -> CRef<'static, i32> { CRef::from_pin(p) } //~
//% lifetime_cmut | lifetime | a mutable C++ reference lives no longer than the Rust reference it came from
pub fn f<'a>(p: &'a mut i32) -> CMut<'a, i32> { CMut::from_ref(p) } //+
pub fn f<'a>(p: &'a mut i32) -> CMut<'static, i32> { CMut::from_ref(p) } //~
//% lifetime_cmut_pin | lifetime | a mutable C++ reference lives no longer than the Rust reference it came from
pub fn f<'a>(p: Pin<&'a mut i32>) -> CMut<'a, i32> { CMut::from_pin(p) } //+
pub fn f<'a>(p: Pin<&'a mut i32>) -> CMut<'static, i32> { CMut::from_pin(p) } //~
//% lifetime_into_const | lifetime | conversion to const keeps the lifetime
pub fn f<'a>(p: CMut<'a, i32>) -> CRef<'a, i32> { CMut::into_const(p) } //+
pub fn f<'a>(p: CMut<'a, i32>) -> CRef<'static, i32> { CMut::into_const(p) } //~
//% lifetime_unchanging | lifetime | a Rust reference obtained from a C++ reference keeps its lifetime
pub unsafe fn f<'a>(p: CRef<'a, i32>) -> Pin<&'a i32> { unsafe { CRef::unchanging(p) } } //+
pub unsafe fn f<'a>(p: CRef<'a, i32>) -> Pin<&'static i32> { unsafe { CRef::unchanging(p) } } //~
//% lifetime_cmut_unchanging | lifetime | a Rust reference obtained from a C++ reference keeps its lifetime
pub unsafe fn f<'a>(p: CMut<'a, i32>) -> Pin<&'a i32> { unsafe { CMut::unchanging(p) } } //+
pub unsafe fn f<'a>(p: CMut<'a, i32>) -> Pin<&'static i32> { unsafe { CMut::unchanging(p) } } //~
//% lifetime_unique | lifetime | an exclusive Rust reference obtained from a C++ reference keeps its lifetime
pub unsafe fn f<'a>(p: CMut<'a, i32>) -> Pin<&'a mut i32> { unsafe { CMut::unique(p) } } //+
pub unsafe fn f<'a>(p: CMut<'a, i32>) -> Pin<&'static mut i32> { unsafe { CMut::unique(p) } } //~
//% lifetime_unpin_unique | lifetime | an exclusive Rust reference obtained from a C++ reference keeps its lifetime
pub unsafe fn f<'a>(p: CMut<'a, i32>) -> &'a mut i32 { unsafe { CMut::unpin_unique(p) } } //+
pub unsafe fn f<'a>(p: CMut<'a, i32>) -> &'static mut i32 { unsafe { CMut::unpin_unique(p) } } //~
//% lifetime_const_cast | lifetime | const_cast keeps the lifetime
pub unsafe fn f<'a>(p: CRef<'a, i32>) -> CMut<'a, i32> { unsafe { CRef::const_cast(p) } } //+
pub unsafe fn f<'a>(p: CRef<'a, i32>) -> CMut<'static, i32> { unsafe { CRef::const_cast(p) } } //~
//% lifetime_into_cref | lifetime | the conversion trait keeps the lifetime (&)
pub fn f<'a>(p: &'a i32) -> CRef<'a, i32> { p.into_cref() } //+
pub fn f<'a>(p: &'a i32) -> CRef<'static, i32> { p.into_cref() } //~
//% lifetime_into_cref_mut | lifetime | the conversion trait keeps the lifetime (&mut)
pub fn f<'a>(p: &'a mut i32) -> CRef<'a, i32> { p.into_cref() } //+
pub fn f<'a>(p: &'a mut i32) -> CRef<'static, i32> { p.into_cref() } //~
//% lifetime_into_cref_pin | lifetime | the conversion trait keeps the lifetime (Pin<&>)
pub fn f<'a>(p: Pin<&'a i32>) -> CRef<'a, i32> { p.into_cref() } //+
pub fn f<'a>(p: Pin<&'a i32>) -> CRef<'static, i32> { p.into_cref() } //~
//% lifetime_into_cref_pin_mut | lifetime | the conversion trait keeps the lifetime (Pin<&mut>)
pub fn f<'a>(p: Pin<&'a mut i32>) -> CRef<'a, i32> { p.into_cref() } //+
pub fn f<'a>(p: Pin<&'a mut i32>) -> CRef<'static, i32> { p.into_cref() } //~
//% lifetime_into_cmut | lifetime | the conversion trait keeps the lifetime (&mut to mutable)
pub fn f<'a>(p: &'a mut i32) -> CMut<'a, i32> { p.into_cmut() } //+
pub fn f<'a>(p: &'a mut i32) -> CMut<'static, i32> { p.into_cmut() } //~
//% lifetime_into_cmut_pin | lifetime | the conversion trait keeps the lifetime (Pin<&mut> to mutable)
pub fn f<'a>(p: Pin<&'a mut i32>) -> CMut<'a, i32> { p.into_cmut() } //+
pub fn f<'a>(p: Pin<&'a mut i32>) -> CMut<'static, i32> { p.into_cmut() } //~
//% lifetime_cref_cref | lifetime | the conversion trait keeps the lifetime (C++ reference to C++ reference)
pub fn f<'a>(p: CRef<'a, i32>) -> CRef<'a, i32> { p.into_cref() } //+
pub fn f<'a>(p: CRef<'a, i32>) -> CRef<'static, i32> { p.into_cref() } //~
//% lifetime_cmut_cref | lifetime | the conversion trait keeps the lifetime (C++ mutable reference to C++ reference)
pub fn f<'a>(p: CMut<'a, i32>) -> CRef<'a, i32> { p.into_cref() } //+
pub fn f<'a>(p: CMut<'a, i32>) -> CRef<'static, i32> { p.into_cref() } //~
//% lifetime_cmut_cmut | lifetime | the conversion trait keeps the lifetime (C++ mutable reference to itself)
pub fn f<'a>(p: CMut<'a, i32>) -> CMut<'a, i32> { p.into_cmut() } //+
pub fn f<'a>(p: CMut<'a, i32>) -> CMut<'static, i32> { p.into_cmut() } //~
//% mut_invariant | lifetime | a mutable C++ reference is invariant in its pointee
pub fn f<'a, 's>(p: CMut<'a, &'static str>) -> CMut<'a, &'static str> { p } //+
pub fn f<'a, 's>(p: CMut<'a, &'static str>) -> CMut<'a, &'s str> { p } //~
//% const_covariant | | a const C++ reference is covariant in its lifetime and pointee
pub fn f<'a, 's>(p: CRef<'static, &'static str>) -> CRef<'a, &'s str> { p }
//% mut_covariant_lifetime | | a mutable C++ reference is covariant in its lifetime
pub fn f<'a>(p: CMut<'static, i32>) -> CMut<'a, i32> { p }
//% cref_not_send | E0277 | C++ references do not cross threads (Send, const)
pub fn need<T: Send>(t: T) {}
pub fn f(c: CRef<'static, i32>, o: &'static i32) {
    need(o); //+
    need(c); //~
}
//% cmut_not_send | E0277 | C++ references do not cross threads (Send, mutable)
pub fn need<T: Send>(t: T) {}
pub fn f(c: CMut<'static, i32>, o: &'static i32) {
    need(o); //+
    need(c); //~
}
//% cref_not_sync | E0277 | C++ references do not cross threads (Sync, const)
pub fn need<T: Sync>(t: T) {}
pub fn f(c: CRef<'static, i32>, o: &'static i32) {
    need(o); //+
    need(c); //~
}
//% cmut_not_sync | E0277 | C++ references do not cross threads (Sync, mutable)
pub fn need<T: Sync>(t: T) {}
pub fn f(c: CMut<'static, i32>, o: &'static i32) {
    need(o); //+
    need(c); //~
}
//% no_deref | E0614 | a C++ reference is not dereferenced in safe code (const)
pub fn f(c: CRef<'static, i32>, p: *const i32) {
    let _ = unsafe { *p }; //+
    let _ = *c; //~
}
//% no_deref_mut | E0614 | a C++ reference is not dereferenced in safe code (mutable)
pub fn f(c: CMut<'static, i32>, p: *const i32) {
    let _ = unsafe { *p }; //+
    let _ = *c; //~
}
//% no_asref | E0277 | a C++ reference gives no safe reference through AsRef/Borrow
pub fn need<T: AsRef<i32>>(t: T) {}
pub fn f(c: CRef<'static, i32>, p: Box<i32>) {
    need(p); //+
    need(c); //~
}
//% private_ptr | E0451 E0616 E0560 E0423 | a C++ reference cannot be forged from parts (const)
pub fn f(p: std::ptr::NonNull<i32>) {
    let _: CRef<'static, i32> = unsafe { CRef::from_ptr(p.as_ptr()) }; //+
    let _: CRef<'static, i32> = CRef { ptr: p, marker: std::marker::PhantomData }; //~
}
//% private_ptr_mut | E0451 E0616 E0560 E0423 | a C++ reference cannot be forged from parts (mutable)
pub fn f(p: std::ptr::NonNull<i32>) {
    let _: CMut<'static, i32> = unsafe { CMut::from_ptr(p.as_ptr()) }; //+
    let _: CMut<'static, i32> = CMut { ptr: p, marker: std::marker::PhantomData }; //~
}
//% ptr_layout | | C++ references have exactly the size of a pointer, and their Option too (ABI of a C++ reference)
const _: () = assert!(size_of::<CRef<'static, i32>>() == size_of::<*const i32>() && align_of::<CRef<'static, i32>>() == align_of::<*const i32>());
const _: () = assert!(size_of::<CMut<'static, i32>>() == size_of::<*const i32>() && align_of::<CMut<'static, i32>>() == align_of::<*const i32>());
const _: () = assert!(size_of::<Option<CRef<'static, i32>>>() == size_of::<*const i32>());
const _: () = assert!(size_of::<Option<CMut<'static, i32>>>() == size_of::<*const i32>());
