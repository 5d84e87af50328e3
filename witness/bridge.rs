//# externs: bridge_rust=crubit_bridge_rust dyn_callable=dyn_callable_rs operator decltype_cast
#![allow(unused, dead_code)]
use bridge_rust::{transmute_abi, CrubitAbi, Decoder, Encoder, OptionAbi, TransmuteAbi};
use dyn_callable::{DynCallableAbi, FunctionToCall};
use operator::{CcIndex, CcIndexMut, Delete};
use decltype_cast::decltype_cast;
use std::pin::Pin;
pub struct Cont { v: [i32; 2] }
impl CcIndex<usize> for Cont { type Output<'c> = &'c i32; fn cc_index<'c>(&'c self, k: usize) -> &'c i32 { &self.v[k] } }
impl CcIndexMut<usize> for Cont { type Output<'c> = &'c mut i32; fn cc_index_mut<'c>(self: Pin<&'c mut Self>, k: usize) -> &'c mut i32 { &mut self.get_mut().v[k] } }
pub struct D;
unsafe impl Delete for D { unsafe fn delete(p: *mut Self) {} }
pub struct MyAbi;
//% abi_unsafe_trait | E0200 | agreeing on a wire format is an unsafe promise
unsafe impl CrubitAbi for MyAbi { //+
impl CrubitAbi for MyAbi { //~
    type Value = ();
    const SIZE: usize = 0;
    fn encode(self, v: (), e: &mut Encoder) {}
    unsafe fn decode(self, d: &mut Decoder) {}
}
//% abi_decode_unsafe | E0133 | decoding trusts the other side's bytes, so it is unsafe
pub fn f(d: &mut Decoder) {
    let _: i32 = unsafe { transmute_abi().decode(d) }; //+
    let _: i32 = transmute_abi().decode(d); //~
}
//% abi_internal_encode_unsafe | E0133 | encoding into a raw buffer is unsafe
pub fn f(b: *mut u8) {
    unsafe { bridge_rust::internal::encode(transmute_abi::<i32>(), b, 1) } //+
    bridge_rust::internal::encode(transmute_abi::<i32>(), b, 1) //~
}
//% abi_internal_decode_unsafe | E0133 | decoding from a raw buffer is unsafe
pub fn f(b: *mut u8) -> i32 {
    unsafe { bridge_rust::internal::decode(transmute_abi::<i32>(), b) } //+
    bridge_rust::internal::decode(transmute_abi::<i32>(), b) //~
}
//% abi_encode_consumes | E0382 | encoding takes ownership of the value
pub fn f(e: &mut Encoder, s: String) {
    drop(s.len()); //+
    transmute_abi::<String>().encode(s, e);
    drop(s.len()); //~
}
//% abi_encode_typed | E0308 | a wire format only accepts its own value type
pub fn f(e: &mut Encoder) {
    OptionAbi(transmute_abi::<i32>()).encode(Some(1i32), e); //+
    OptionAbi(transmute_abi::<i32>()).encode(Some(1i64), e); //~
}
//% abi_decode_typed | E0308 | a wire format only produces its own value type
pub unsafe fn f(d: &mut Decoder) { unsafe {
    let _: Option<i32> = OptionAbi(transmute_abi::<i32>()).decode(d); //+
    let _: Option<i64> = OptionAbi(transmute_abi::<i32>()).decode(d); //~
} }
//% abi_tuple_typed | E0308 | tuple elements are bridged position by position
pub fn f(e: &mut Encoder) {
    (transmute_abi::<i32>(), transmute_abi::<bool>()).encode((1, true), e); //+
    (transmute_abi::<i32>(), transmute_abi::<bool>()).encode((true, 1), e); //~
}
//% abi_encoder_opaque | E0616 | the encoder position cannot be tampered with
pub fn f(e: &mut Encoder) {
    transmute_abi::<i32>().encode(1, e); //+
    e.remaining_bytes = 100; //~
}
//% abi_decoder_opaque | E0616 | the decoder position cannot be tampered with
pub unsafe fn f(d: &mut Decoder) { unsafe {
    let _: i32 = transmute_abi().decode(d); //+
    d.buf = std::ptr::null(); //~
} }
//% abi_encoder_no_forge | E0451 | an encoder cannot be pointed at an arbitrary buffer
pub unsafe fn f(b: *mut u8) { unsafe {
    bridge_rust::internal::encode(transmute_abi::<i32>(), b, 1); //+
    let _ = Encoder { remaining_bytes: 4, buf: b }; //~
} }
//% abi_sizes | | the wire size is the sum of the parts, with one flag byte per optional
const _: () = {
    assert!(<TransmuteAbi<u64> as CrubitAbi>::SIZE == 8);
    assert!(<OptionAbi<TransmuteAbi<u64>> as CrubitAbi>::SIZE == 9);
    assert!(<OptionAbi<OptionAbi<TransmuteAbi<u16>>> as CrubitAbi>::SIZE == 4);
    assert!(<() as CrubitAbi>::SIZE == 0);
    assert!(<(TransmuteAbi<u8>, TransmuteAbi<u32>) as CrubitAbi>::SIZE == 5);
    assert!(<(TransmuteAbi<u8>, TransmuteAbi<u32>, OptionAbi<TransmuteAbi<u64>>) as CrubitAbi>::SIZE == 14);
    assert!(<DynCallableAbi<dyn FnOnce()> as CrubitAbi>::SIZE == 24);
};
//% abi_values | | optionals and tuples carry the corresponding Rust values
fn value<A: CrubitAbi<Value = V>, V>() {}
pub fn f() {
    value::<TransmuteAbi<String>, String>();
    value::<OptionAbi<TransmuteAbi<String>>, Option<String>>();
    value::<(OptionAbi<TransmuteAbi<u8>>, TransmuteAbi<i8>), (Option<u8>, i8)>();
    value::<DynCallableAbi<dyn Fn(i32) -> u8>, Box<dyn Fn(i32) -> u8>>();
}
//% callable_fallback_typed | E0308 | the moved-from fallback has the callable's own signature
pub fn f() {
    let _: DynCallableAbi<dyn Fn(i32)> = DynCallableAbi::new(Box::new(|_: i32| {})); //+
    let _: DynCallableAbi<dyn Fn(i32)> = DynCallableAbi::new(Box::new(|| {}) as Box<dyn Fn()>); //~
}
//% callable_fallback_required | E0423 E0451 E0639 E0560 E0063 | a callable wire format always has a moved-from fallback
pub fn f() -> DynCallableAbi<dyn Fn()> {
    DynCallableAbi::new(Box::new(|| {})) //+
    DynCallableAbi::<dyn Fn()> {} //~
}
//% callable_manager_unsafe | E0133 | relocating or disposing of a callable is unsafe
pub fn f(a: *mut Box<dyn Fn()>, b: *mut Box<dyn Fn()>) {
    unsafe { dyn_callable::manager(FunctionToCall::Dispose, a, b) } //+
    dyn_callable::manager(FunctionToCall::Dispose, a, b) //~
}
//% callable_manager_typed | E0308 | the manager relocates between slots of one type
pub unsafe fn f(a: *mut Box<dyn Fn()>, b: *mut Box<dyn Fn()>, c: *mut Box<dyn Fn(i32)>) { unsafe {
    dyn_callable::manager(FunctionToCall::RelocateFromTo, a, b); //+
    dyn_callable::manager(FunctionToCall::RelocateFromTo, a, c); //~
} }
//% moved_from_diverges | E0308 | calling a moved-from callable never returns
pub fn f() -> String {
    dyn_callable::moved_from_panic() //+
    std::convert::identity(()) //~
}
//% index_tied | E0505 | an element obtained by indexing keeps its container borrowed
pub fn f(c: Cont) {
    drop(c); //+
    let c = Cont { v: [1, 2] }; //+
    let r = c.cc_index(0);
    drop(c); //~
    let _ = *r;
}
//% index_mut_exclusive | E0499 | two mutable elements are never obtained from one container
pub fn f(mut c: Pin<&mut Cont>) {
    let a = c.as_mut().cc_index_mut(0);
    *a = 1; //+
    let b = c.as_mut().cc_index_mut(1); //^
    *a = 2; //~
    *b = 3;
}
//% index_mut_vs_shared | E0502 | a shared element is not usable across a mutable indexing
pub fn f(mut c: Pin<&mut Cont>) {
    let a = c.cc_index(0); //^
    let _ = *a; //+
    *c.as_mut().cc_index_mut(1) = 2; //^
    let _ = *a; //~
}
//% index_mut_needs_pin | E0308 E0599 | mutable indexing only goes through a pinned reference
pub fn f(mut c: Pin<&mut Cont>, d: &mut Cont) {
    let _ = CcIndexMut::cc_index_mut(c.as_mut(), 0usize); //+
    let _ = CcIndexMut::cc_index_mut(d, 0usize); //~
}
//% index_mut_needs_mut | E0277 E0308 | mutable indexing needs a mutable reference
pub fn f(mut c: Pin<&mut Cont>, d: Pin<&Cont>) {
    let _: &mut i32 = <Cont as CcIndexMut<usize>>::cc_index_mut(c.as_mut(), 0); //+
    let _: &mut i32 = <Cont as CcIndexMut<usize>>::cc_index_mut(d, 0); //~
}
//% delete_unsafe_trait | E0200 | claiming C++ delete semantics is an unsafe promise
pub struct E;
unsafe impl Delete for E { unsafe fn delete(p: *mut Self) {} } //+
impl Delete for E { unsafe fn delete(p: *mut Self) {} } //~
//% delete_unsafe_call | E0133 | deleting through a raw pointer is unsafe
pub fn f(p: *mut D) {
    unsafe { D::delete(p) } //+
    D::delete(p) //~
}
//% decltype_no_capture | E0308 | the type witness is a plain function that captures nothing
pub fn f(p: *mut (), x: i32) {
    let _ = decltype_cast(|| 1, p); //+
    let _ = decltype_cast(move || x, p); //~
}
//% decltype_type | E0308 | the cast pointer has exactly the witnessed type
pub fn f(p: *mut ()) {
    let _: *mut i32 = decltype_cast(|| 1i32, p); //+
    let _: *mut i64 = decltype_cast(|| 1i32, p); //~
}
//% decltype_deref_unsafe | E0133 | the cast itself gives no access to the pointee
pub fn f(p: *mut ()) {
    let _: i32 = unsafe { *decltype_cast(|| 1i32, p) }; //+
    let _: i32 = *decltype_cast(|| 1i32, p); //~
}
