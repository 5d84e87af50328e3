//# externs: ctor
#![allow(unused, dead_code, incomplete_features, internal_features)]
#![feature(negative_impls, super_let)]
use ctor::*;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
pub struct Nu(i32, std::marker::PhantomPinned);
pub struct Un(i32);
pub fn mk() -> RustMoveCtor<Nu> { RustMoveCtor::new(Nu(1, std::marker::PhantomPinned)) }
pub fn mku() -> RustMoveCtor<Un> { RustMoveCtor::new(Un(1)) }
pub fn need<T>(t: T) {}
//% emplace_get_mut | E0277 | emplace! never yields an unpinned &mut to a pinned value
pub fn f() {
    let p = emplace!(mk());
    let r = unsafe { p.get_unchecked_mut() }; //+
    let r = p.get_mut(); //~
}
//% emplace_is_pin | E0308 | emplace! yields a Pin
pub fn f() {
    let p: Pin<&mut Un> = emplace!(mku()); //+
    let p: &mut Un = emplace!(mku()); //~
}
//% try_emplace_is_pin | E0308 | try_emplace! yields a Pin
pub fn f() {
    let p: Result<Pin<&mut Un>, Infallible> = try_emplace!(mku()); //+
    let p: Result<&mut Un, Infallible> = try_emplace!(mku()); //~
}
//% emplace_no_move_out | E0507 | an emplaced value cannot be moved out
pub fn f() {
    let p = emplace!(mk());
    let r: &Nu = &*p; //+
    let r: Nu = *p; //~
}
//% emplace_no_assign | E0594 E0277 | an emplaced pinned value cannot be overwritten
pub fn f(n: Nu) {
    let mut p = emplace!(mk());
    unsafe { *p.as_mut().get_unchecked_mut() = n; } //+
    *p = n; //~
}
//% emplace_scope | E0716 E0597 E0515 lifetime | an emplaced value does not outlive its scope
pub fn f<'a>() -> Option<Pin<&'a mut Nu>> {
    let p = emplace!(mk());
    None //+
    Some(p) //~
}
//% try_emplace_scope | E0716 E0597 E0515 lifetime | a fallibly emplaced value does not outlive its scope
pub fn f<'a>() -> Option<Pin<&'a mut Nu>> {
    let p = try_emplace!(mk());
    None //+
    p.ok() //~
}
//% emplace_infallible | E0271 E0277 E0308 | emplace! needs an infallible initializer
pub fn f() {
    let p = emplace!(ctor_error::<Nu, Infallible>(panic!())); //+
    let p = emplace!(ctor_error::<Nu, i32>(3)); //~
}
//% construct_unpin | E0277 | construct() moves only values that may move
pub fn f() {
    let _: Un = construct(mku()); //+
    let _: Nu = construct(mk()); //~
}
//% construct_infallible | E0271 | construct() needs an infallible initializer
pub fn f() {
    let _: Un = construct(mku()); //+
    let _: Un = construct(ctor_error::<Un, i32>(3)); //~
}
//% box_emplace_pinned | E0308 | Box::emplace yields a pinned box
pub fn f() {
    let _: Pin<Box<Nu>> = Box::emplace(mk()); //+
    let _: Box<Nu> = Box::emplace(mk()); //~
}
//% box_try_emplace_pinned | E0308 | Box::try_emplace yields a pinned box
pub fn f() {
    let _: Result<Pin<Box<Nu>>, Infallible> = Box::try_emplace(mk()); //+
    let _: Result<Box<Nu>, Infallible> = Box::try_emplace(mk()); //~
}
//% rc_emplace_pinned | E0308 | Rc::emplace yields a pinned Rc
pub fn f() {
    let _: Pin<Rc<Nu>> = Rc::emplace(mk()); //+
    let _: Rc<Nu> = Rc::emplace(mk()); //~
}
//% rc_try_emplace_pinned | E0308 | Rc::try_emplace yields a pinned Rc
pub fn f() {
    let _: Result<Pin<Rc<Nu>>, Infallible> = Rc::try_emplace(mk()); //+
    let _: Result<Rc<Nu>, Infallible> = Rc::try_emplace(mk()); //~
}
//% arc_emplace_pinned | E0308 | Arc::emplace yields a pinned Arc
pub fn f() {
    let _: Pin<Arc<Nu>> = Arc::emplace(mk()); //+
    let _: Arc<Nu> = Arc::emplace(mk()); //~
}
//% arc_try_emplace_pinned | E0308 | Arc::try_emplace yields a pinned Arc
pub fn f() {
    let _: Result<Pin<Arc<Nu>>, Infallible> = Arc::try_emplace(mk()); //+
    let _: Result<Arc<Nu>, Infallible> = Arc::try_emplace(mk()); //~
}
//% box_emplace_infallible | E0271 | Box::emplace needs an infallible initializer
pub fn f() {
    let _: Pin<Box<Un>> = Box::emplace(mku()); //+
    let _: Pin<Box<Un>> = Box::emplace(ctor_error::<Un, i32>(3)); //~
}
//% ctor_trait_unsafe | E0200 | implementing an initializer is unsafe
pub struct My; impl !SelfCtor for My {}
unsafe impl Ctor for My { type Output = Un; type Error = Infallible; unsafe fn ctor(self, d: *mut Un) -> Result<(), Infallible> { Ok(()) } } //+
impl Ctor for My { type Output = Un; type Error = Infallible; unsafe fn ctor(self, d: *mut Un) -> Result<(), Infallible> { Ok(()) } } //~
//% ctor_call_unsafe | E0133 | running an initializer on a raw destination is unsafe
pub fn f(d: *mut Nu) {
    let _ = unsafe { mk().ctor(d) }; //+
    let _ = mk().ctor(d); //~
}
//% fnctor_new_unsafe | E0133 | wrapping an arbitrary closure as an initializer is unsafe
pub fn f() {
    let _ = unsafe { FnCtor::new(|p: *mut Nu| ()) }; //+
    let _ = FnCtor::new(|p: *mut Nu| ()); //~
}
//% fnctor_literal | E0423 E0603 E0451 E0616 | a closure initializer cannot be forged
pub fn f() {
    let _ = unsafe { FnCtor::new(|p: *mut Nu| ()) }; //+
    let _ = FnCtor(|p: *mut Nu| (), std::marker::PhantomData); //~
}
//% reconstruct_unsafe | E0133 | destroying and re-creating in place is unsafe
pub fn f(p: Pin<&mut Nu>) {
    unsafe { reconstruct(p, mk()) } //+
    reconstruct(p, mk()) //~
}
//% reconstruct_infallible | E0271 | re-creating in place needs an infallible initializer
pub unsafe fn f(p: Pin<&mut Nu>) { unsafe {
    reconstruct(p, mk()) //+
    reconstruct(p, ctor_error::<Nu, i32>(3)) //~
} }
//% init_field_unsafe | E0133 | field initialization of a raw place is unsafe
pub fn f(p: *mut Nu) {
    let _ = unsafe { macro_internal::init_field(p, mk()) }; //+
    let _ = macro_internal::init_field(p, mk()); //~
}
//% drop_guard_private | E0423 E0451 E0603 E0616 | the raw drop guard cannot be forged
pub fn f(p: *mut Nu) {
    let _: Option<macro_internal::UnsafeDropGuard<Nu>> = None; //+
    let _ = macro_internal::UnsafeDropGuard(p); //~
}
//% recursively_pinned_unsafe | E0200 | claiming recursive pinning is unsafe
pub struct My(i32);
unsafe impl RecursivelyPinned for My { type CtorInitializedFields = My; } //+
impl RecursivelyPinned for My { type CtorInitializedFields = My; } //~
//% pinned_drop_unsafe | E0133 | the pinned destructor is unsafe to call
pub fn f<T: PinnedDrop>(p: Pin<&mut T>) {
    unsafe { p.pinned_drop() } //+
    p.pinned_drop() //~
}
//% unsafe_from_unsafe | E0133 | unsafe conversions are unsafe to call
pub fn f<T: UnsafeFrom<i32>>() {
    let _ = unsafe { T::unsafe_from(1) }; //+
    let _ = T::unsafe_from(1); //~
}
//% unsafe_ctor_new_unsafe | E0133 | unsafe constructors are unsafe to call
pub fn f<T: UnsafeCtorNew<i32>>() {
    let _ = unsafe { T::ctor_new(1) }; //+
    let _ = T::ctor_new(1); //~
}
//% mov_unpinned | E0277 E0599 | mov! takes an unpinned &mut only for values that may move
pub fn f(mut a: &mut Un, mut b: &mut Nu) {
    let _ = mov!(a); //+
    let _ = mov!(b); //~
}
//% mov_pinned | | mov! takes any pinned mutable reference
pub fn f(b: Pin<&mut Nu>, c: Pin<Box<Nu>>) { let mut b = b; let mut c = c; let _ = mov!(b); let _ = mov!(c); }
//% mov_shared | E0277 E0599 | mov! never takes a shared reference
pub fn f(mut a: &mut Un, mut b: &Un) {
    let _ = mov!(a); //+
    let _ = mov!(b); //~
}
//% mov_rc | E0277 E0599 | mov! never takes a shared owner
pub fn f(a: Pin<Box<Nu>>, b: Pin<Rc<Nu>>) {
    let (mut a, mut b) = (a, b);
    let _ = mov!(a); //+
    let _ = mov!(b); //~
}
//% rvalue_get_mut | E0277 E0308 | an rvalue reference gives no unpinned &mut
pub fn f(mut r: RvalueReference<Nu>) {
    let _: Pin<&mut Nu> = r.as_mut(); //+
    let _: &mut Nu = r.as_mut(); //~
}
//% rvalue_no_derefmut | E0594 E0596 | an rvalue reference is not mutably dereferenced
pub fn f(mut r: RvalueReference<Un>) {
    r.as_mut().0 = 3; //+
    (*r).0 = 3; //~
}
//% rvalue_from_ref | E0308 | an rvalue reference is only made from a pinned mutable reference
pub fn f<'a>(p: Pin<&'a mut Un>, q: &'a mut Un) {
    let _ = RvalueReference(p); //+
    let _ = RvalueReference(q); //~
}
//% rvalue_exclusive | E0499 E0502 E0505 | an rvalue reference keeps the value exclusively borrowed
pub fn f(p: Pin<&mut Un>) {
    let mut p = p;
    let r = mov!(p);
    p.as_mut().0 = 3; //~
    need(r);
}
//% rvalue_as_mut_reborrow | lifetime | reborrowing an rvalue reference is limited to the borrow
pub fn f<'a, 'b>(r: &'b mut RvalueReference<'a, Un>) -> Pin<&'b mut Un> { r.as_mut() } //+
pub fn f<'a, 'b>(r: &'b mut RvalueReference<'a, Un>) -> Pin<&'a mut Un> { r.as_mut() } //~
//% rvalue_get_ref | lifetime | reading through an rvalue reference is limited to the borrow
pub fn f<'a, 'b>(r: &'b RvalueReference<'a, Un>) -> &'b Un { r.get_ref() } //+
pub fn f<'a, 'b>(r: &'b RvalueReference<'a, Un>) -> &'a Un { r.get_ref() } //~
//% rvalue_as_const | lifetime | a const view of an rvalue reference is limited to the borrow
pub fn f<'a, 'b>(r: &'b RvalueReference<'a, Un>) -> ConstRvalueReference<'b, Un> { r.as_const() } //+
pub fn f<'a, 'b>(r: &'b RvalueReference<'a, Un>) -> ConstRvalueReference<'a, Un> { r.as_const() } //~
//% rvalue_not_copy | E0382 | an rvalue reference is not duplicated
pub fn f(r: RvalueReference<Un>) {
    need(r);
    need(r); //~
}
//% byvalue_not_copy | E0382 | a by-value argument is not duplicated
pub fn f(r: ByValue<Un>) {
    need(r);
    need(r); //~
}
//% byvalue_no_derefmut | E0594 E0596 | a by-value argument is not mutably dereferenced
pub fn f(mut r: ByValue<Un>) {
    let _ = (*r).0; //+
    (*r).0 = 3; //~
}
//% const_rvalue_lifetime | lifetime | a const rvalue reference keeps the lifetime of the value
pub fn f<'a>(mut r: ConstRvalueReference<'a, Un>) -> &'a Un { r.get_ref() } //+
pub fn f<'a>(mut r: ConstRvalueReference<'a, Un>) -> &'static Un { r.get_ref() } //~
//% const_rvalue_no_derefmut | E0594 E0596 | a const rvalue reference is read-only
pub fn f(mut r: ConstRvalueReference<Un>) {
    let _ = r.0.0; //+
    (*r).0 = 3; //~
}
//% slot_is_pinned | E0277 | a slot must stay pinned even when its contents may move
pub fn f(mut s: Slot<Un>) {
    let _ = unsafe { Pin::new_unchecked(&mut s) }; //+
    let _ = Pin::new(&mut s); //~
}
//% slot_fields_private | E0451 E0560 E0616 | a slot's state cannot be forged
pub fn f(s: Pin<&mut Slot<Un>>) {
    let _ = s.as_opt(); //+
    let _ = s.is_initialized; //~
}
//% slot_storage_private | E0451 E0560 E0616 | a slot's storage cannot be read directly
pub fn f(s: Pin<&mut Slot<Un>>) {
    let _ = s.as_opt(); //+
    let _ = &s.maybe_uninit; //~
}
//% slot_mut_pinned | E0308 | a slot hands out pinned access only
pub fn f(s: Pin<&mut Slot<Un>>) {
    let _: Option<Pin<&mut Un>> = s.as_opt_mut(); //+
    let _: Option<&mut Un> = s.as_opt_mut(); //~
}
//% slot_replace_pinned | E0308 | replacing a slot's contents yields pinned access only
pub fn f(s: Pin<&mut Slot<Un>>) {
    let _: Pin<&mut Un> = s.replace(mku()); //+
    let _: &mut Un = s.replace(mku()); //~
}
//% slot_try_replace_pinned | E0308 | replacing a slot's contents yields pinned access only
pub fn f(s: Pin<&mut Slot<Un>>) {
    let _: Result<Pin<&mut Un>, Infallible> = s.try_replace(mku()); //+
    let _: Result<&mut Un, Infallible> = s.try_replace(mku()); //~
}
//% slot_replace_infallible | E0271 | infallible replacement needs an infallible initializer
pub fn f(s: Pin<&mut Slot<Un>>) {
    let _ = s.replace(mku()); //+
    let _ = s.replace(ctor_error::<Un, i32>(3)); //~
}
//% slot_clear_pinned | E0308 E0599 | a slot is cleared only through a pinned mutable reference
pub fn f(s: &mut Slot<Un>, p: Pin<&mut Slot<Un>>) {
    Slot::clear(p); //+
    Slot::clear(s); //~
}
//% slot_clear_shared | E0308 E0599 | a slot is not cleared through a shared reference
pub fn f(s: Pin<&Slot<Un>>, p: Pin<&mut Slot<Un>>) {
    Slot::clear(p); //+
    Slot::clear(s); //~
}
//% slot_clear_while_borrowed | E0499 E0502 | a slot is not cleared while its contents are borrowed
pub fn f(mut s: Pin<&mut Slot<Un>>) {
    let a = s.as_mut().as_opt_mut();
    s.as_mut().clear(); //~
    need(a);
}
//% slot_clear_while_shared | E0502 | a slot is not cleared while its contents are read
pub fn f(mut s: Pin<&mut Slot<Un>>) {
    let a = s.as_opt();
    s.as_mut().clear(); //~
    need(a);
}
//% slot_replace_lifetime | lifetime | access to a slot's contents is limited to the borrow (replace)
pub fn f<'a>(s: Pin<&'a mut Slot<Un>>) -> Pin<&'a mut Un> { s.replace(mku()) } //+
pub fn f<'a>(s: Pin<&'a mut Slot<Un>>) -> Pin<&'static mut Un> { s.replace(mku()) } //~
//% slot_try_replace_lifetime | lifetime | access to a slot's contents is limited to the borrow (try_replace)
pub fn f<'a>(s: Pin<&'a mut Slot<Un>>) -> Pin<&'a mut Un> { s.try_replace(mku()).unwrap() } //+
pub fn f<'a>(s: Pin<&'a mut Slot<Un>>) -> Pin<&'static mut Un> { s.try_replace(mku()).unwrap() } //~
//% slot_as_opt_mut_lifetime | lifetime | access to a slot's contents is limited to the borrow (mutable)
pub fn f<'a>(s: Pin<&'a mut Slot<Un>>) -> Option<Pin<&'a mut Un>> { s.as_opt_mut() } //+
pub fn f<'a>(s: Pin<&'a mut Slot<Un>>) -> Option<Pin<&'static mut Un>> { s.as_opt_mut() } //~
//% slot_as_opt_lifetime | lifetime | access to a slot's contents is limited to the borrow (shared)
pub fn f<'a>(s: &'a Slot<Un>) -> Option<&'a Un> { s.as_opt() } //+
pub fn f<'a>(s: &'a Slot<Un>) -> Option<&'static Un> { s.as_opt() } //~
//% slot_constructors_are_initializers | E0308 | slots are created by initializers, never by value
pub fn f() {
    let _ = emplace!(Slot::<Un>::uninit()); //+
    let _: Slot<Un> = Slot::<Un>::uninit(); //~
}
//% slot_not_send | E0277 | a slot is only as thread-safe as its contents
pub fn ns<T: Send>() {}
pub fn f() {
    ns::<Slot<Un>>(); //+
    ns::<Slot<Rc<i32>>>(); //~
}
//% slot_not_clone | E0277 | a slot is not duplicated
pub fn nc<T: Clone>() {}
pub fn f() {
    nc::<i32>(); //+
    nc::<Slot<i32>>(); //~
}
//% output_mismatch | E0271 E0308 | an initializer builds only its own type
pub fn f() {
    let _: Pin<Box<Nu>> = Box::emplace(mk()); //+
    let _: Pin<Box<Nu>> = Box::emplace(mku()); //~
}
//% manually_drop_output | E0271 E0308 | a ManuallyDrop initializer builds a ManuallyDrop of the same type
pub fn f() {
    let _: Pin<Box<std::mem::ManuallyDrop<Nu>>> = Box::emplace(ManuallyDropCtor::new(mk())); //+
    let _: Pin<Box<Nu>> = Box::emplace(ManuallyDropCtor::new(mk())); //~
}
//% then_is_pinned | E0308 E0631 | a continuation sees the fresh value pinned
pub fn f() {
    let _ = mk().ctor_then(|p: Pin<&mut Nu>| Ok(())); //+
    let _ = mk().ctor_then(|p: &mut Nu| Ok(())); //~
}
//% then_no_escape | lifetime E0521 E0597 | a continuation cannot leak the fresh value's reference
pub fn f() {
    let mut out: Option<Pin<&mut Un>> = None;
    let c = mku().ctor_then(|p: Pin<&mut Un>| { Ok(()) }); //+
    let c = mku().ctor_then(|p: Pin<&mut Un>| { out = Some(p); Ok(()) }); //~
}
//% or_else_output | E0271 | a fallback initializer builds the same type
pub fn f() {
    let _ = ctor_error::<Nu, i32>(3).ctor_or_else(|_| mk()); //+
    let _ = ctor_error::<Nu, i32>(3).ctor_or_else(|_| mku()); //~
}
//% make_fallible_needs_infallible | E0271 | only infallible initializers are relabelled as fallible
pub fn f() {
    let _ = mk().ctor_make_fallible::<u8>(); //+
    let _ = ctor_error::<Nu, i32>(3).ctor_make_fallible::<u8>(); //~
}
//% unwrap_or_default_needs_default | E0277 E0599 | default fallback needs a default constructor
pub struct D(i32); impl Default for D { fn default() -> Self { D(1) } }
pub fn f() {
    let _ = ctor_error::<D, i32>(3).ctor_unwrap_or_default(); //+
    let _ = ctor_error::<Nu, i32>(3).ctor_unwrap_or_default(); //~
}
//% assign_needs_unpin | E0277 E0599 | assignment is not derived for values that must stay pinned
impl Clone for Nu { fn clone(&self) -> Self { loop {} } }
impl Clone for Un { fn clone(&self) -> Self { loop {} } }
pub fn f(a: Pin<&mut Nu>, b: &Nu, c: Pin<&mut Un>, d: &Un) {
    c.assign(d); //+
    a.assign(b); //~
}
//% assign_rvalue_needs_unpin | E0277 E0599 | move assignment is not derived for values that must stay pinned
impl<'a> CtorNew<RvalueReference<'a, Nu>> for Nu { type CtorType = RustMoveCtor<Nu>; type Error = Infallible; fn ctor_new(_: RvalueReference<'a, Nu>) -> RustMoveCtor<Nu> { mk() } }
impl<'a> CtorNew<RvalueReference<'a, Un>> for Un { type CtorType = RustMoveCtor<Un>; type Error = Infallible; fn ctor_new(_: RvalueReference<'a, Un>) -> RustMoveCtor<Un> { mku() } }
pub fn f<'x>(a: Pin<&mut Nu>, b: RvalueReference<'x, Nu>, c: Pin<&mut Un>, d: RvalueReference<'x, Un>) {
    c.assign(d); //+
    a.assign(b); //~
}
//% assign_const_rvalue_needs_unpin | E0277 E0599 | const move assignment is not derived for values that must stay pinned
impl<'a> CtorNew<ConstRvalueReference<'a, Nu>> for Nu { type CtorType = RustMoveCtor<Nu>; type Error = Infallible; fn ctor_new(_: ConstRvalueReference<'a, Nu>) -> RustMoveCtor<Nu> { mk() } }
impl<'a> CtorNew<ConstRvalueReference<'a, Un>> for Un { type CtorType = RustMoveCtor<Un>; type Error = Infallible; fn ctor_new(_: ConstRvalueReference<'a, Un>) -> RustMoveCtor<Un> { mku() } }
pub fn f<'x>(a: Pin<&mut Nu>, b: ConstRvalueReference<'x, Nu>, c: Pin<&mut Un>, d: ConstRvalueReference<'x, Un>) {
    c.assign(d); //+
    a.assign(b); //~
}
//% clone_source_shared | E0277 | copy construction needs Clone
#[derive(Clone)] pub struct Cl(i32);
pub fn f(a: &Cl, b: &Nu) {
    let _ = copy(a); //+
    let _ = copy(b); //~
}
//% selfctor_rvalue | E0277 | an rvalue reference never initializes itself as a value
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<RvalueReference<'static, Un>>(); //~
}
//% selfctor_const_rvalue | E0277 | a const rvalue reference never initializes itself as a value
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<ConstRvalueReference<'static, Un>>(); //~
}
//% selfctor_byvalue | E0277 | a by-value argument never initializes itself as a value
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<ByValue<'static, Un>>(); //~
}
//% selfctor_copy | E0277 | a copy request never initializes itself as a value
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<ctor::Copy<&'static Un>>(); //~
}
//% selfctor_rustmove | E0277 | initializers are not values (move)
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<RustMoveCtor<i32>>(); //~
}
//% selfctor_error | E0277 | initializers are not values (error)
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<CtorError<i32, i32>>(); //~
}
//% selfctor_unreachable | E0277 | initializers are not values (unreachable)
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<UnreachableCtor<i32>>(); //~
}
//% selfctor_manually_drop | E0277 | initializers are not values (manually drop)
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<ManuallyDropCtor<RustMoveCtor<i32>>>(); //~
}
//% selfctor_containing | E0277 | a struct holding an initializer is not a value
pub struct H(RustMoveCtor<i32>);
pub fn sc<T: SelfCtor>() {}
pub fn f() {
    sc::<i32>(); //+
    sc::<H>(); //~
}
//% rvalue_layout | | reference wrappers are pointer-sized (ABI of a C++ reference)
const _: () = assert!(size_of::<RvalueReference<'static, Un>>() == size_of::<*const i32>());
const _: () = assert!(size_of::<ConstRvalueReference<'static, Un>>() == size_of::<*const i32>());
const _: () = assert!(size_of::<ByValue<'static, Un>>() == size_of::<*const i32>());
