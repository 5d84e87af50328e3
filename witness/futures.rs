//# externs: erased_future dyn_erased_future dyn_future cpp_waker
#![allow(unused, dead_code)]
use erased_future::ErasedFuture;
use dyn_erased_future::DynErasedFuture;
use dyn_future::DynFuture;
use cpp_waker::rs_std::CppWaker;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
type BoxFut<'a> = Pin<Box<dyn Future<Output = ()> + Send + 'a>>;
pub struct NotAFuture;
pub struct Fut;
impl Future for Fut { type Output = i32; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<i32> { Poll::Pending } }
fn needs_send<T: Send>(_: T) {}
//% erased_only_futures | E0277 | only a real future can be type-erased
pub fn f() {
    let _: Box<dyn ErasedFuture> = Box::new(Fut); //+
    let _: Box<dyn ErasedFuture> = Box::new(NotAFuture); //~
}
//% erased_sealed | E0277 E0119 | the erased trait cannot be implemented by hand
pub struct Mine;
impl Future for Mine { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending } } //+
impl ErasedFuture for Mine { unsafe fn poll_erased(self: Pin<&mut Self>, _: &mut Context<'_>, _: *mut ()) -> Poll<()> { Poll::Pending } } //~
pub fn f() { let _: Box<dyn ErasedFuture> = Box::new(Mine); } //+
//% erased_send | E0277 | a future that is not Send cannot be type-erased
pub fn f() {
    let c = Cell::new(1); //+
    let c = Rc::new(1); //~
    let _: Box<dyn ErasedFuture> = Box::new(async move { std::future::pending::<()>().await; drop(c); }); //^
}
//% erased_poll_unsafe | E0133 | polling an erased future into a raw pointer is unsafe
pub fn f(x: Pin<&mut dyn ErasedFuture>, cx: &mut Context<'_>, o: *mut ()) {
    let _ = unsafe { x.poll_erased(cx, o) }; //+
    let _ = x.poll_erased(cx, o); //~
}
//% erased_poll_pinned | E0308 E0599 | an erased future is only polled through a pin
pub unsafe fn f(x: Pin<&mut dyn ErasedFuture>, y: &mut dyn ErasedFuture, cx: &mut Context<'_>, o: *mut ()) { unsafe {
    let _ = x.poll_erased(cx, o); //+
    let _ = y.poll_erased(cx, o); //~
} }
//% erased_dyn_is_send | | a type-erased future may move to another thread
pub fn f(x: Box<dyn ErasedFuture>) { needs_send(x); }
//% de_new_send | E0277 | an owned erased future is built from Send futures only
pub fn f() {
    let c = Cell::new(1); //+
    let c = Rc::new(1); //~
    let _ = DynErasedFuture::new(async move { std::future::pending::<()>().await; drop(c); }); //^
}
//% de_new_future | E0277 | an owned erased future is built from futures only
pub fn f() {
    let _ = DynErasedFuture::new(Fut); //+
    let _ = DynErasedFuture::new(NotAFuture); //~
}
//% de_lifetime | E0597 lifetime | an owned erased future does not outlive what its future borrows
pub fn f() {
    let x = 1; //+
    let _h: DynErasedFuture<'_>;
    {
    let x = 1; //~
    let r = &x; //^
    _h = DynErasedFuture::new(async move { std::future::pending::<()>().await; drop(r); });
    }
}
//% de_no_extend | lifetime | the lifetime of an owned erased future cannot be lengthened
pub fn f<'a>(x: DynErasedFuture<'static>, y: DynErasedFuture<'a>) -> DynErasedFuture<'static> {
    x //+
    y //~
}
//% de_opaque | E0423 E0603 | an owned erased future cannot be forged
pub fn f(b: Pin<Box<dyn ErasedFuture + Send>>) -> DynErasedFuture<'static> {
    DynErasedFuture::new(Fut) //+
    dyn_erased_future::DynErasedFuture(b) //~
}
//% de_no_inner | E0616 | the boxed future inside an owned erased future is not reachable
pub fn f(x: &mut DynErasedFuture<'static>) {
    let _ = &mut *x; //+
    let _ = &mut x.0; //~
}
//% de_no_clone | E0599 | an owned erased future has one owner
pub fn f(x: DynErasedFuture<'static>) {
    let _y = x; //+
    let _y = x.clone(); //~
}
//% de_is_send | | an owned erased future may move to another thread
pub fn f(x: DynErasedFuture<'static>) { needs_send(x); }
//% df_send | E0277 | an owned unit future is built from Send futures only
pub fn f() {
    let c = Cell::new(1); //+
    let c = Rc::new(1); //~
    let _ = DynFuture::from_future(async move { std::future::pending::<()>().await; drop(c); }); //^
}
//% df_unit | E0271 E0308 | an owned unit future has unit output
pub fn f() {
    let _ = DynFuture::from_future(async {}); //+
    let _ = DynFuture::from_future(async { 1 }); //~
}
//% df_lifetime | E0597 | an owned unit future does not outlive what its future borrows
pub fn f() {
    let x = 1; //+
    let _h: DynFuture<'_>;
    {
    let x = 1; //~
    let r = &x; //^
    _h = DynFuture::from_future(async move { std::future::pending::<()>().await; drop(r); });
    }
}
//% df_no_extend | lifetime | the lifetime of an owned unit future cannot be lengthened
pub fn f<'a>(x: DynFuture<'static>, y: DynFuture<'a>) -> DynFuture<'static> {
    x //+
    y //~
}
//% df_poll_unsafe | E0133 | polling with a raw waker pointer is unsafe
pub fn f(x: &mut DynFuture<'static>, w: *const CppWaker) {
    let _ = unsafe { x.poll(w) }; //+
    let _ = x.poll(w); //~
}
//% df_poll_exclusive | E0596 | polling needs exclusive access
pub unsafe fn f(m: &mut DynFuture<'static>, s: &DynFuture<'static>, w: *const CppWaker) { unsafe {
    let _ = m.poll(w); //+
    let _ = s.poll(w); //~
} }
//% df_discard_exclusive | E0596 | discarding needs exclusive access
pub fn f(m: &mut DynFuture<'static>, s: &DynFuture<'static>) {
    m.discard(); //+
    s.discard(); //~
}
//% df_no_inner | E0616 | the boxed future inside an owned unit future is not reachable while it is polled
pub fn f(x: &mut DynFuture<'static>) {
    let _ = x.is_completed_or_discarded(); //+
    let _ = &mut x.0; //~
}
//% df_into_keeps_lifetime | E0308 lifetime | taking the future out keeps its lifetime
pub fn f<'a>(x: DynFuture<'a>, y: DynFuture<'a>) {
    let _: Option<BoxFut<'a>> = x.into(); //+
    let _: Option<BoxFut<'static>> = y.into(); //~
}
//% df_into_consumes | E0382 | taking the future out gives up the wrapper
pub unsafe fn f(mut x: DynFuture<'static>, w: *const CppWaker) {
    unsafe { x.poll(w) }; //+
    let _o: Option<BoxFut<'static>> = x.into();
    unsafe { x.poll(w) }; //~
}
//% df_no_clone | E0599 | an owned unit future has one owner
pub fn f(x: DynFuture<'static>) {
    let _y = x; //+
    let _y = x.clone(); //~
}
//% df_is_send | | an owned unit future may move to another thread
pub fn f(x: DynFuture<'static>) { needs_send(x); }
