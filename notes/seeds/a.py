# witness-style demos: compile client programs against the real support crate
LIB = r'''
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
R="rustc +nightly-2026-08-20 --edition 2024 -Awarnings --out-dir $t -L $t"
export RUSTC_BOOTSTRAP=1
'''
seed(ID="s01-upcast-lifetime", PROP="P03",
 NEEDS="a client that keeps the upcast pinned reference beyond the borrow of the derived object",
 BREAKS="the pinned upcast no longer ties the result's lifetime to the source's, so safe code obtains a dangling Pin<&mut Base>",
 EDITS=[("support/oops.rs", """impl<'a, Derived, Base> Upcast<Pin<&'a mut Base>> for Pin<&'a mut Derived>
where
    Derived: Inherits<Base>,
{
    fn upcast(self: Pin<&'a mut Derived>) -> Pin<&'a mut Base> {""", """impl<'a, 'b, Derived, Base> Upcast<Pin<&'b mut Base>> for Pin<&'a mut Derived>
where
    Derived: Inherits<Base>,
    Base: 'b,
{
    fn upcast(self: Pin<&'a mut Derived>) -> Pin<&'b mut Base> {""")],
 FILES={"demo.sh": "#!/bin/bash" + LIB + r'''
$R --crate-type lib --crate-name oops /repo/support/oops.rs || exit 3
$R --crate-type lib "$here/good.rs" --extern oops=$t/liboops.rlib || exit 3
if $R --crate-type lib "$here/bad.rs" --extern oops=$t/liboops.rlib 2>$t/err; then echo "dangling upcast accepted by the compiler"; exit 1; fi
exit 0
''', "good.rs": r'''
use oops::*; use std::pin::Pin;
pub fn up<'a, D: Inherits<B>, B>(d: Pin<&'a mut D>) -> Pin<&'a mut B> { d.upcast() }
''', "bad.rs": r'''
use oops::*; use std::pin::Pin;
pub fn up<D: Inherits<B>, B>(d: Pin<&mut D>) -> Pin<&'static mut B> { d.upcast() }
'''})
seed(ID="s02-cref-send", PROP="P04",
 NEEDS="a CRef whose referent is mutated through a CMut on another thread; only visible to a client that moves a CRef to a thread",
 BREAKS="CRef<T> becomes Send for every T: Sync although its referent may be mutated concurrently",
 EDITS=[("support/cref.rs", "unsafe impl<'a, T: ThreadSafe + ?Sized> Send for CRef<'a, T> {}", "unsafe impl<'a, T: Sync + ?Sized> Send for CRef<'a, T> {}")],
 FILES={"demo.sh": "#!/bin/bash" + LIB + r'''
$R --crate-type lib --crate-name cref /repo/support/cref.rs || exit 3
if $R --crate-type bin "$here/bad.rs" --extern cref=$t/libcref.rlib -o $t/bad 2>$t/err; then echo "CRef<Plain> may be sent to another thread while a CMut aliases it"; exit 1; fi
grep -Eq "cannot be sent|ThreadSafe" $t/err || { cat $t/err; exit 3; }
exit 0
''', "bad.rs": r'''
use cref::*;
pub struct Plain(pub u64);
fn main() {
    let mut v = Plain(1);
    let m = CMut::from_ref(&mut v);
    let c: CRef<Plain> = CMut::into_const(m);
    std::thread::scope(|s| { s.spawn(move || { let c = c; let _ = CRef::as_ptr(c); }); });
    let _ = CMut::as_mut_ptr(m);
}
'''})
seed(ID="s03-array-name", PROP="P05",
 NEEDS="two arrays of the same C++ element type but different lengths",
 BREAKS="the conversion identity of an array forgets its length, so arrays of different length are considered the same type",
 EDITS=[("support/forward_declare.rs", "type Name = ([(); N], T::Name);", "type Name = ([(); 1], T::Name);")],
 FILES={"demo.sh": "#!/bin/bash" + LIB + r'''
$R --crate-type lib --crate-name forward_declare_proc_macros "$here/pm.rs" || exit 3
$R --crate-type lib --crate-name forward_declare --extern forward_declare_proc_macros=$t/libforward_declare_proc_macros.rlib /repo/support/forward_declare.rs || exit 3
if $R --crate-type lib "$here/bad.rs" --extern forward_declare=$t/libforward_declare.rlib 2>$t/err; then echo "reference to a longer array accepted"; exit 1; fi
grep -q E0271 $t/err || { cat $t/err; exit 3; }
exit 0
''', "pm.rs": r'''
#[macro_export] macro_rules! symbol { ($e:expr) => { () } }
#[macro_export] macro_rules! forward_declare { ($e:expr) => { } }
''', "bad.rs": r'''
use forward_declare::*;
pub struct N; pub struct A(u8); pub struct B(u8);
unsafe impl internal::CppType for A { type Name = N; }
unsafe impl internal::CppType for B { type Name = N; }
pub fn f<'a>(x: &'a [A; 1]) -> &'a [B; 4] { x.cpp_coerce() }
'''})
seed(ID="s04-future-send", PROP="P06",
 NEEDS="a future that holds a non-Send value (an Rc) across an await point",
 BREAKS="a future that is not Send can be erased and then polled from another thread",
 EDITS=[("support/rs_std/dyn_erased_future.rs", "    pub fn new<T>(future: impl Future<Output = T> + Send + 'a) -> Self {\n        DynErasedFuture(Box::pin(future))\n    }",
 "    pub fn new<T>(future: impl Future<Output = T> + 'a) -> Self {\n        DynErasedFuture(Box::pin(PollThread(future)))\n    }"),
 ("support/rs_std/dyn_erased_future.rs", "/// Initializes a new, empty `DynErasedFuture` in the provided storage.", """/// The polling side of a `DynErasedFuture`.
struct PollThread<F>(F);

// SAFETY: the future is only polled by whoever owns the `DynErasedFuture`.
unsafe impl<F> Send for PollThread<F> {}

impl<F: Future> Future for PollThread<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<F::Output> {
        // SAFETY: `F` is structurally pinned.
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

/// Initializes a new, empty `DynErasedFuture` in the provided storage.""")],
 FILES={"demo.sh": "#!/bin/bash" + LIB + r'''
$R --crate-type lib --crate-name erased_future /repo/support/rs_std/erased_future.rs || exit 3
$R --crate-type lib --crate-name dyn_erased_future --extern erased_future=$t/liberased_future.rlib /repo/support/rs_std/dyn_erased_future.rs || exit 3
E="--extern dyn_erased_future=$t/libdyn_erased_future.rlib"
$R --crate-type lib "$here/good.rs" $E || exit 3
if $R --crate-type lib "$here/bad.rs" $E 2>$t/err; then echo "a !Send future was erased"; exit 1; fi
grep -q "cannot be sent" $t/err || { cat $t/err; exit 3; }
exit 0
''', "good.rs": r'''
pub fn f() -> dyn_erased_future::DynErasedFuture<'static> { dyn_erased_future::DynErasedFuture::new(async { 1 }) }
''', "bad.rs": r'''
pub fn f(r: std::rc::Rc<u8>) -> dyn_erased_future::DynErasedFuture<'static> {
    dyn_erased_future::DynErasedFuture::new(async move { std::future::pending::<()>().await; *r })
}
'''})
seed(ID="s05-tuple-size", PROP="P07",
 NEEDS="a tuple format with three or more elements",
 BREAKS="the wire size of a three-tuple leaves out its last element, so the buffer is too small",
 EDITS=[], FILES={}) if False else None
