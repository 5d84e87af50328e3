exec(open("/verif/notes/seeds/pre.py").read())
G = "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"
C = "support/ctor.rs"
CT = r'''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export RUSTC_BOOTSTRAP=1
R="rustc +nightly-2026-08-20 --edition 2024 -Awarnings --out-dir $t -L $t"
pm=$(find /repo/target/debug -name 'libctor_proc_macros-*.so' | head -1)
R="$R -L dependency=$(dirname $pm)"
$R --crate-type rlib --crate-name ctor /repo/support/ctor.rs --extern ctor_proc_macros=$pm || exit 3
$R --crate-name prog $here/main.rs --extern ctor=$t/libctor.rlib || exit 3
ulimit -c 0
timeout 60 $t/prog 2>$t/err; rc=$?
'''
PRE = '''use ctor::*;
use std::cell::RefCell;
use std::convert::Infallible;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
thread_local! { static LIVE: RefCell<Vec<usize>> = RefCell::new(vec![]); static BAD: RefCell<bool> = RefCell::new(false); }
/// a value that knows whether it is alive
struct V(#[allow(unused)] u64);
impl !Unpin for V {}
impl !SelfCtor for V {}
impl V { fn make() -> impl Ctor<Output = V, Error = Infallible> { unsafe { FnCtor::new(|p: *mut V| { p.write(V(7)); LIVE.with(|l| l.borrow_mut().push(p as usize)); }) } }
         fn boom() -> impl Ctor<Output = V, Error = Infallible> { unsafe { FnCtor::new(|_: *mut V| panic!("boom")) } } }
impl Drop for V { fn drop(&mut self) { let a = self as *mut V as usize; LIVE.with(|l| { let mut l = l.borrow_mut(); match l.iter().position(|x| *x == a) { Some(i) => { l.remove(i); } None => BAD.with(|b| *b.borrow_mut() = true) } }) } }
fn ok() -> bool { LIVE.with(|l| l.borrow().is_empty()) && BAD.with(|b| !*b.borrow()) }
'''
FEAT = "#![feature(negative_impls)]\n"
seed(ID="s38-arc-early", PROP="P02",
 NEEDS="Arc::try_emplace of a constructor that fails",
 BREAKS="the Arc is typed as initialised before its value exists: a failed constructor drops an uninitialised value",
 EDITS=[(C, """            ctor.ctor(Arc::as_ptr(&uninit).cast_mut().cast::<T>())?;
            Ok(Pin::new_unchecked(uninit.assume_init()))""", """            let shared = uninit.assume_init();
            ctor.ctor(Arc::as_ptr(&shared).cast_mut())?;
            Ok(Pin::new_unchecked(shared))""")],
 FILES={"demo.sh": CT + 'exit $rc\n', "main.rs": FEAT + PRE + '''use std::sync::Arc;
struct Fails;
impl !SelfCtor for Fails {}
unsafe impl Ctor for Fails { type Output = V; type Error = u8; unsafe fn ctor(self, _: *mut V) -> Result<(), u8> { Err(3) } }
fn main() {
    let r: Result<Pin<Arc<V>>, u8> = Arc::try_emplace(Fails);
    let e = matches!(r, Err(3));
    drop(r);
    { let _p: Pin<Arc<V>> = Arc::emplace(V::make()); }
    std::process::exit(if e && ok() { 0 } else { 1 });
}
'''})
seed(ID="s39-slot-flag-early", PROP="P02",
 NEEDS="replacing the value of a slot by one whose constructor fails or panics, then dropping the slot",
 BREAKS="the slot is marked occupied before its value exists: a failed constructor leaves a slot that drops garbage",
 EDITS=[(C, """            unsafe {
                value.ctor(maybe_uninit.as_mut_ptr())?;
            }
            *is_initialized = true;""", """            *is_initialized = true;
            unsafe {
                value.ctor(maybe_uninit.as_mut_ptr())?;
            }""")],
 FILES={"demo.sh": CT + 'exit $rc\n', "main.rs": FEAT + PRE + '''fn main() {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut s = emplace!(Slot::new(V::make()));
        s.as_mut().replace(V::boom());
    }));
    std::process::exit(if r.is_err() && ok() { 0 } else { 1 });
}
'''})
seed(ID="s40-bomb-defused", PROP="P02",
 NEEDS="reconstructing a value in place with a constructor that panics, in a program that catches the panic",
 BREAKS="the guard that aborts on unwinding is disarmed before the callback runs, so the old value is dropped a second time",
 EDITS=[(C, """    let rv = f();
    core::mem::forget(bomb);
    rv""", """    core::mem::forget(bomb);
    f()""")],
 FILES={"demo.sh": CT + '[ $rc -gt 1 ] && exit 0 || { echo "the panic escaped from reconstruct"; exit 1; }\n', "main.rs": FEAT + PRE + '''fn main() {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b: Pin<Box<V>> = Box::emplace(V::make());
        unsafe { reconstruct(b.as_mut(), V::boom()) };
    }));
    std::process::exit(if r.is_err() && ok() { 0 } else { 1 });
}
'''})
RUN = "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 --default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h || exit 3\ntouch $t/core.h $t/std.h $t/alloc.h\nprog lib0 || { echo 'the bindings do not compile'; exit 1; }\ntimeout 60 $t/prog || { echo 'wrong value'; exit 1; }\n"
seed(ID="s41-const-u16-range", PROP="P35",
 NEEDS="an unsigned constant wider than 16 bits with a value between 32768 and 65535",
 BREAKS="the value is printed through i16 and becomes negative, so the C++ constant is a huge number",
 EDITS=[(G, "        if value < (i16::MAX as u128) {", "        if value <= (u16::MAX as u128) {")],
 FILES={"demo.sh": E2E + RUN, "lib0.rs": '''pub struct S(pub i32);
pub const A: u32 = 40_000;
pub const B: u64 = 65_535;
pub const C: u32 = 12;
''', "main.cc": '''#include "lib0.h"
int main() { return lib0::A == 40000u && lib0::B == 65535u && lib0::C == 12u ? 0 : 1; }
'''})
seed(ID="s42-const-i64-min", PROP="P35",
 NEEDS="a 64-bit constant below the 32-bit minimum that is not the 64-bit minimum",
 BREAKS="every such constant is emitted as INT64_MIN",
 EDITS=[(G, """        TyKind::Int(I64) => {
            let value = scalar.to_i64();
            if value == i64::MIN {""", """        TyKind::Int(I64) => {
            let value = scalar.to_i64();
            if value < i64::from(i32::MIN) {""")],
 FILES={"demo.sh": E2E + RUN, "lib0.rs": '''pub struct S(pub i32);
pub const A: i64 = -5_000_000_000;
pub const B: i64 = i64::MIN;
pub const C: i64 = -12;
''', "main.cc": '''#include "lib0.h"
int main() { return lib0::A == -5000000000 && lib0::B == INT64_MIN && lib0::C == -12 ? 0 : 1; }
'''})
