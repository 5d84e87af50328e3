exec(open("/verif/notes/seeds/pre.py").read())
MIX = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /var/tmp/demo-XXXXXX); trap 'rm -rf "$t"' EXIT
RC="rustc +nightly-2026-08-20 --edition 2024 -Awarnings --out-dir $t -L $t -C panic=abort -C overflow-checks=off"
'''
seed(ID="s14-option-size", PROP="P08",
 NEEDS="an optional bridged value whose inner format is smaller than the Rust type it stands for (a tuple with padding)",
 BREAKS="Rust computes another buffer size than C++ and so places the parts at other offsets",
 EDITS=[("support/crubit_bridge_rust/src/bridge.rs", """    type Value = Option<A::Value>;

    const SIZE: usize = mem::size_of::<bool>() + A::SIZE;

    fn encode(self, value: Self::Value, encoder: &mut Encoder) {
        if let Some(inner) = value {
            transmute_abi().encode(true, encoder);
            self.0.encode(inner, encoder);
        } else {
            transmute_abi().encode(false, encoder);
        }
    }

    unsafe fn""", """    type Value = Option<A::Value>;

    const SIZE: usize = mem::size_of::<bool>() + mem::size_of::<A::Value>();

    fn encode(self, value: Self::Value, encoder: &mut Encoder) {
        if let Some(inner) = value {
            transmute_abi().encode(true, encoder);
            self.0.encode(inner, encoder);
        } else {
            transmute_abi().encode(false, encoder);
        }
    }

    unsafe fn""")],
 FILES={"demo.sh": MIX + r'''
$RC --crate-type rlib --crate-name bridge_rust support/crubit_bridge_rust/src/bridge.rs || exit 3
$RC --crate-type staticlib --crate-name lib --extern bridge_rust=$t/libbridge_rust.rlib $here/lib.rs || exit 3
clang++ -std=c++20 -w -I$PWD $here/main.cc $t/liblib.a -lpthread -ldl -lm -o $t/prog || exit 3
timeout 60 $t/prog || { echo "value changed on the way"; exit 1; }
''', "lib.rs": r'''
use bridge_rust::*;
type A = OptionAbi<(TransmuteAbi<u8>, TransmuteAbi<u64>)>;
#[unsafe(no_mangle)] pub unsafe extern "C" fn plus_one(input: *const u8, out: *mut u8) {
    let abi = || OptionAbi((transmute_abi::<u8>(), transmute_abi::<u64>()));
    let v = unsafe { internal::decode::<A>(abi(), input) };
    unsafe { internal::encode::<A>(abi(), out, v.map(|(a, b)| (a + 1, b + 1))) };
}
''', "main.cc": r'''
#include <cstdint>
#include <optional>
#include <tuple>
#include "support/bridge.h"
extern "C" void plus_one(const unsigned char*, unsigned char*);
using T = crubit::TupleAbi<crubit::TransmuteAbi<uint8_t>, crubit::TransmuteAbi<uint64_t>>;
using A = crubit::OptionAbi<T>;
int main() {
  auto abi = [] { return A{T{std::make_tuple(crubit::TransmuteAbi<uint8_t>(), crubit::TransmuteAbi<uint64_t>())}}; };
  unsigned char in[64] = {}, out[64] = {};
  crubit::internal::Encode(abi(), in, A::Value(T::Value(7, 1234567890123)));
  plus_one(in, out);
  auto r = crubit::internal::Decode(abi(), out);
  return !(r && std::get<0>(*r) == 8 && std::get<1>(*r) == 1234567890124);
}
'''})
seed(ID="s15-waker-wake", PROP="P08",
 NEEDS="a Rust future that clones the waker and later wakes the clone by value",
 BREAKS="the cloned C++ waker is woken but never released",
 EDITS=[("support/rs_std/dyn_erased_future.rs", "    unsafe { rs_std_waker_wake_and_destroy(obj) }", "    unsafe { rs_std_waker_wake_by_ref(obj) }"),
        ("support/rs_std/dyn_erased_future.rs", "    fn rs_std_waker_wake_and_destroy(_: UnitPtr);\n", "")],
 FILES={"demo.sh": MIX + r'''
$RC --crate-type rlib --crate-name erased_future support/rs_std/erased_future.rs || exit 3
$RC --crate-type rlib --crate-name dyn_erased_future --extern erased_future=$t/liberased_future.rlib support/rs_std/dyn_erased_future.rs || exit 3
$RC --crate-type staticlib --crate-name lib --extern dyn_erased_future=$t/libdyn_erased_future.rlib $here/lib.rs || exit 3
clang++ -std=c++20 -w -I$PWD $here/main.cc support/rs_std/waker.cc $t/liblib.a -lpthread -ldl -lm -o $t/prog || exit 3
timeout 60 $t/prog || { echo "waker leaked"; exit 1; }
''', "lib.rs": r'''
extern crate dyn_erased_future as d;
use std::{future::Future, pin::Pin, task::{Context, Poll, Waker}};
struct F(Option<Waker>);
impl Future for F { type Output = i32; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i32> {
    match self.0.take() { None => { self.0 = Some(cx.waker().clone()); Poll::Pending } Some(w) => { w.wake(); Poll::Ready(5) } } } }
#[unsafe(no_mangle)] pub unsafe extern "C" fn make(out: *mut d::DynErasedFuture<'static>) { unsafe { out.write(d::DynErasedFuture::new(F(None))) } }
''', "main.cc": r'''
#include <cstddef>
#include "support/rs_std/waker.h"
static int live = 0, woken = 0;
struct W final : rs_std::Waker {
  W() { live++; }
  void WakeByRef() override { woken++; } void WakeAndDestroy() override { woken++; Destroy(); }
  rs_std::Waker* Clone() override { return new W; } void Destroy() override { live--; delete this; }
};
extern "C" void make(void*); extern "C" bool rs_std_dyn_erased_future_poll(void*, const rs_std::Waker*, void*); extern "C" void rs_std_dyn_erased_future_drop(void*);
int main() {
  alignas(8) unsigned char f[16]; make(f);
  W w; int out = 0;
  bool a = rs_std_dyn_erased_future_poll(f, &w, &out), b = rs_std_dyn_erased_future_poll(f, &w, &out);
  rs_std_dyn_erased_future_drop(f);
  return !(!a && b && out == 5 && woken == 1 && live == 1);
}
'''})
