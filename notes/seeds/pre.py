E2E = r'''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
TC=nightly-2026-08-20
SR=$(rustc +$TC --print sysroot)
export RUSTC_BOOTSTRAP=1
mkdir -p $t/crubit; ln -s /repo/support $t/crubit/support
RC="rustc +$TC --edition 2024 -Awarnings --out-dir $t -L $t"
gen() { # gen NAME [flags]: bindings for $here/NAME.rs
  local n=$1; shift
  LD_LIBRARY_PATH=$SR/lib RUSTUP_TOOLCHAIN=$TC /repo/target/debug/cc_bindings_from_rs --enable-rmeta-interface=false --h-out $t/$n.h --rs-out $t/${n}_cc.rs --crubit-support-path-format='"crubit/support/{header}"' "$@" -- --edition=2024 --crate-type=lib --crate-name $n -Awarnings -L $t $here/$n.rs
}
prog() { # prog NAME: build Rust library, thunks and $here/main.cc into $t/prog
  local n=$1
  $RC --crate-type rlib --crate-name $n $here/$n.rs || return 3
  sed -i 's/#!\[deny(warnings)\]//' $t/${n}_cc.rs
  $RC --crate-type staticlib --crate-name ${n}_cc --extern $n=$t/lib$n.rlib $t/${n}_cc.rs || return 3
  clang++ -std=c++20 -w -I $t $here/main.cc $t/lib${n}_cc.a -lpthread -ldl -lm -o $t/prog || return 3
}
'''
GT='cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs'
GF='cc_bindings_from_rs/generate_bindings/generate_function.rs'
GS='cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs'
GL='cc_bindings_from_rs/generate_bindings/lib.rs'
GTS='cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs'
FL="--default-features supported,experimental,layout_compat_tuple --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h"
