exec(open("/verif/notes/seeds/pre.py").read())
seed(ID="s05-lct-result", PROP="P13",
 NEEDS="a crate with layout_compat_tuple enabled that returns a tuple",
 BREAKS="the Rust thunk treats the pointer to the C++ tuple object as an array of element pointers and writes through uninitialised memory",
 EDITS=[(GT, """    } else if let ty::TyKind::Tuple(tuple_tys) = rs_type.kind()
        && !is_constructor
        && !db
            .crate_features(db.source_crate_num())
            .contains(crubit_feature::CrubitFeature::LayoutCompatTuple)
    {
        let num_elements""", """    } else if let ty::TyKind::Tuple(tuple_tys) = rs_type.kind()
        && !is_constructor
    {
        let num_elements""")],
 FILES={"demo.sh": E2E + r'''
gen lib0 --default-features supported,experimental,layout_compat_tuple || exit 3
cp $here/main.cc $t/; thunk=$(grep -o '__crubit_thunk_[0-9a-zA-Z_]*pair[0-9a-zA-Z_]*' $t/lib0_cc.rs | head -1)
[ -n "$thunk" ] || exit 3
sed -i 's/#!\[deny(warnings)\]//' $t/lib0_cc.rs
$RC --crate-type rlib --crate-name lib0 $here/lib0.rs || exit 3
$RC --crate-type staticlib --crate-name lib0_cc --extern lib0=$t/liblib0.rlib $t/lib0_cc.rs || exit 3
clang++ -std=c++20 -w -DTHUNK=$thunk $here/main.cc $t/liblib0_cc.a -lpthread -ldl -lm -o $t/prog || exit 3
timeout 60 $t/prog || { echo "the thunk does not write the tuple object it is given"; exit 1; }
''', "lib0.rs": """
pub fn pair(a: i32, b: i64) -> (i32, i64) { (a, b) }
pub fn sum(t: (i32, i64)) -> i64 { t.0 as i64 + t.1 }
""", "main.cc": """

#include <cstdint>
#include <cstring>
#include <initializer_list>
// the header declares: void THUNK(int32_t, int64_t, rs_std::Tuple<int32_t, int64_t>*)
extern "C" void THUNK(int32_t, int64_t, void*);
int main() {
  alignas(16) unsigned char object[16] = {};
  THUNK(3, 4, object);
  for (int o32 : {0, 8}) {
    int32_t a; int64_t b;
    std::memcpy(&a, object + o32, 4); std::memcpy(&b, object + (o32 ? 0 : 8), 8);
    if (a == 3 && b == 4) return 0;
  }
  return 1;
}
"""})
seed(ID="s06-from-ctor", PROP="P13",
 NEEDS="a From conversion whose source is C-ABI compatible by value while the constructed type is not (or the reverse)",
 BREAKS="the converting constructor calls its thunk with the wrong convention (result by value although the thunk writes through a pointer)",
 EDITS=[(GS, "let impl_body_tokens = if returns_by_value {", "let impl_body_tokens = if returns_by_value || src_ty.is_integral() {")],
 FILES={"demo.sh": E2E + r'''
gen lib0 --default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h || exit 3
prog lib0 || { echo "constructor does not match its thunk"; exit 1; }
timeout 60 $t/prog || { echo "wrong value constructed"; exit 1; }
''', "lib0.rs": """
#[derive(Clone, Copy)]
pub struct Big { pub a: i64, pub b: i64, pub c: i64 }
impl From<i32> for Big { fn from(x: i32) -> Big { Big { a: x as i64, b: 2, c: 3 } } }
""", "main.cc": """
#include "lib0.h"
int main() { lib0::Big b(41); return b.a + b.c == 44 ? 0 : 1; }
"""})
seed(ID="s08-array-lent", PROP="P18",
 NEEDS="an array of values with drop glue passed by value",
 BREAKS="C++ passes the address of its own array and still destroys the elements that Rust has already taken and dropped",
 EDITS=[(GF, """    } else if !ty.needs_drop(db.tcx(), post_analysis_typing_env) {
        // As an""", """    } else if !ty.needs_drop(db.tcx(), post_analysis_typing_env)
        || matches!(ty.kind(), ty::TyKind::Array(..))
    {
        // As an""")],
 FILES={"demo.sh": E2E + r'''
gen lib0 --default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h || exit 3
prog lib0 || exit 3
timeout 60 $t/prog || { echo "elements dropped the wrong number of times"; exit 1; }
''', "lib0.rs": """
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static LIVE: AtomicI32 = AtomicI32::new(0);
pub struct D { pub id: i32 }
impl Default for D { fn default() -> D { LIVE.fetch_add(1, SeqCst); D { id: 7 } } }
impl Drop for D { fn drop(&mut self) { if self.id != 0 { LIVE.fetch_sub(1, SeqCst); } } }
pub fn take(a: [D; 2]) -> i32 { a[0].id + a[1].id }
pub fn live() -> i32 { LIVE.load(SeqCst) }
""", "main.cc": """
#include "lib0.h"
#include <cstdio>
int main() {
  { std::array<lib0::D, 2> a; lib0::take(std::move(a)); }
  std::printf("%d\\n", (int)lib0::live());
  return lib0::live() == 0 ? 0 : 1;
}
"""})
