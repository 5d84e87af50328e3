exec(open("/verif/notes/seeds/pre.py").read())
G = "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"
RUN = "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 --default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h --crate-namespace core=rs::core --crate-namespace std=rs::std --crate-namespace alloc=rs::alloc || exit 3\ntouch $t/core.h $t/std.h $t/alloc.h\nprog lib0 || { echo 'the program does not build'; exit 1; }\ntimeout 60 $t/prog\n"
seed(ID="s35-partial-cmp-none", PROP="P34",
 NEEDS="comparing two values of a partially ordered type that are unordered",
 BREAKS="unordered values compare as equivalent in C++: the thunk folds None into Equal",
 EDITS=[(G, '''            match <#self_rs_ty as ::core::cmp::PartialOrd<#rhs_rs_ty>>::partial_cmp(lhs, rhs) {
                ::core::option::Option::Some(ordering) => ordering as i8,
                ::core::option::Option::None => 2,
            }''', '''            <#self_rs_ty as ::core::cmp::PartialOrd<#rhs_rs_ty>>::partial_cmp(lhs, rhs)
                .unwrap_or(::core::cmp::Ordering::Equal) as i8''')],
 FILES={"demo.sh": E2E + RUN, "lib0.rs": '''#[derive(PartialEq, PartialOrd, Clone, Copy)]
pub struct F(f64);
pub fn f(x: f64) -> F { F(x) }
''', "main.cc": '''#include "lib0.h"
#include <cmath>
int main() { auto a = lib0::f(1), b = lib0::f(2), n = lib0::f(NAN); return (a <=> b) < 0 && (b <=> a) > 0 && (a <=> a) == 0 && (a <=> n) == std::partial_ordering::unordered ? 0 : 1; }
'''})
seed(ID="s36-shift-assign", PROP="P34",
 NEEDS="a type with both compound shifts, used through its C++ operators",
 BREAKS="operator<<= calls ShrAssign and operator>>= calls ShlAssign",
 EDITS=[(G, '''            "shl_assign",
            "operator<<=",''', '''            "shl_assign",
            "operator>>=",'''), (G, '''            "shr_assign",
            "operator>>=",''', '''            "shr_assign",
            "operator<<=",''')],
 FILES={"demo.sh": E2E + RUN, "lib0.rs": '''#[derive(Clone, Copy)]
pub struct B(u32);
pub fn b(x: u32) -> B { B(x) }
impl B { pub fn get(&self) -> u32 { self.0 } }
impl core::ops::ShlAssign<u32> for B { fn shl_assign(&mut self, n: u32) { self.0 <<= n } }
impl core::ops::ShrAssign<u32> for B { fn shr_assign(&mut self, n: u32) { self.0 >>= n } }
''', "main.cc": '''#include "lib0.h"
int main() { auto a = lib0::b(8), c = lib0::b(8); a <<= 1u; c >>= 2u; return a.get() == 16 && c.get() == 2 ? 0 : 1; }
'''})
seed(ID="s37-range-consumes", PROP="P34",
 NEEDS="a C++ loop over a Rust iterator that stops early, after which the same iterator is used again",
 BREAKS="begin() on a Rust iterator moves the iterator into the range instead of advancing it in place",
 EDITS=[(G, """                inline rs::IteratorAdapter<TAdaptedSelf_*> begin() & {
                    return rs::IteratorAdapter<TAdaptedSelf_*>(this);""", """                inline rs::IteratorAdapter<TAdaptedSelf_> begin() & {
                    return rs::IteratorAdapter<TAdaptedSelf_>(TAdaptedSelf_(*this));""")],
 FILES={"demo.sh": E2E + RUN.replace("prog lib0 ||", "$RC --crate-type rlib --crate-name bridge_rust support/crubit_bridge_rust/src/bridge.rs || exit 3\nRC=\"$RC --extern bridge_rust=$t/libbridge_rust.rlib\"\nprog lib0 ||"), "lib0.rs": """#[derive(Clone)]
pub struct It { left: u32 }
pub fn it(left: u32) -> It { It { left } }
impl It { pub fn left(&self) -> u32 { self.left } }
impl Iterator for It { type Item = u32; fn next(&mut self) -> Option<u32> { if self.left == 0 { None } else { self.left -= 1; Some(self.left) } } }
""", "main.cc": """#include "lib0.h"
int main() { auto i = lib0::it(5); unsigned s = 0; for (auto x : i) { s += x; if (x == 3) break; } return s == 7 && i.left() == 3 ? 0 : 1; }
"""})
