exec(open("/verif/notes/seeds/pre.py").read())
RUN = E2E + r'''
gen lib0 ''' + FL + r''' || exit 3
echo "namespace core::marker { struct Unpin; }" > $t/core.h; touch $t/std.h $t/alloc.h
prog lib0 || { echo "the generated bindings do not compile against the program"; exit 1; }
timeout 60 $t/prog || { echo "wrong special member functions"; exit 1; }
'''
seed(ID="s17-unpin-swap", PROP="P16",
 NEEDS="a type with drop glue that is Default and Clone but not Unpin",
 BREAKS="a type that must not be moved by swapping its bytes (it is not Unpin) gets a swapping C++ move constructor",
 EDITS=[(GL, "        self_ty.is_unpin(tcx, typing_env),\n", "        self_ty.is_unpin(tcx, typing_env) || db.has_copy_ctor_and_assignment_operator(def_id, self_ty).is_some(),\n")],
 FILES={"demo.sh": RUN, "lib0.rs": """
use std::marker::PhantomPinned;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static CLONES: AtomicI32 = AtomicI32::new(0);
pub struct P { pub n: i32, _p: Q }
struct Q(PhantomPinned);
impl Default for P { fn default() -> P { P { n: 1, _p: Q(PhantomPinned) } } }
impl Clone for P { fn clone(&self) -> P { CLONES.fetch_add(1, SeqCst); P { n: self.n, _p: Q(PhantomPinned) } } }
impl Drop for P { fn drop(&mut self) { self.n = 0; } }
pub fn clones() -> i32 { CLONES.load(SeqCst) }
""", "main.cc": """
#include "lib0.h"
#include <utility>
// P is not Unpin: moving it in C++ has to go through Clone, never through its bytes
int main() { lib0::P a; lib0::P b(std::move(a)); return lib0::clones() == 1 && b.n == 1 && a.n == 1 ? 0 : 1; }
"""})
seed(ID="s18-tuple-dtor", PROP="P16",
 NEEDS="rs_std::Tuple with an element that has drop glue but is not an ADT (a nested tuple)",
 BREAKS="the destructor of the tuple class does not destroy that element: it leaks",
 EDITS=[(GTS, """            let mut drop_elements = quote! {};
            for (i, element_cc_ty) in element_cc_tys.iter().enumerate() {
""", """            let mut drop_elements = quote! {};
            for (i, element_cc_ty) in element_cc_tys.iter().enumerate() {
                if !self.element_tys[i].ty.is_adt() {
                    continue;
                }
""")],
 FILES={"demo.sh": RUN, "lib0.rs": """
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static LIVE: AtomicI32 = AtomicI32::new(0);
pub struct D { pub id: i32 }
impl Default for D { fn default() -> D { LIVE.fetch_add(1, SeqCst); D { id: 7 } } }
impl Drop for D { fn drop(&mut self) { if self.id != 0 { LIVE.fetch_sub(1, SeqCst); } } }
impl Clone for D { fn clone(&self) -> D { LIVE.fetch_add(1, SeqCst); D { id: self.id } } }
pub fn pair() -> ((D, i32), i64) { ((D::default(), 3), 4) }
pub fn live() -> i32 { LIVE.load(SeqCst) }
""", "main.cc": """
#include <memory>
#include "lib0.h"
int main() {
  { auto p = lib0::pair(); if (lib0::live() != 1) return 2; }
  return lib0::live() == 0 ? 0 : 1;
}
"""})
