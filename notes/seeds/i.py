exec(open("/verif/notes/seeds/pre.py").read())
RUN = E2E + r'''
export CPLUS_INCLUDE_PATH=$PWD
gen lib0 ''' + FL + r''' || exit 3
touch $t/core.h $t/std.h $t/alloc.h
prog lib0 || { echo "the generated bindings do not compile against the program"; exit 1; }
timeout 60 $t/prog || { echo "wrong value"; exit 1; }
'''
seed(ID="s22-niche-untagged-err", PROP="P32",
 NEEDS="a Result whose Ok is encoded in a niche of its Err",
 BREAKS="the C++ Result says it holds a value exactly when it holds an error",
 EDITS=[(GTS, "has_value_impl = quote! { tag() == #ok_relative_val };", "has_value_impl = quote! { tag() != #ok_relative_val };")],
 FILES={"demo.sh": RUN, "lib0.rs": """
pub struct S(pub i32);
pub fn good() -> Result<(), bool> { Ok(()) }
pub fn bad() -> Result<(), bool> { Err(true) }
""", "main.cc": """
#include "lib0.h"
int main() { return lib0::good().has_value() && !lib0::bad().has_value() ? 0 : 1; }
"""})
seed(ID="s23-vec-nested-pointer", PROP="P32",
 NEEDS="a Vec whose pointer is not in the first field of a nested struct",
 BREAKS="data() reads another word of the Vec as its pointer",
 EDITS=[(GTS, "if let Some(offset) =\n                find_pointer_field_offset_impl(tcx, field_ty, current_offset + field_offset)", "if let Some(offset) =\n                find_pointer_field_offset_impl(tcx, field_ty, field_offset)")],
 FILES={"demo.sh": RUN, "lib0.rs": """
pub struct S(pub i32);
pub fn v() -> Vec<i32> { vec![4, 5, 6] }
""", "main.cc": """
#include "lib0.h"
int main() { auto v = lib0::v(); return v.size() == 3 && v[1] == 5 && v.end() - v.begin() == 3 ? 0 : 1; }
"""})
seed(ID="s24-tuple-drop-reorder", PROP="P32",
 NEEDS="a tuple with two different types that need dropping, or whose elements rustc reorders",
 BREAKS="the elements of a tuple are destroyed with each other's types",
 EDITS=[(GTS, "            for (i, element_cc_ty) in element_cc_tys.iter().enumerate() {\n                let offset = Literal::u64_unsuffixed(self.layout.fields().offset(i).bytes());\n                drop_elements", "            for (i, element_cc_ty) in element_cc_tys.iter().rev().enumerate() {\n                let offset = Literal::u64_unsuffixed(self.layout.fields().offset(i).bytes());\n                drop_elements")],
 FILES={"demo.sh": RUN, "lib0.rs": """
pub static N: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
pub struct A(pub i32); pub struct B(pub i64);
impl Drop for A { fn drop(&mut self) { N.fetch_add(if self.0 == 3 { 1 } else { 100 }, std::sync::atomic::Ordering::SeqCst); } }
impl Drop for B { fn drop(&mut self) { N.fetch_add(if self.0 == 4 { 10 } else { 1000 }, std::sync::atomic::Ordering::SeqCst); } }
impl Default for A { fn default() -> Self { A(0) } }
impl Default for B { fn default() -> Self { B(0) } }
pub fn pair() -> (A, B) { (A(3), B(4)) }
pub fn dropped() -> i32 { N.load(std::sync::atomic::Ordering::SeqCst) }
""", "main.cc": """
#include "lib0.h"
int main() { { auto p = lib0::pair(); (void)p; } return lib0::dropped() == 11 ? 0 : 1; }
"""})
