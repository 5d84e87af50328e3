exec(open("/verif/notes/seeds/pre.py").read())
RUN = E2E + r'''
gen lib0 ''' + FL + r''' || exit 3
touch $t/core.h $t/std.h $t/alloc.h
prog lib0 || { echo "the generated bindings do not compile against the program"; exit 1; }
timeout 60 $t/prog || { echo "wrong layout"; exit 1; }
'''
seed(ID="s19-padding-any", PROP="P15",
 NEEDS="a repr(C) struct with both a field of a supported type and, after padding, one of an unsupported type",
 BREAKS="the padding in front of the bytes that stand for the unsupported field is left out: its offset in C++ is not its offset in Rust",
 EDITS=[(GS, "&& variants_fields.iter().flatten().all(|field| field.type_info.is_ok());", "&& variants_fields.iter().flatten().any(|field| field.type_info.is_ok());")],
 FILES={"demo.sh": RUN, "lib0.rs": """
#[repr(C)]
pub struct S { pub a: u8, b: Option<&'static dyn Fn()>, pub c: u32 }
pub fn make() -> S { S { a: 1, b: None, c: 9 } }
""", "main.cc": """
#include "lib0.h"
int main() { auto s = lib0::make(); return s.a == 1 && s.c == 9 && sizeof(s) == 32 ? 0 : 1; }
"""})
seed(ID="s20-private-blob", PROP="P15",
 NEEDS="a struct with a private field of a supported type, padding after it, and a public field",
 BREAKS="a private field that follows a padded public one is public in C++",
 EDITS=[(GS, """            let padding_visibility = current_visibility.set_is_public(false);
            quote! { #padding_visibility unsigned char #ident[#padding]; }""",
 """            let padding_visibility = current_visibility.set_is_public(false);
            *current_visibility = CcFieldVisState { is_public: Some(field.is_public) };
            quote! { #padding_visibility unsigned char #ident[#padding]; }""")],
 FILES={"demo.sh": RUN, "lib0.rs": """
#[repr(C)]
pub struct S { pub a: u8, pub c: u32, b: Option<&'static dyn Fn()>, pub d: u8, pub e: u16 }
pub fn make() -> S { S { a: 1, b: None, c: 9, d: 3, e: 4 } }
""", "main.cc": """
#include "lib0.h"
int main() { auto s = lib0::make(); return s.a == 1 && s.c == 9 && s.d == 3 && s.e == 4 && sizeof(s) == 32 ? 0 : 1; }
"""})
seed(ID="s21-offset-drift", PROP="P15",
 NEEDS="bindings that are older than the crate: a public field of an unsupported type has moved since",
 BREAKS="the generated Rust half compiles although the header places the field elsewhere",
 EDITS=[(GS, """        let rs_details: RsSnippet = fields
            .iter()
            .filter(|field| field.is_public)
""", """        let rs_details: RsSnippet = fields
            .iter()
            .filter(|field| field.is_public && (field.type_info.is_ok() || field.offset == 0))
""")],
 FILES={"demo.sh": E2E + r'''
gen lib0 ''' + FL + r''' || exit 3
touch $t/core.h $t/std.h $t/alloc.h
prog lib0 || exit 3
# the crate changes under the bindings
sed 's|^pub struct S .*|pub struct S { x: u64, y: u64, pub f: Option<\&'"'"'static dyn Fn()> }|' $here/lib0.rs > $t/lib0.rs
$RC --crate-type rlib --crate-name lib0 $t/lib0.rs || exit 3
if $RC --crate-type staticlib --crate-name lib0_cc --extern lib0=$t/liblib0.rlib $t/lib0_cc.rs 2>/dev/null; then echo "stale bindings are accepted"; exit 1; fi
''', "lib0.rs": """
#[repr(C)]
pub struct S { x: u64, pub f: Option<&'static dyn Fn()>, y: u64 }
pub fn make() -> S { S { x: 1, f: None, y: 2 } }
""", "main.cc": """
#include "lib0.h"
int main() { auto s = lib0::make(); return 0; }
"""})
