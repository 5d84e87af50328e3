exec(open('/verif/notes/seeds/pre.py').read())
F0 = "--default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h"
RUN = "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 " + F0 + " || exit 3\ntouch $t/core.h $t/std.h $t/alloc.h\nprog lib0 || { echo 'the bindings do not compile'; exit 1; }\ntimeout 60 $t/prog || { echo 'wrong'; exit 1; }\n"
seed(ID="s43-union-access-lost", PROP="P37",
 NEEDS="a union whose unsupported field is followed by a public field of a supported type",
 BREAKS="the bytes that stand in for the unsupported field switch to private access without the tracker noticing, so the public field after them is inaccessible",
 EDITS=[(GS, "            Err(ref err) => return self.emit_field_err(&field, err, current_visibility),\n            Ok(FieldTypeInfo { cpp_type, .. }) => cpp_type,\n        };\n\n        let visibility = current_visibility.set_is_public(field.is_public);\n        let mut prereqs = CcPrerequisites::default();\n        let cpp_type = cpp_type.into_tokens(&mut prereqs);\n        let doc_comment = field.doc_comment;\n\n        let tokens = if is_repr_c {",
  "            Err(ref err) => {\n                let mut visibility = CcFieldVisState::public();\n                return self.emit_field_err(&field, err, &mut visibility);\n            }\n            Ok(FieldTypeInfo { cpp_type, .. }) => cpp_type,\n        };\n\n        let visibility = current_visibility.set_is_public(field.is_public);\n        let mut prereqs = CcPrerequisites::default();\n        let cpp_type = cpp_type.into_tokens(&mut prereqs);\n        let doc_comment = field.doc_comment;\n\n        let tokens = if is_repr_c {")],
 FILES={"demo.sh": E2E + RUN, "lib0.rs": '''pub struct S(pub i32);
#[repr(C)]
#[derive(Clone, Copy)]
pub union U { pub bad: &'static dyn Send, pub good: u32 }
''', "main.cc": '''#include "lib0.h"
int main() { return sizeof(static_cast<lib0::U*>(nullptr)->good) == 4 ? 0 : 1; }
'''})
seed(ID="s44-variant-non-exhaustive", PROP="P37",
 NEEDS="an enum with a #[non_exhaustive] tuple variant whose fields are supported",
 BREAKS="a C++ constructor is generated for the variant, although its field list may grow",
 EDITS=[(GS, "    if variant.is_field_list_non_exhaustive() {\n        // If", "    if variant.is_field_list_non_exhaustive() && !core.common.self_ty.is_enum() {\n        // If")],
 FILES={"demo.sh": E2E + "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 " + F0 + " || exit 3\ngrep -q 'MakeOpen *(' $t/lib0.h || exit 3\ngrep -v '^ *//' $t/lib0.h | grep -q 'MakeSealed *(' && { echo 'the non-exhaustive variant has a constructor'; exit 1; }\nexit 0\n", "lib0.rs": '''pub struct S(pub i32);
#[repr(C)]
pub enum E { Open(u32), #[non_exhaustive] Sealed(u64) }
'''})
seed(ID="s45-underscore-reexport", PROP="P36",
 NEEDS="a private item re-exported as `_` and under no other name",
 BREAKS="the item counts as publicly reachable and is bound under the name `_`",
 EDITS=[(GL, "        if !child.vis.is_public() || child.ident.name == kw::Underscore {\n", "        if !child.vis.is_public() {\n")],
 FILES={"demo.sh": E2E + "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 " + F0 + " || { echo 'generation fails'; exit 1; }\ngrep -v '^ *//' $t/lib0.h | grep -q 'Hidden' && { echo 'the unnameable type is bound'; exit 1; }\ngrep -q 'Shown' $t/lib0.h || exit 3\nexit 0\n", "lib0.rs": '''mod inner { pub struct Hidden(pub i32); }
pub use inner::Hidden as _;
pub struct Shown(pub i32);
'''})
seed(ID="s46-fatal-with-kythe", PROP="P36",
 NEEDS="an item that must be bound and cannot be, and a run with --kythe-annotations",
 BREAKS="the run reports success and writes its outputs",
 EDITS=[("cc_bindings_from_rs/lib.rs", "    if !fatal_error_message.is_empty() {", "    if !fatal_error_message.is_empty() && !cmdline.kythe_annotations {")],
 FILES={"demo.sh": E2E + "export CPLUS_INCLUDE_PATH=$PWD\ngen ok " + F0 + " --kythe-annotations || exit 3\ngen lib0 " + F0 + " && exit 3\ngen lib0 " + F0 + " --kythe-annotations && { echo 'the run succeeds'; exit 1; }\nexit 0\n", "ok.rs": "pub struct S(pub i32);\n", "lib0.rs": '''pub struct S(pub i32);
#[doc = "CRUBIT_ANNOTATE: must_bind="]
pub fn f(x: &'static dyn Send) {}
'''})
