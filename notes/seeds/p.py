exec(open('/verif/notes/seeds/pre.py').read())
F0 = "--default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h"
GEN = "gen lib0 " + F0 + " || exit 3\n"
ALONE = "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 " + F0 + " || exit 3\ntouch $t/core.h $t/std.h $t/alloc.h\nclang++ -std=c++20 -w -I $t -fsyntax-only -x c++ $t/lib0.h || { echo 'the header does not compile on its own'; exit 1; }\n"
GFT = 'cc_bindings_from_rs/generate_bindings/format_type.rs'
seed(ID="s47-lazy-spec-no-header", PROP="P33",
 NEEDS="a Result that occurs only in function signatures, so that its specialization is recorded lazily",
 BREAKS="the header that declares rs_std::Result is not included; the specialization does not compile",
 EDITS=[(GFT, "                let tokens = rs_std.self_ty_cc.clone().into_tokens(&mut prereqs);\n                prereqs.includes.insert(rs_std.support_header(db));\n                if matches!(\n                    location,\n                    TypeLocation::Field\n                        | TypeLocation::Const\n                        | TypeLocation::NestedBridgeable\n                        | TypeLocation::TemplateArg\n                ) {\n                    prereqs.template_specializations.insert(TemplateSpecialization::RsStd(rs_std));\n                } else {\n                    prereqs\n                        .lazy_template_specializations\n                        .insert(TemplateSpecialization::RsStd(rs_std));\n                }\n                return Ok(CcSnippet { tokens, prereqs });\n            } else if let Some(bridged_type)",
  "                let tokens = rs_std.self_ty_cc.clone().into_tokens(&mut prereqs);\n                if matches!(\n                    location,\n                    TypeLocation::Field\n                        | TypeLocation::Const\n                        | TypeLocation::NestedBridgeable\n                        | TypeLocation::TemplateArg\n                ) {\n                    prereqs.includes.insert(rs_std.support_header(db));\n                    prereqs.template_specializations.insert(TemplateSpecialization::RsStd(rs_std));\n                } else {\n                    prereqs\n                        .lazy_template_specializations\n                        .insert(TemplateSpecialization::RsStd(rs_std));\n                }\n                return Ok(CcSnippet { tokens, prereqs });\n            } else if let Some(bridged_type)")],
 FILES={"demo.sh": E2E + ALONE, "lib0.rs": "pub fn f(x: Result<i32, u8>) -> i32 { x.unwrap_or(0) }\n"})
seed(ID="s48-iterator-begin-include", PROP="P33",
 NEEDS="a type that implements Iterator itself",
 BREAKS="begin()/end() name rs::IteratorAdapter without the header that declares it",
 EDITS=[(GS, "        let mut main_api_prereqs = CcPrerequisites::default();\n        main_api_prereqs.includes.insert(db.support_header(\"rs_std/iterator_adapter.h\"));\n        main_api_prereqs.move_only_defs_to_fwd_decls();\n", "        let mut main_api_prereqs = CcPrerequisites::default();\n        main_api_prereqs.includes.insert(db.support_header(\"rs_std/traits.h\"));\n        main_api_prereqs.move_only_defs_to_fwd_decls();\n")],
 FILES={"demo.sh": E2E + GEN + "if grep -q 'IteratorAdapter' $t/lib0.h && ! grep -q 'include.*iterator_adapter.h' $t/lib0.h; then echo 'rs::IteratorAdapter is named, its header is not included'; exit 1; fi\n", "lib0.rs": "pub struct It(pub i32);\nimpl Iterator for It { type Item = i32; fn next(&mut self) -> Option<i32> { None } }\n"})
seed(ID="s50-char-include-field-only", PROP="P33",
 NEEDS="a char in a function signature and in no field or constant",
 BREAKS="rs_std::char_ is written without rs_std/char.h",
 EDITS=[(GFT, "            CcSnippet::with_include(quote! { rs_std::char_ }, db.support_header(\"rs_std/char.h\"))\n", "            let tokens = quote! { rs_std::char_ };\n            match location {\n                TypeLocation::FnParam { is_self_param: false, elided_is_output: true } => CcSnippet::new(tokens),\n                _ => CcSnippet::with_include(tokens, db.support_header(\"rs_std/char.h\")),\n            }\n")],
 FILES={"demo.sh": E2E + ALONE, "lib0.rs": "pub fn f(s: &i32, c: char) -> &i32 { s }\n"})
