exec(open('/verif/notes/seeds/pre.py').read())
F0 = "--default-features supported,experimental --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h"
ALONE = "export CPLUS_INCLUDE_PATH=$PWD\ngen lib0 " + F0 + " || exit 3\ntouch $t/core.h $t/std.h $t/alloc.h\nclang++ -std=c++20 -w -I $t -fsyntax-only -x c++ $t/lib0.h || { echo 'the header does not compile on its own'; exit 1; }\n"
CS='cc_bindings_from_rs/generate_bindings/database/code_snippet.rs'
GL='cc_bindings_from_rs/generate_bindings/lib.rs'
seed(ID="s52-transitive-lazy-spec", PROP="P38",
 NEEDS="a specialization that is only named by the implementation details of another one",
 BREAKS="the nested specialization is never generated; uses of it meet the undefined primary template",
 EDITS=[(GL, "            let transitive_specs = std::mem::take(&mut cc_details_prereqs.template_specializations)\n                .into_iter()\n                .chain(std::mem::take(&mut cc_details_prereqs.lazy_template_specializations));", "            let transitive_specs =\n                std::mem::take(&mut cc_details_prereqs.template_specializations).into_iter();"),
  (GL, "                .chain(snippets.main_api.prereqs.lazy_template_specializations.iter())\n", "")],
 FILES={"demo.sh": E2E + ALONE + "grep -c Vec $t/lib0.h\n", "lib0.rs": "pub struct S(pub bool);\npub trait T { fn m(&self) -> Vec<i64>; }\nimpl T for S { fn m(&self) -> Vec<i64> { vec![] } }\n"})
seed(ID="s53-edge-specialization", PROP="P38",
 NEEDS="a struct with a field of a specialization whose key sorts after it",
 BREAKS="the specialization is emitted after the struct that holds it by value",
 EDITS=[(GL, "                    let successor_clone = successor.clone();\n", "                    let successor_clone = successor.clone();\n                    let successor_is_spec = matches!(successor, Node::Specialization(_));\n"),(GL, "                        .chain(\n                            main_api\n                                .prereqs\n                                .template_specializations\n                                .iter()\n                                .cloned()\n                                .map(Node::Specialization),\n                        )\n", "                        .chain(\n                            main_api\n                                .prereqs\n                                .template_specializations\n                                .iter()\n                                .filter(move |_| successor_is_spec)\n                                .cloned()\n                                .map(Node::Specialization),\n                        )\n")],
 FILES={"demo.sh": E2E + ALONE, "lib0.rs": "pub struct S { pub a: Option<i32>, pub b: i32 }\n"})
