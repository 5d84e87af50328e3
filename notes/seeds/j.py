exec(open("/verif/notes/seeds/pre.py").read())
GFN = "cc_bindings_from_rs/generate_bindings/generate_function.rs"
CHK = "support/internal/check_no_mutable_aliasing.cc"
CXX = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
clang++ -std=c++20 -w -O1 -I$PWD $here/main.cc support/internal/check_no_mutable_aliasing.cc -o $t/prog || exit 3
timeout 60 $t/prog
'''
seed(ID="s25-alias-async", PROP="P19",
 NEEDS="an async function with two reference parameters of which one is mutable",
 BREAKS="C++ can pass aliasing mutable references to an async Rust function unchecked",
 EDITS=[(GFN, "if let Some(refs_to_check) = refs_to_check_for_aliasing(db, params) {", "if let Some(refs_to_check) = refs_to_check_for_aliasing(db, params).filter(|_| !is_async) {")],
 FILES={"demo.sh": E2E + r'''
gen lib0 ''' + FL.replace("experimental,", "experimental,async_fn_send_modulo_regions,") + r''' || exit 3
python3 - $t/lib0.h <<'P'
import re,sys
s=open(sys.argv[1]).read()
m=re.findall(r"inline[^;{]*add_both\([^;{]*\)[^{;]*\{(.*?DynErasedFuture.*?)AssumeInit", s, re.S)
sys.exit(3 if not m else 0 if all("NoMutableAliasing" in x for x in m) else 1)
P
''', "lib0.rs": """
pub struct S(pub i32);
pub async fn add_both(a: &'static mut i32, b: &'static i32) -> i32 { *a += *b; *a }
"""})
seed(ID="s26-alias-slice-bytes", PROP="P19",
 NEEDS="slices of elements larger than a byte of which only the later parts overlap",
 BREAKS="overlapping mutable and shared slices reach Rust unchecked: the extent is taken in elements, not bytes",
 EDITS=[("support/rs_std/slice_ref.h", ".end = start + t.size() * sizeof(T),", ".end = start + t.size(),")],
 FILES={"demo.sh": CXX, "main.cc": """
#include <csignal>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
#include "support/rs_std/slice_ref.h"
using namespace crubit::internal;
int main() {
  long long b[8];
  pid_t p = fork();
  if (!p) { CheckNoMutableAliasing(AsMutPtrDatas<rs_std::SliceRef<long long>>(rs_std::SliceRef<long long>(b, 5)), AsPtrDatas<rs_std::SliceRef<const long long>>(rs_std::SliceRef<const long long>(b + 4, 4))); _exit(0); }
  int st; waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 0 : 1;
}
"""})
seed(ID="s27-alias-spans-advance", PROP="P19",
 NEEDS="four or more mutable references and a long shared range that starts before and ends inside a later mutable one",
 BREAKS="a shared range is only compared with the mutable range that holds its start",
 EDITS=[(CHK, "    while (mut_iter->end <= const_ptr.start) {", "    while (mut_iter->start < const_ptr.start) {")],
 FILES={"demo.sh": CXX, "main.cc": """
#include <array>
#include "support/internal/check_no_mutable_aliasing.h"
using namespace crubit::internal;
int main() {
  std::array<PtrData, 4> m{PtrData{100, 110}, PtrData{200, 210}, PtrData{300, 310}, PtrData{400, 410}};
  std::array<PtrData, 1> c{PtrData{205, 207}}, d{PtrData{150, 160}};
  auto m2 = m;
  return HasMutableAliasingSpans(m, c) && !HasMutableAliasingSpans(m2, d) ? 0 : 1;
}
"""})
