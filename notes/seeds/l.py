exec(open("/verif/notes/seeds/pre.py").read())
GTSP = "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs"
CXX = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
clang++ -std=c++20 -w -O1 -fno-exceptions -I$PWD $here/main.cc -o $t/prog || exit 3
timeout 60 $t/prog
'''
DIES = '''
#include <csignal>
#include <cstdlib>
#include <new>
#include <sys/wait.h>
#include <unistd.h>
template <class F> bool dies(F f) { pid_t p = fork(); if (!p) { f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT; }
'''
seed(ID="s31-result-const-rvalue", PROP="P10",
 NEEDS="err() on an lvalue of a Result that holds a value",
 BREAKS="the error of a Result that holds a value is read: err() lost its check",
 EDITS=[("support/rs_std/result.h", '''  constexpr const E& err() const&
    requires(!is_unit_t_v<E>)
  {
    return error();''', '''  constexpr const E& err() const&
    requires(!is_unit_t_v<E>)
  {
    return *derived().err_const_ptr();''')],
 FILES={"demo.sh": CXX, "main.cc": DIES + r"""
#include "support/rs_std/result.h"
struct R : rs_std::ResultBase<R, int, long> {
  bool ok = true; int v = 1; long e = 2;
  bool has_value_impl() const { return ok; }
  int* ok_ptr() { return &v; } const int* ok_const_ptr() const { return &v; }
  long* err_ptr() { return &e; } const long* err_const_ptr() const { return &e; }
};
int main() {
  R r; const R& c = r; volatile long x;
  bool bad = dies([&] { x = c.err(); });
  r.ok = false;
  return bad && c.err() == 2 ? 0 : 1;
}
"""})
seed(ID="s32-check-ndebug", PROP="P10",
 NEEDS="a build with NDEBUG and an empty Option",
 BREAKS="in release builds a failed CRUBIT_CHECK only prints and goes on",
 EDITS=[("support/internal/check.h", '    std::fprintf(stderr, "\\n");\n    std::abort();', '    std::fprintf(stderr, "\\n");\n#ifndef NDEBUG\n    std::abort();\n#endif')],
 FILES={"demo.sh": CXX.replace("-O1", "-O1 -DNDEBUG"), "main.cc": DIES + r"""
#include "support/rs_std/option.h"
struct O : rs_std::OptionBase<O, int> {
  bool some = false; int v = 1;
  O() : OptionBase(std::nullopt) {}
  bool is_none() const { return !some; } void set_none_tag() {} void set_some_tag() {}
  int* some_ptr() { return &v; } const int* some_const_ptr() const { return &v; }
};
int main() { O o; volatile int x; return dies([&] { x = *o; }) ? 0 : 1; }
"""})
seed(ID="s33-iterator-skip", PROP="P10",
 NEEDS="an iterator that gives an item again after it gave none",
 BREAKS="post-increment of an adapter at its end no longer asks the iterator, so it stays at the end",
 EDITS=[("support/rs_std/iterator_adapter.h", "  void operator++(int) { next(); }", "  void operator++(int) {\n    if (current_item_.has_value()) next();\n  }")],
 FILES={"demo.sh": CXX, "main.cc": r"""
#include <optional>
#include <iterator>
#include <utility>
#include "support/rs_std/iterator_adapter.h"
struct It { int* n; };
namespace rs_std { template <> struct impl<It, ::rs::core::iter::Iterator> { static constexpr bool kIsImplemented = true; using Item = int;
  static std::optional<int> next(It& s) { int k = (*s.n)++; return k == 1 ? std::nullopt : std::optional<int>(k); } }; }
int main() {
  int n = 0; rs::IteratorAdapter<It> a(It{&n});
  if (*a != 0) return 1;
  a++; if (!(a == rs::IteratorEnd{})) return 1;
  a++; return n == 3 && !(a == rs::IteratorEnd{}) && *a == 2 ? 0 : 1;
}
"""})
seed(ID="s34-vec-index-end", PROP="P10",
 NEEDS="an index equal to the length, through a const Vec",
 BREAKS="the element one past the end of a Vec is read",
 EDITS=[(GTSP, """        inline #inner_ty_cc const& #full_self_ty::operator[](std::size_t index) const noexcept {
            CRUBIT_CHECK(index < size());""", """        inline #inner_ty_cc const& #full_self_ty::operator[](std::size_t index) const noexcept {
            CRUBIT_CHECK(index <= size());""")],
 FILES={"demo.sh": E2E + """
export CPLUS_INCLUDE_PATH=$PWD
gen lib0 """ + FL + """ || exit 3
touch $t/core.h $t/std.h $t/alloc.h
prog lib0 || exit 3
timeout 60 $t/prog
""", "lib0.rs": """
pub struct S(pub i32);\npub fn v(n: usize) -> Vec<i32> { (0..n as i32).collect() }
""", "main.cc": DIES + r"""
#include "lib0.h"
int main() {
  auto v = lib0::v(3); const auto& c = v; volatile int x;
  return dies([&] { x = c[3]; }) && c[2] == 2 && v[0] == 0 ? 0 : 1;
}
"""})
