CXX = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
clang++ -std=c++20 -w -O1 -I$PWD $here/main.cc support/rs_std/char.cc support/internal/check_no_mutable_aliasing.cc -o $t/prog || exit 3
timeout 60 $t/prog
'''
IS, SR, CC, SL, ST = "support/rs_std/internal/is_utf8.h", "support/rs_std/char.h", "support/rs_std/char.cc", "support/rs_std/slice_ref.h", "support/rs_std/str_ref.h"
seed(ID="s28-utf8-tail", PROP="P09",
 NEEDS="a string with an overlong four-byte encoding that starts with F0 8F",
 BREAKS="StrRef::FromUtf8 accepts overlong encodings of U+F000..U+FFFF",
 EDITS=[(IS, "        case 0xF0: {\n          if (second < 0x90) {", "        case 0xF0: {\n          if (second < 0x8F) {")],
 FILES={"demo.sh": CXX, "main.cc": r"""
#include <string>
#include "support/rs_std/str_ref.h"
int main() {
  std::string ok("a\xF0\x90\x80\x80z", 6), bad("a\xF0\x8F\xBF\xBFz", 6);
  return rs_std::StrRef::FromUtf8(ok).has_value() && !rs_std::StrRef::FromUtf8(bad).has_value() ? 0 : 1;
}
"""})
seed(ID="s29-char-buffer", PROP="P09",
 NEEDS="encoding a four-byte character into a buffer of exactly three bytes",
 BREAKS="encode_utf8 writes past the end of a three-byte buffer",
 EDITS=[(CC, "  CRUBIT_CHECK(len <= output_buffer.size());", "  CRUBIT_CHECK(len <= output_buffer.size() + (len >> 2));")],
 FILES={"demo.sh": CXX, "main.cc": r"""
#include <csignal>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
#include "support/rs_std/char.h"
int main() {
  pid_t p = fork();
  if (!p) { uint8_t b[8] = {}; auto c = rs_std::char_::from_u32(0x1F600); c->encode_utf8(std::span<uint8_t>(b, 3)); _exit(0); }
  int st; waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 0 : 1;
}
"""})
seed(ID="s30-slice-null-size", PROP="P09",
 NEEDS="a view whose data is null but whose size is not zero, or an element type with alignment above 1 and an empty slice of it",
 BREAKS="an empty slice made from a span is given a misaligned dangling pointer",
 EDITS=[(SL, "      : dangling_ptr_(alignof(T)), size_(ptr == nullptr ? 0 : size) {", "      : dangling_ptr_(ptr == nullptr ? alignof(T) : alignof(char)), size_(ptr == nullptr ? 0 : size) {")],
 FILES={"demo.sh": CXX, "main.cc": r"""
#include <cstring>
#include <cstdint>
#include "support/rs_std/slice_ref.h"
int main() {
  int32_t x[2] = {1, 2};
  rs_std::SliceRef<const int32_t> s(x + 1, 0);
  uintptr_t w[2]; static_assert(sizeof(w) == sizeof(s)); std::memcpy(w, &s, sizeof(w));
  return (w[0] && w[0] % alignof(int32_t) == 0 && w[1] == 0) || (w[1] && w[1] % alignof(int32_t) == 0 && w[0] == 0) ? 0 : 1;
}
"""})
