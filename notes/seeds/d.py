exec(open("/verif/notes/seeds/pre.py").read())
CPP = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /var/tmp/demo-XXXXXX); trap 'rm -rf "$t"' EXIT
clang++ -std=c++20 -w -O1 -g -fno-omit-frame-pointer -I$PWD -I$here/stubs $here/main.cc -o $t/prog || exit 3
timeout 60 $t/prog || { echo "lifetimes do not balance"; exit 1; }
'''
COUNT = r'''
#include <cstdio>
#include <optional>
#include <set>
#include <utility>
static int bad = 0; static std::set<const void*> live;
struct X {
  int v; char pad[36];
  X(int n) : v(n) { born(); } X(X&& o) noexcept : v(o.v) { o.v = -1; born(); }
  X& operator=(X&& o) noexcept { if (!live.count(this) || !live.count(&o)) bad++; int n = o.v; o.v = -1; v = n; return *this; }
  ~X() { if (!live.erase(this)) bad++; }
  void born() { if (!live.insert(this).second) bad++; }
};
'''
seed(ID="s10-movable-self", PROP="P31",
 NEEDS="move-assigning a Movable<T> from an empty one, then reusing the target",
 BREAKS="the assigned-to Movable still believes it holds a value after its value was destroyed, so the value is destroyed twice",
 EDITS=[("support/movable.h", """    if (!valueless_after_move_) {
      value_.~T();
      valueless_after_move_ = true;
    }
    if (!other.valueless_after_move_) {
      internal::Relocate(&value_, &other.value_);
      valueless_after_move_ = false;
      other.valueless_after_move_ = true;
    }
    return *this;""", """    if (!valueless_after_move_) {
      value_.~T();
    }
    if (!other.valueless_after_move_) {
      internal::Relocate(&value_, &other.value_);
      valueless_after_move_ = false;
      other.valueless_after_move_ = true;
    }
    return *this;""")],
 FILES={"demo.sh": CPP, "main.cc": COUNT + r'''
#include "support/movable.h"
int main() {
  { rs::Movable<X> a(X(1)), b(X(2)); { rs::Movable<X> t(std::move(b)); } a = std::move(b); if (a) bad++; }
  return bad || !live.empty();
}
'''})
seed(ID="s11-option-assign-leak", PROP="P31",
 NEEDS="assigning a std::optional to an rs_std::Option that already holds a value",
 BREAKS="the previous payload is overwritten without being destroyed",
 EDITS=[("support/rs_std/option.h", """  OptionBase& operator=(Opt&& value) noexcept {
    reset();
    if (!value.has_value()) {
      derived().set_none_tag();
      return *this;
    }""", """  OptionBase& operator=(Opt&& value) noexcept {
    if (!value.has_value()) {
      reset();
      derived().set_none_tag();
      return *this;
    }""")],
 FILES={"demo.sh": CPP, "main.cc": COUNT + r'''
#include "support/rs_std/option.h"
struct O : rs_std::OptionBase<O, X> {
  using B = rs_std::OptionBase<O, X>; using B::B; using B::operator=; O() = default; ~O() { reset(); }
  bool is_none() const { return !tag; } void set_none_tag() { tag = 0; } void set_some_tag() { tag = 1; }
  X* some_ptr() { return reinterpret_cast<X*>(s); } const X* some_const_ptr() const { return reinterpret_cast<const X*>(s); }
  alignas(8) unsigned char s[sizeof(X)]; int tag;
};
int main() {
  { O o(X(1)); std::optional<X> n(X(2)); o = std::move(n); if ((*o).v != 2) bad++; }
  return bad || !live.empty();
}
'''})
seed(ID="s12-dyn-encode", PROP="P31",
 NEEDS="passing a DynCallable from C++ back to Rust by value",
 BREAKS="the boxed closure is both handed to Rust and disposed of by C++",
 EDITS=[("support/rs_std/dyn_callable.h", """      // If present, encode the state.
      crubit::TransmuteAbi<TypeErasedState>().Encode(value.storage_, encoder);
    }
    // Remove the manager since the value is moved-from.
    value.manager_ = EmptyManager;""", """      // If present, encode the state.
      crubit::TransmuteAbi<TypeErasedState>().Encode(value.storage_, encoder);
    }
    // Remove the invoker since the value is moved-from.
    value.invoker_ = nullptr;""")],
 FILES={"demo.sh": CPP, "stubs/absl/base/nullability.h": "#define absl_nonnull\n#define absl_nullable\n", "main.cc": r'''
#include <cstdint>
#include <cstring>
#include <utility>
#include "support/rs_std/dyn_callable.h"
namespace idc = rs_std::internal_dyn_callable;
static int disposed = 0;
void mgr(idc::FunctionToCall f, idc::TypeErasedState* from, idc::TypeErasedState* to) noexcept {
  if (f == idc::FunctionToCall::dispose) disposed++; else std::memcpy(to, from, 16);
}
void inv(idc::TypeErasedState*) {}
int main() {
  unsigned char buf[24] = {}, out[24] = {};
  { auto d = crubit::internal::Decode(idc::DynCallableAbi<void()>(mgr, inv), buf);
    crubit::internal::Encode(idc::DynCallableAbi<void()>(mgr, inv), out, std::move(d)); }
  return disposed != 0;
}
'''})
seed(ID="s13-result-tag", PROP="P31",
 NEEDS="assigning an error to an rs_std::Result that holds a value",
 BREAKS="the ok value is destroyed through the error's destructor",
 EDITS=[("support/rs_std/result.h", """    if (has_value()) {
      std::destroy_at(derived().ok_ptr());
      derived().set_err_tag();
      std::construct_at(derived().err_ptr(), std::move(err.error()));
      return *this;
    }
    derived().set_err_tag();""", """    bool was_ok = has_value();
    derived().set_err_tag();
    if (was_ok) {
      Reset();
      std::construct_at(derived().err_ptr(), std::move(err.error()));
      return *this;
    }""")],
 FILES={"demo.sh": CPP, "main.cc": COUNT + r'''
static int edtor = 0;
struct E { int v; char pad[36]; E(int n) : v(n) {} E(E&& o) : v(o.v) { o.v = -1; } E& operator=(E&&) = default; ~E() { if (v == 77) edtor++; } };
#include "support/rs_std/result.h"
struct R : rs_std::ResultBase<R, X, E> {
  using B = rs_std::ResultBase<R, X, E>; using B::B; using B::operator=; ~R() { Reset(); }
  bool has_value_impl() const { return tag; } void set_ok_tag() { tag = 1; } void set_err_tag() { tag = 0; }
  X* ok_ptr() { return reinterpret_cast<X*>(s); } const X* ok_const_ptr() const { return reinterpret_cast<const X*>(s); }
  E* err_ptr() { return reinterpret_cast<E*>(s); } const E* err_const_ptr() const { return reinterpret_cast<const E*>(s); }
  alignas(8) unsigned char s[sizeof(X)]; int tag;
};
int main() {
  { R r(X(77)); r = rs_std::unexpected<E>(E(5)); if (r.has_value() || r.error().v != 5) bad++; }
  return bad || !live.empty() || edtor;
}
'''})
