"""C++ lifetime typestate: each member function of the support library's owning types is instantiated over witness types
whose special members are opaque, compiled to LLVM IR, and every path of the result is run through an object-lifetime
automaton (constructed once, never used or destroyed while dead, destroyed exactly once, moved never copied, and the value
ends up where the operation says)."""
import os, re
from concurrent.futures import ThreadPoolExecutor
import core, llvm, life

RULE = "on every path: construct only over raw storage, use/move/destroy only live objects, destroy or hand over each object exactly once, no copy in a move operation, and the value reaches the destination the operation names"
LEVEL = "other"

PRE = r'''
#include <array>
#include <cstddef>
#include <memory>
#include <new>
#include <optional>
#include <utility>
#include "support/internal/memswap.h"
#include "support/internal/move_assign.h"
#include "support/internal/slot.h"
#include "support/movable.h"
#include "support/bridge.h"
#include "support/rs_std/option.h"
#include "support/rs_std/result.h"
#define SPECIAL(N) alignas(8) char b[40]; N(int); ~N();
struct P  { SPECIAL(P) P(P&&) noexcept; P(const P&); P& operator=(P&&) noexcept; P& operator=(const P&); };   // copyable
struct M  { SPECIAL(M) M(M&&) noexcept; M& operator=(M&&) noexcept; };                                         // move only
struct C  { SPECIAL(C) C(C&&) noexcept; C& operator=(C&&) = delete; };                                          // no assignment
struct R  { SPECIAL(R) R(crubit::UnsafeRelocateTag, R&&); R(R&&) = delete; };                                   // relocatable only
struct RM { SPECIAL(RM) RM(crubit::UnsafeRelocateTag, RM&&); RM(RM&&) noexcept; RM& operator=(RM&&) noexcept; };  // both
struct E_ { SPECIAL(E_) E_(E_&&) noexcept; E_& operator=(E_&&) noexcept; };                                    // error side
struct D  { SPECIAL(D) D(); D(D&&) noexcept; };
extern "C" void peek(const void*); extern "C" void sink(void*); extern "C" void flag(int);
using std::move;
template <class T> using S = crubit::Slot<T>;
template <class T> using V = rs::Movable<T>;
template <class T> struct Opt : rs_std::OptionBase<Opt<T>, T> {
  using B = rs_std::OptionBase<Opt<T>, T>; using B::B; using B::operator=;
  Opt() = default; Opt(Opt&&) = delete;
  ~Opt() { this->reset(); }
  bool is_none() const; void set_none_tag(); void set_some_tag();
  T* some_ptr() { return reinterpret_cast<T*>(s); } const T* some_const_ptr() const { return reinterpret_cast<const T*>(s); }
  alignas(8) unsigned char s[40];
};
template <class T, class E> struct Res : rs_std::ResultBase<Res<T, E>, T, E> {
  using B = rs_std::ResultBase<Res<T, E>, T, E>; using B::B; using B::operator=;
  Res(Res&&) = delete;
  ~Res() { this->Reset(); }
  bool has_value_impl() const; void set_ok_tag(); void set_err_tag();
  T* ok_ptr() { return reinterpret_cast<T*>(s); } const T* ok_const_ptr() const { return reinterpret_cast<const T*>(s); }
  E* err_ptr() { return reinterpret_cast<E*>(s); } const E* err_const_ptr() const { return reinterpret_cast<const E*>(s); }
  alignas(8) unsigned char s[40];
};
#define PEEK(x) peek(static_cast<const void*>(std::addressof(x)))
'''
# (name, header, construct, type params for `p` and `q`, returns a value?, body, values left in p and q, value returned, trace)
G = life.MOVED
W = []
def w(name, header, construct, T, body, p=None, q=None, ret=None, trace=(), types=None):
    W.append(dict(name=name, header=header, construct=construct, T=T, body=body, p=p, q=q, ret=ret, trace=list(trace), types=types or (T, T)))
SL, MV, BR, OP, RS, MA, MS = "support/internal/slot.h", "support/movable.h", "support/bridge.h", "support/rs_std/option.h", "support/rs_std/result.h", "support/internal/move_assign.h", "support/internal/memswap.h"

for T in ("P", "M", "C"):
    w(f"slot_value_{T}", SL, "Slot(T&&), ~Slot, AssumeInitAndTakeValue", T, f"S<{T}> s(move(p)); return move(s).AssumeInitAndTakeValue();", p=G, ret="p")
    w(f"slot_moved_{T}", SL, "Slot(Slot&&)", T, f"S<{T}> s(move(p)); S<{T}> t(move(s)); std::destroy_at(s.Get()); return move(t).AssumeInitAndTakeValue();", p=G, ret="p")
    w(f"slot_out_{T}", SL, "Slot(), Get", T, f"S<{T}> s; new (s.Get()) {T}(move(p)); return move(s).AssumeInitAndTakeValue();", p=G, ret="p")
    A = f"std::array<{T}, 2>"
    w(f"slot_array_value_{T}", SL, "Slot<std::array>(T&&)", T, f"{A} a{{{{move(p), move(q)}}}}; S<{A}> s(move(a)); {A} b(move(s).AssumeInitAndTakeValue()); PEEK(b[0]); PEEK(b[1]);", p=G, q=G, trace=["p", "q"])
    w(f"slot_array_moved_{T}", SL, "Slot<std::array>(Slot&&)", T, f"{A} a{{{{move(p), move(q)}}}}; S<{A}> s(move(a)); S<{A}> t(move(s)); std::destroy_at(s.Get()); {A} b(move(t).AssumeInitAndTakeValue()); PEEK(b[0]); PEEK(b[1]);", p=G, q=G, trace=["p", "q"])
w("slot_take_R", SL, "AssumeInitAndTakeValue by relocation", "R", "S<R> s; new (s.Get()) R(crubit::UnsafeRelocateTag{}, move(p)); return move(s).AssumeInitAndTakeValue();", p=False, ret="p")
w("slot_take_RM", SL, "AssumeInitAndTakeValue by relocation", "RM", "S<RM> s(move(p)); return move(s).AssumeInitAndTakeValue();", p=G, ret="p")
w("slot_array_take_R", SL, "Slot<std::array>::AssumeInitAndTakeValue by relocation", "R", "using A = std::array<R, 2>; S<A> s; new (&(*s.Get())[0]) R(crubit::UnsafeRelocateTag{}, move(p)); new (&(*s.Get())[1]) R(crubit::UnsafeRelocateTag{}, move(q)); A b(move(s).AssumeInitAndTakeValue()); PEEK(b[0]); PEEK(b[1]);", p=False, q=False, trace=["p", "q"])

REL = {"P": False, "M": False, "C": False, "RM": False}
for T in ("P", "M", "C", "RM"):
    mk, mk2 = f"V<{T}> a(move(p));", f"V<{T}> b(move(q));"
    gone, gone2 = mk + f" {{ V<{T}> t(move(a)); }}", mk2 + f" {{ V<{T}> t(move(b)); }}"
    w(f"mov_from_{T}", MV, "Movable(U&&), ~Movable", T, mk + " PEEK(*a); flag((bool)a); flag(a.valueless_after_move());", p=G, trace=["p", "flag 1", "flag 0"])
    w(f"mov_inplace_{T}", MV, "Movable(in_place)", T, f"V<{T}> a(std::in_place, move(p)); PEEK(*a);", p=G, trace=["p"])
    w(f"mov_slot_{T}", MV, "TakeFromSlot", T, f"S<{T}> s(move(p)); V<{T}> a(V<{T}>::TakeFromSlot(move(s))); PEEK(*a);", p=G, trace=["p"])
    w(f"mov_ctor_{T}", MV, "Movable(Movable&&)", T, mk + f" V<{T}> c(move(a)); PEEK(*c); flag((bool)a); flag((bool)c);", p=G, trace=["p", "flag 0", "flag 1"])
    w(f"mov_ctor_empty_{T}", MV, "Movable(Movable&&)", T, gone + f" V<{T}> c(move(a)); flag((bool)c); flag((bool)a);", p=G, trace=["flag 0", "flag 0"])
    w(f"mov_assign_vv_{T}", MV, "operator=(Movable&&)", T, mk + mk2 + " a = move(b); PEEK(*a); flag((bool)a); flag((bool)b);", p=G, q=G, trace=["q", "flag 1", "flag 0"])
    w(f"mov_assign_ev_{T}", MV, "operator=(Movable&&)", T, gone + mk2 + " a = move(b); PEEK(*a); flag((bool)a); flag((bool)b);", p=G, q=G, trace=["q", "flag 1", "flag 0"])
    w(f"mov_assign_ve_{T}", MV, "operator=(Movable&&)", T, mk + gone2 + " a = move(b); flag((bool)a); flag((bool)b);", p=G, q=G, trace=["flag 0", "flag 0"])
    w(f"mov_assign_ee_{T}", MV, "operator=(Movable&&)", T, gone + gone2 + " a = move(b); flag((bool)a); flag((bool)b);", p=G, q=G, trace=["flag 0", "flag 0"])
    w(f"mov_assign_self_{T}", MV, "operator=(Movable&&)", T, mk + f" V<{T}>& r = a; a = move(r); PEEK(*a); flag((bool)a);", p=G, trace=["p", "flag 1"])
    w(f"mov_assign_self_empty_{T}", MV, "operator=(Movable&&)", T, gone + f" V<{T}>& r = a; a = move(r); flag((bool)a);", p=G, trace=["flag 0"])
    if T in ("P", "M"): w(f"mov_out_{T}", MV, "operator*() &&", T, mk + " return *move(a);", p=G, ret="p")
w("mov_default", MV, "Movable()", "D", "V<D> a; flag((bool)a); V<D> b(move(a)); flag((bool)a);", trace=["flag 1", "flag 0"])
T = "P"; mk, mk2 = "V<P> a(move(p));", "V<P> b(move(q));"; gone, gone2 = mk + " { V<P> t(move(a)); }", mk2 + " { V<P> t(move(b)); }"
w("mov_copy", MV, "Movable(const Movable&)", T, mk + " V<P> c(std::as_const(a)); PEEK(*a); PEEK(*c);", p=G, trace=["p", "p"])
w("mov_copy_empty", MV, "Movable(const Movable&)", T, gone + " V<P> c(std::as_const(a)); flag((bool)c);", p=G, trace=["flag 0"])
w("mov_cassign_vv", MV, "operator=(const Movable&)", T, mk + mk2 + " a = std::as_const(b); PEEK(*a); PEEK(*b); flag((bool)a); flag((bool)b);", p=G, q=G, trace=["q", "q", "flag 1", "flag 1"])
w("mov_cassign_ev", MV, "operator=(const Movable&)", T, gone + mk2 + " a = std::as_const(b); PEEK(*a); PEEK(*b); flag((bool)a);", p=G, q=G, trace=["q", "q", "flag 1"])
w("mov_cassign_ve", MV, "operator=(const Movable&)", T, mk + gone2 + " a = std::as_const(b); flag((bool)a);", p=G, q=G, trace=["flag 0"])
w("mov_cassign_ee", MV, "operator=(const Movable&)", T, gone + gone2 + " a = std::as_const(b); flag((bool)a);", p=G, q=G, trace=["flag 0"])
w("mov_cassign_self", MV, "operator=(const Movable&)", T, mk + " V<P>& r = a; a = std::as_const(r); PEEK(*a); flag((bool)a);", p=G, trace=["p", "flag 1"])

w("memswap", MS, "MemSwap", "P", "crubit::MemSwap(p, q); PEEK(p); PEEK(q);", p="q", q="p", trace=["q", "p"])
w("memswap_self", MS, "MemSwap", "P", "P& r = p; crubit::MemSwap(p, r); PEEK(p);", p="p", trace=["p"])
w("ma_assign", MA, "MoveAssignOrDestroyAndConstruct", "M", "crubit::MoveAssignOrDestroyAndConstruct(&p, move(q)); PEEK(p);", p="q", q=G, trace=["q"])
w("ma_construct", MA, "MoveAssignOrDestroyAndConstruct", "C", "crubit::MoveAssignOrDestroyAndConstruct(&p, move(q)); PEEK(p);", p="q", q=G, trace=["q"])

def rt(abi, make, T, name, body_in, out, **k): pass
BUF = "alignas(16) unsigned char buf[{n}];"
def bridge(name, T, abi, value, out, **k):
    w(name, BR, abi + "::Encode/Decode", T, f"auto mk = [] {{ return {abi}; }}; using Abi = decltype(mk()); unsigned char buf[Abi::kSize]; crubit::internal::Encode(mk(), buf, {value}); {out.replace('DECODE', 'crubit::internal::Decode(mk(), buf)')}", **k)
for T in ("P", "M"):
    X = f"crubit::TransmuteAbi<{T}>()"; TX = f"crubit::TransmuteAbi<{T}>"
    bridge(f"br_transmute_{T}", T, X, "move(p)", "return DECODE;", p=G, ret="p")
    bridge(f"br_box_{T}", T, f"crubit::BoxedAbi<{T}>()", "move(p)", "return DECODE;", p=G, ret="p")
    bridge(f"br_some_{T}", T, f"crubit::OptionAbi<{TX}>{{{X}}}", f"std::optional<{T}>(move(p))", f"std::optional<{T}> o(DECODE); flag(o.has_value()); PEEK(*o);", p=G, trace=["flag 1", "p"])
    bridge(f"br_none_{T}", T, f"crubit::OptionAbi<{TX}>{{{X}}}", f"std::optional<{T}>()", f"std::optional<{T}> o(DECODE); flag(o.has_value());", p="p", trace=["flag 0"])
    bridge(f"br_pair_{T}", T, f"crubit::PairAbi<{TX}, {TX}>({X}, {X})", f"std::pair<{T}, {T}>(move(p), move(q))", f"std::pair<{T}, {T}> o(DECODE); PEEK(o.first); PEEK(o.second);", p=G, q=G, trace=["p", "q"])
    bridge(f"br_tuple_{T}", T, f"crubit::TupleAbi<{TX}, {TX}>{{std::make_tuple({X}, {X})}}", f"std::tuple<{T}, {T}>(move(p), move(q))", f"std::tuple<{T}, {T}> o(DECODE); PEEK(std::get<0>(o)); PEEK(std::get<1>(o));", p=G, q=G, trace=["p", "q"])

for T in ("P", "M", "C"):
    some, some2 = f"Opt<{T}> o(move(p));", f"o = move(q);"
    w(f"opt_none_{T}", OP, "OptionBase()", T, f"Opt<{T}> o; flag(o.has_value());", p="p", trace=["flag 0"])
    w(f"opt_nullopt_{T}", OP, "OptionBase(nullopt_t)", T, f"Opt<{T}> o(std::nullopt); flag(o.has_value());", p="p", trace=["flag 0"])
    w(f"opt_some_{T}", OP, "OptionBase(U&&), operator*", T, some + " flag(o.has_value()); PEEK(*o);", p=G, trace=["flag 1", "p"])
    w(f"opt_inplace_{T}", OP, "OptionBase(in_place_t)", T, f"Opt<{T}> o(std::in_place, move(p)); flag(o.has_value()); PEEK(*o.operator->());", p=G, trace=["flag 1", "p"])
    w(f"opt_clear_some_{T}", OP, "operator=(nullopt_t)", T, some + " o = std::nullopt; flag(o.has_value());", p=G, trace=["flag 0"])
    w(f"opt_clear_none_{T}", OP, "operator=(nullopt_t)", T, f"Opt<{T}> o; o = std::nullopt; flag(o.has_value());", p="p", trace=["flag 0"])
    w(f"opt_set_some_{T}", OP, "operator=(U&&)", T, some + some2 + " flag(o.has_value()); PEEK(*o);", p=G, q=G, trace=["flag 1", "q"])
    w(f"opt_set_none_{T}", OP, "operator=(U&&)", T, f"Opt<{T}> o;" + some2 + " flag(o.has_value()); PEEK(*o);", p="p", q=G, trace=["flag 1", "q"])
    w(f"opt_fromstd_{T}", OP, "OptionBase(std::optional&&)", T, f"std::optional<{T}> s(move(p)); Opt<{T}> o(move(s)); flag(o.has_value()); PEEK(*o);", p=G, trace=["flag 1", "p"])
    w(f"opt_fromstd_none_{T}", OP, "OptionBase(std::optional&&)", T, f"std::optional<{T}> s; Opt<{T}> o(move(s)); flag(o.has_value());", p="p", trace=["flag 0"])
    for src, pre in (("some", some), ("none", f"Opt<{T}> o;")):
        pv = G if src == "some" else "p"
        w(f"opt_assignstd_{src}_{T}", OP, "operator=(std::optional&&)", T, f"std::optional<{T}> s(move(q)); {pre} o = move(s); flag(o.has_value()); PEEK(*o);", p=pv, q=G, trace=["flag 1", "q"])
        w(f"opt_assignstd_empty_{src}_{T}", OP, "operator=(std::optional&&)", T, f"std::optional<{T}> s; {pre} o = move(s); flag(o.has_value());", p=pv, trace=["flag 0"])
    w(f"opt_tostd_{T}", OP, "operator std::optional", T, some + f" std::optional<{T}> s(move(o)); flag(s.has_value()); PEEK(*s); flag(o.has_value());", p=G, trace=["flag 1", "p", "flag 0"])
    w(f"opt_tostd_none_{T}", OP, "operator std::optional", T, f"Opt<{T}> o; std::optional<{T}> s(move(o)); flag(s.has_value()); flag(o.has_value());", p="p", trace=["flag 0", "flag 0"])
RL = "std::in_place, crubit::UnsafeRelocateTag{}, move(p)"
w("opt_fromstd_R", OP, "OptionBase(std::optional&&) by relocation", "R", f"std::optional<R> s({RL}); Opt<R> o(move(s)); flag(o.has_value()); PEEK(*o); flag(s.has_value());", p=False, trace=["flag 1", "p", "flag 0"])
w("opt_assignstd_R", OP, "operator=(std::optional&&) by relocation", "R", f"std::optional<R> s({RL}); Opt<R> o; o = move(s); flag(o.has_value()); PEEK(*o); flag(s.has_value());", p=False, trace=["flag 1", "p", "flag 0"])
w("opt_tostd_R", OP, "operator std::optional by relocation", "R", f"Opt<R> o({RL}); std::optional<R> s(move(o)); flag(s.has_value()); PEEK(*s); flag(o.has_value());", p=False, trace=["flag 1", "p", "flag 0"])

for T in ("P", "M", "C"):
    E = "E_"; R = f"Res<{T}, E_>"; U = "rs_std::unexpected<E_>"
    ok, er = f"{R} r(move(p));", f"{R} r({U}(move(q)));"
    t2 = (T, "E_")
    w(f"res_ok_{T}", RS, "ResultBase(U&&), value()", T, ok + " flag(r.has_value()); PEEK(r.value());", p=G, q="q", trace=["flag 1", "p"], types=t2)
    w(f"res_err_{T}", RS, "ResultBase(unexpected&&), error()", T, er + " flag(r.has_value()); PEEK(r.error());", p="p", q=G, trace=["flag 0", "q"], types=t2)
    w(f"res_inplace_{T}", RS, "ResultBase(in_place_t)", T, f"{R} r(std::in_place, move(p)); flag(r.has_value()); PEEK(*r);", p=G, q="q", trace=["flag 1", "p"], types=t2)
    w(f"res_unexpect_{T}", RS, "ResultBase(unexpect_t)", T, f"{R} r(rs_std::unexpect, move(q)); flag(r.has_value()); PEEK(r.err());", p="p", q=G, trace=["flag 0", "q"], types=t2)
    w(f"res_set_ok_err_{T}", RS, "operator=(U&&) from err", T, er + " r = move(p); flag(r.has_value()); PEEK(*r.operator->());", p=G, q=G, trace=["flag 1", "p"], types=t2)
    w(f"res_set_err_ok_{T}", RS, "operator=(unexpected&&) from ok", T, ok + f" r = {U}(move(q)); flag(r.has_value()); PEEK(r.error());", p=G, q=G, trace=["flag 0", "q"], types=t2)
    t3 = (T, T)
    w(f"res_set_ok_ok_{T}", RS, "operator=(U&&) from ok", T, ok + " r = move(q); flag(r.has_value()); PEEK(r.value());", p=G, q=G, trace=["flag 1", "q"], types=t3)
    w(f"res_set_err_err_{T}", RS, "operator=(unexpected&&) from err", T, f"{R} r({U}(move(p))); r = {U}(move(q)); flag(r.has_value()); PEEK(r.error());", p=G, q=G, trace=["flag 0", "q"], types=("E_", "E_"))

# ---- owning wrappers around Rust values: DynCallable (a boxed closure plus a manager) and DynErasedFuture
DYN_PRE = r'''
#include <cstring>
#include <utility>
#include "support/bridge.h"
#include "support/rs_std/dyn_callable.h"
#include "support/rs_std/dyn_erased_future.h"
#include "support/rs_std/waker.h"
#include "absl/functional/any_invocable.h"
using std::move;
namespace idc = rs_std::internal_dyn_callable;
extern "C" void peek(const void*); extern "C" void flag(int);
extern "C" void mgr(idc::FunctionToCall, idc::TypeErasedState*, idc::TypeErasedState*) noexcept;
extern "C" int inv(idc::TypeErasedState*, int); extern "C" int inv_once(idc::TypeErasedState*, int);
extern "C" int DISPOSE() { return (int)idc::FunctionToCall::dispose; }
extern "C" int RELOCATE() { return (int)idc::FunctionToCall::relocate_from_to; }
struct B { alignas(8) unsigned char s[24]; };
using F = rs_std::DynCallable<int(int)>; using FC = rs_std::DynCallable<int(int) const>; using FO = rs_std::DynCallable<int(int) &&>;
template <class S> auto abi() { return idc::DynCallableAbi<S>(mgr, inv); }
template <> auto abi<int(int) &&>() { return idc::DynCallableAbi<int(int) &&>(mgr, inv_once); }
template <class S> rs_std::DynCallable<S> mk(B& b) { return crubit::internal::Decode(abi<S>(), b.s); }
#define MK(v, b) F v(mk<int(int)>(b));
using U = crubit::DynErasedFuture<long>;
'''
DC, DF = "support/rs_std/dyn_callable.h", "support/rs_std/dyn_erased_future.h"
WD = []
def d(name, construct, body, trace=(), p=False, q=False, header=DC, T="B"):
    WD.append(dict(name=name, header=header, construct=construct, T=T, body=body, p=p, q=q, ret=None, trace=list(trace), types=(T, T)))
d("dyn_decode", "DynCallableAbi::Decode, ~DynCallable", "MK(a, p) flag((bool)a); flag(a == nullptr);", ["flag 1", "flag 0"], q="q*")
d("dyn_move", "DynCallable(DynCallable&&)", "MK(a, p) F c(move(a)); flag((bool)a); flag((bool)c); c(3);", ["flag 0", "flag 1", "p"], q="q*")
d("dyn_move_empty", "DynCallable(DynCallable&&)", "F a; F c(move(a)); flag((bool)a); flag((bool)c);", ["flag 0", "flag 0"], p="p*", q="q*")
d("dyn_assign_vv", "operator=(DynCallable&&)", "MK(a, p) MK(b, q) a = move(b); flag((bool)a); flag((bool)b); a(3);", ["flag 1", "flag 0", "q"])
d("dyn_assign_ev", "operator=(DynCallable&&)", "F a; MK(b, q) a = move(b); flag((bool)a); flag((bool)b); a(3);", ["flag 1", "flag 0", "q"], p="p*")
d("dyn_assign_mv", "operator=(DynCallable&&)", "MK(a, p) { F t(move(a)); } MK(b, q) a = move(b); flag((bool)a); flag((bool)b); a(3);", ["flag 1", "flag 0", "q"])
d("dyn_assign_ve", "operator=(DynCallable&&)", "MK(a, p) F b; a = move(b); flag((bool)a); flag((bool)b);", ["flag 0", "flag 0"], q="q*")
d("dyn_assign_null", "operator=(DynCallable&&)", "MK(a, p) a = nullptr; flag((bool)a);", ["flag 0"], q="q*")
d("dyn_assign_self", "operator=(DynCallable&&)", "MK(a, p) F& r = a; a = move(r);", [], q="q*")
d("dyn_swap", "swap", "MK(a, p) MK(b, q) swap(a, b); a(3); b(3);", ["q", "p"])
d("dyn_swap_empty", "swap", "MK(a, p) F b; a.swap(b); flag((bool)a); b(3);", ["flag 0", "p"], q="q*")
d("dyn_call", "operator()", "MK(a, p) a(3); a(4);", ["p", "p"], q="q*")
d("dyn_call_const", "operator() const", "FC a(mk<int(int) const>(p)); const FC& r = a; r(3); r(4);", ["p", "p"], q="q*")
d("dyn_call_once", "operator() &&", "FO a(mk<int(int) &&>(p)); move(a)(3); flag((bool)a);", ["once p", "flag 0"], q="q*")
d("dyn_call_once_moved", "operator() &&", "FO a(mk<int(int) &&>(p)); FO b(move(a)); move(b)(3); FO c(move(b)); flag((bool)c);", ["once p", "flag 0"], q="q*")
d("dyn_once_dropped", "~DynCallable", "FO a(mk<int(int) &&>(p)); flag((bool)a);", ["flag 1"], q="q*")
d("dyn_once_encode", "DynCallableAbi::Encode", "FO a(mk<int(int) &&>(p)); move(a)(3); crubit::internal::Encode(abi<int(int) &&>(), q.s, move(a)); flag(0);", ["once p", "flag 0"], q=None)
d("dyn_encode", "DynCallableAbi::Encode", "MK(a, p) crubit::internal::Encode(abi<int(int)>(), q.s, move(a)); flag((bool)a);", ["flag 0"], q="p*")
d("dyn_encode_empty", "DynCallableAbi::Encode", "F a; crubit::internal::Encode(abi<int(int)>(), q.s, move(a));", [], p="p*", q=None)
d("dyn_encode_moved", "DynCallableAbi::Encode", "MK(a, p) F c(move(a)); crubit::internal::Encode(abi<int(int)>(), q.s, move(a)); c(3);", ["p"], q=None)
d("fut_drop", "~DynErasedFuture", "U a(move(p)); peek(&a);", ["p"], p="pending", q="q", header=DF, T="U")
d("fut_move", "DynErasedFuture(DynErasedFuture&&)", "U a(move(p)); U b(move(a)); peek(&b); peek(&a);", ["p", "pending"], p="pending", q="q", header=DF, T="U")
d("fut_poll", "Poll", "long out; p.Poll(nullptr, &out);", ["p"], p="p", q="q", header=DF, T="U")

SIZES = 40
CLS = [(r"^(?:P|M|C|R|RM|E_|D)::(?:P|M|C|R|RM|E_|D)\(crubit::UnsafeRelocateTag, ", "relocate"), (r"^(\w+)::\1\(\1&&\)$", "move"), (r"^(\w+)::\1\(\1 const&\)$", "copy"), (r"^(\w+)::\1\((?:int)?\)$", "ctor"), (r"^(\w+)::~\1\(\)$", "dtor"), (r"^(\w+)::operator=\(\1&&\)$", "massign"), (r"^(\w+)::operator=\(\1 const&\)$", "cassign")]
def classify_names(dem):
    out = {}
    for n, d in dem.items():
        if n in ("peek", "sink", "flag"): out[n] = (n, 0); continue
        if re.search(r"\bEmptyManager\(", d): out[n] = ("ignore", 0); continue
        if d.startswith("operator new("): out[n] = ("new", 0); continue
        if d.startswith("operator delete("): out[n] = ("delete", 0); continue
        m = re.match(r"^(Opt|Res)<.*>::(is_none|set_none_tag|set_some_tag|set_ok_tag|set_err_tag|has_value_impl)\(\)(?: const)?$", d)
        if m:
            out[n] = ({"is_none": "is_none", "set_none_tag": "tag_none", "set_some_tag": "tag_some", "set_ok_tag": "ok_tag", "set_err_tag": "err_tag", "has_value_impl": "is_ok"}[m[2]], 0, tuple(a.strip() for a in d[d.index("<") + 1:d.rindex(">")].split(","))); continue
        for r, k in CLS:
            if re.match(r, d): out[n] = (k, SIZES, d.split("::")[0]); break
    return out


def source(ws, pre):
    return pre + "\n".join(f'extern "C" {x["T"] if x["ret"] else "void"} W_{x["name"]}({x["types"][0]}& p, {x["types"][1]}& q) {{ {x["body"]} }}' for x in ws)

def compile_ir(ctx, src, name="life"):
    f = os.path.join(ctx.tmp, name + ".cc"); open(f, "w").write(src)
    ll = f[:-3] + ".ll"
    r = ctx.run(["clang++", "-std=c++20", "-O2", "-w", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-mllvm", "-inline-threshold=20000", "-S", "-emit-llvm", f"-I{core.REPO}", f"-I{core.VERIF}/stubs", f, "-o", ll], ok=False)
    return r, ll

def compile_all(ctx, ws, pre, name):
    """the witnesses' IR; a witness that does not compile is a violation of its own"""
    r, ll = compile_ir(ctx, source(ws, pre), name)
    if r.returncode == 0: return llvm.Module(open(ll).read()), ws
    r0, _ = compile_ir(ctx, pre + "\nextern \"C\" void nothing() {}", name + "_pre")
    if r0.returncode: raise core.Broken("the support headers do not compile:\n" + r0.stderr[-3000:])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda x: (x, compile_ir(ctx, source([x], pre), "w_" + x["name"])[0]), ws))
    keep = []
    for x, r in res:
        if r.returncode == 0: keep.append(x); continue
        m = re.search(r"(\S+?):(\d+):\d+: error: (.*)", r.stderr)
        ctx.violate(f"{x['header']}: {x['construct']} [{x['name']}]: does not compile", x["header"], f"{x['construct']} cannot be instantiated for a {desc(x['T'])} type: {m[3] if m else r.stderr[-300:]}")
    r, ll = compile_ir(ctx, source(keep, pre), name)
    if r.returncode: raise core.Broken(r.stderr[-3000:])
    return llvm.Module(open(ll).read()), keep

def run(ctx):
    n = 0
    for ws, pre, name in ((W, PRE, "life"), (WD, DYN_PRE, "dyn")):
        mod, keep = compile_all(ctx, ws, pre, name)
        mod.distinct = True     # the witnesses' two arguments are different objects
        cls = classify_names(llvm.demangle(mod.decls | set(mod.fns)))
        size, at = SIZES, 0
        if name == "dyn":
            ops = {k: mod.paths(f)[0].ret for k, f in (("dispose", "DISPOSE"), ("relocate", "RELOCATE"))}
            cls.update(mgr=("manager", ops), inv=("peek", 0), inv_once=("consume", 0), rs_std_dyn_erased_future_init=("reinit", 16), rs_std_dyn_erased_future_drop=("dtor", 0), rs_std_dyn_erased_future_poll=("peek", 0))
            size = 16
        L = life.Life(mod, lambda f: cls.get(f))
        for x in keep:
            off = at
            if x["T"] == "B":      # where in the wire buffer the box starts: the lowest byte Decode reads
                off = wire_offset(mod)
            check(ctx, mod, L, cls, x, size, off); n += 1
    ctx.count("witness functions", n)
    ctx.count("member functions covered", len({(x["header"], x["construct"]) for x in W + WD}))

def wire_offset(mod):
    offs = []
    for p in mod.paths("W_dyn_decode"):
        for e in p.effects:
            srcs = [e[2]] if e[0] == "copy" else re.findall(r"ld:\S+?\((a0(?:\+\d+)?)\)", str(e[3])) if e[0] == "store" else []
            offs += [mod.addr(s)[1] for s in srcs if mod.addr(s)[0] == "a0"]
    if not offs: raise core.Broken("DynCallableAbi::Decode reads nothing from its buffer")
    return min(offs)

def desc(T): return {"P": "copyable", "M": "move-only", "C": "move-constructible, not assignable", "R": "relocate-only", "RM": "relocatable and movable", "D": "default-constructible", "B": "boxed closure", "U": "boxed future"}[T]

def check(ctx, mod, L, cls, x, size, off):
    key = f"{x['header']}: {x['construct']} [{x['name']}]"
    sh = 1 if x["ret"] else 0
    bp, bq = f"a{sh}", f"a{sh + 1}"
    ap, aq = mod.add(bp, off), mod.add(bq, off)
    init = {ap: ("p", size, x["types"][0])}
    if not (x["T"] == "B" and x["q"] in (None, "p*")): init[aq] = ("q", size, x["types"][1])
    def hook(path, callee, args):
        k = cls.get(callee)
        if k is None: return None
        if k[0] in ("is_none", "is_ok"):
            tg = L.replay(path, init).tag.get(args[0])
            if tg is None: return None
            return str(int(tg == "none")) if k[0] == "is_none" else str(int(tg == "ok"))
        if k[0] in ("massign", "cassign"): return args[0]
    def kills(callee, args):
        k = cls.get(callee)
        if k is None: return None
        if k[0] in ("peek", "flag", "delete", "new", "is_none", "is_ok", "tag_none", "tag_some", "ok_tag", "err_tag", "consume", "ignore"): return []
        if k[0] in ("ctor", "dtor", "reinit"): return [(args[0], size)]
        if k[0] == "manager": return [(args[2], size)]
        return [(args[0], size), (args[1], size)]
    try: paths = mod.paths("W_" + x["name"], hook=hook, kills=kills, revisit=6)
    except llvm.Unsupported as e: raise core.Broken(f"{key}: {e}")
    ends = 0
    for p in paths:
        ctx.count("paths")
        if p.end == "unreachable": continue
        if p.end != "ret": raise core.Broken(f"{key}: path ends in {p.end}")
        S = L.replay(p, init)
        exp = {}
        for base, a, v, own in ((bp, ap, x["p"], "p"), (bq, aq, x["q"], "q")):
            if v is False or (v is None and own == "q" and x["T"] == "B"): continue
            if v == own + "*": exp[a] = own
            elif v and v.endswith("*"): exp[base + "*"] = v[:-1]
            else: exp[a] = v or own
        if x["ret"]: exp["a0"] = x["ret"]
        errs = L.finish(S, exp)
        if S.copies and "const" not in x["construct"]: errs.append("the value is copied where the operation moves it")
        tr = [t[5:] if t.startswith("once ") else t for t in x["trace"]]
        if S.trace != tr: errs.append(f"observers see {S.trace}, expected {tr}")
        ends += 1
        for e in errs[:1]: ctx.violate(key, x["header"], f"{x['construct']} with a {desc(x['T'])} type: {e}")
    if not ends: ctx.violate(key, x["header"], f"{x['construct']} with a {desc(x['T'])} type never returns")
    ctx.obligation(f"{key}: {ends} path(s)")
