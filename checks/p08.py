"""Rust/C++ agreement on runtime protocols, read off both compilers' LLVM IR.

Codecs: for a set of composed wire formats, the stores of one language's Encode (which leaf is written where, per branch)
become the initial memory of the other language's Decode, whose sink must then receive exactly the same leaves; sizes must
be equal.  Symbols: every unmangled function shared by a support crate and a support header has the same lowered signature.
Wakers: each entry point of the Rust Waker is followed through the vtable into C++ and must reach the virtual function it
stands for, once, and polling must neither clone nor release the borrowed waker."""
import itertools, os, re
from concurrent.futures import ThreadPoolExecutor
import core, llvm

RULE = "what one side writes or calls is what the other side reads or implements: same offsets, sizes, flags, lowered signatures and waker entry points, on every path"
LEVEL = "other"

RS = {  # crate -> (path, deps)
 "bridge_rust": ("support/crubit_bridge_rust/src/bridge.rs", ()),
 "erased_future": ("support/rs_std/erased_future.rs", ()),
 "lossy_formatter": ("support/rs_std/lossy_formatter.rs", ()),
 "ffi_11": ("support/ffi_11/src/lib.rs", ()),
 "cpp_waker": (None, ()),
 "dyn_erased_future": ("support/rs_std/dyn_erased_future.rs", ("erased_future",)),
 "dyn_future": ("support/rs_std/dyn_future.rs", ("cpp_waker",)),
 "lossy_formatter_for_bindings": ("support/rs_std/lossy_formatter_for_bindings.rs", ("lossy_formatter", "ffi_11")),
 "dyn_callable_rs": ("support/rs_std/dyn_callable.rs", ("bridge_rust",)),
 "ffi_types": ("common/ffi_types.rs", ()),
 "external_binaries": ("common/external_binaries.rs", ()),
}

# ---- wire formats: (name, Rust ABI, C++ ABI, shapes); a shape gives the value on both sides for one set of present leaves
L = [("a", "u8", "uint8_t"), ("b", "u32", "uint32_t"), ("c", "u64", "uint64_t"), ("d", "u16", "uint16_t"), ("e", "*const u8", "const unsigned char*"), ("f", "i16", "int16_t"), ("g", "i64", "int64_t"), ("h", "u8", "uint8_t"), ("i", "u32", "uint32_t"), ("j", "u16", "uint16_t"), ("k", "u64", "uint64_t"), ("l", "u8", "uint8_t")]
LT = {n: (r, c) for n, r, c in L}
class Fmt: pass
def leaf(n):
    f = Fmt(); r, c = LT[n]
    f.rt, f.ct, f.rv, f.cv = f"TransmuteAbi<{r}>", f"crubit::TransmuteAbi<{c}>", "transmute_abi()", f"crubit::TransmuteAbi<{c}>()"
    f.shapes = [((n,), n, n)]
    f.rsink = f.csink = lambda v, acc, k: k(acc + [(v, n)])
    return f
def tup(*fs, pair=False):
    f = Fmt()
    f.rt = "(" + "".join(x.rt + "," for x in fs) + ")"
    f.ct = ("crubit::PairAbi" if pair else "crubit::TupleAbi") + "<" + ", ".join(x.ct for x in fs) + ">"
    f.rv = "(" + "".join(x.rv + "," for x in fs) + ")"
    f.cv = f"{f.ct}({', '.join(x.cv for x in fs)})" if pair else f"{f.ct}{{std::make_tuple({', '.join(x.cv for x in fs)})}}"
    f.shapes = [(sum((s[0] for s in ss), ()), "(" + "".join(s[1] + "," for s in ss) + ")", (f"{f.ct}::Value(" + ", ".join(s[2] for s in ss) + ")")) for ss in itertools.product(*[x.shapes for x in fs])]
    def go(i, v, acc, k, get, which):
        if i == len(fs): return k(acc)
        return getattr(fs[i], which)(get(v, i), acc, lambda a: go(i + 1, v, a, k, get, which))
    f.rsink = lambda v, acc, k: go(0, v, acc, k, lambda v, i: f"{v}.{i}", "rsink")
    f.csink = lambda v, acc, k: go(0, v, acc, k, (lambda v, i: f"{v}.{('first', 'second')[i]}") if pair else (lambda v, i: f"std::get<{i}>({v})"), "csink")
    return f
_n = [0]
def opt(x):
    f = Fmt()
    f.rt, f.ct = f"OptionAbi<{x.rt}>", f"crubit::OptionAbi<{x.ct}>"
    f.rv, f.cv = f"OptionAbi({x.rv})", f"{f.ct}{{{x.cv}}}"
    f.shapes = [((), "None", f"{f.ct}::Value(std::nullopt)")] + [(s[0], f"Some({s[1]})", f"{f.ct}::Value(std::in_place, {s[2]})") for s in x.shapes]
    def rs(v, acc, k):
        _n[0] += 1; b = f"x{_n[0]}"
        return f"if let Some({b}) = {v} {{ {x.rsink(b, acc, k)} }} else {{ {k(acc)} }}"
    def cs(v, acc, k):
        return f"if (({v}).has_value()) {{ {x.csink(f'(*({v}))', acc, k)} }} else {{ {k(acc)} }}"
    f.rsink, f.csink = rs, cs
    return f
def formats():
    l = leaf
    yield "scalar", l("b")
    for n in range(1, 13): yield f"tuple{n}", tup(*[l(x[0]) for x in L[:n]])
    yield "pair", tup(l("a"), l("c"), pair=True)
    yield "pair_pair", tup(tup(l("a"), l("c"), pair=True), l("b"), pair=True)
    yield "option", opt(l("b"))
    yield "option_option", opt(opt(l("d")))
    yield "option_tuple", opt(tup(l("a"), l("c"), l("b")))
    yield "tuple_option", tup(l("a"), opt(l("b")), l("c"), opt(l("d")), l("h"))
    yield "nested", tup(opt(tup(l("a"), opt(l("c")))), tup(l("b"), tup(l("d"), l("e"))))
    yield "pair_option", tup(opt(l("a")), opt(l("e")), pair=True)

def codec_sources():
    rs, cc, plan = [], [], []
    sinks = {}
    for name, f in formats():
        rs.append(f"#[no_mangle] pub fn size_{name}() -> usize {{ <{f.rt} as CrubitAbi>::SIZE }}")
        cc.append(f'extern "C" size_t size_{name}() {{ return {f.ct}::kSize; }}')
        shapes = []
        for i, (ls, rv, cv) in enumerate(f.shapes):
            rs.append(f"#[no_mangle] pub unsafe fn enc_{name}_{i}(buf: *mut u8{''.join(f', {x}: {LT[x][0]}' for x in ls)}) {{ internal::encode::<{f.rt}>({f.rv}, buf, {rv}) }}")
            cc.append(f'extern "C" void enc_{name}_{i}(unsigned char* buf{"".join(f", {LT[x][1]} {x}" for x in ls)}) {{ crubit::internal::Encode({f.cv}, buf, {cv}); }}')
            shapes.append(ls)
        def k(acc):
            s = "sink_" + ("".join(n for _, n in acc) or "none"); sinks[s] = tuple(n for _, n in acc)
            return f"{s}({', '.join(v for v, _ in acc)});"
        rs.append(f"#[no_mangle] pub unsafe fn dec_{name}(buf: *const u8) {{ let v = internal::decode::<{f.rt}>({f.rv}, buf); {f.rsink('v', [], k)} }}")
        cc.append(f'extern "C" void dec_{name}(const unsigned char* buf) {{ auto v = crubit::internal::Decode({f.cv}, buf); {f.csink("v", [], k)} }}')
        plan.append((name, shapes))
    ext = 'extern "C" {' + "".join(f" fn {s}({', '.join(f'{x}: {LT[x][0]}' for x in ls)});" for s, ls in sinks.items()) + " }"
    cext = 'extern "C" {' + "".join(f" void {s}({', '.join(LT[x][1] for x in ls)});" for s, ls in sinks.items()) + " }"
    return ("#![allow(warnings)]\nuse bridge_rust::*;\n" + ext + "\n" + "\n".join(rs),
            "#include <cstdint>\n#include <cstddef>\n#include <optional>\n#include <tuple>\n#include <utility>\n#include \"support/bridge.h\"\n" + cext + "\n" + "\n".join(cc), plan)


def rust_irs(ctx):
    """{crate: Module} of the runtime crates (their own code, with witness functions appended where listed)"""
    d = os.path.join(ctx.tmp, "rs"); os.makedirs(d, exist_ok=True)
    rsrc, csrc, plan = codec_sources()
    extra = {"dyn_erased_future": WAKER_RS + POLL_RS + VT_RS % wvt(ctx, "dyn_erased_future"), "dyn_future": WAKER_RS + VT_RS % wvt(ctx, "dyn_future") + POLL2_RS, "dyn_callable_rs": DYN_RS, "ffi_types": FFI_RS}
    crates = {n: (open(f"{core.REPO}/{p}").read() if p else "pub mod rs_std { pub struct CppWaker { _opaque: [u8; 0] } }") + "\n" + extra.get(n, "") for n, (p, _) in RS.items()}
    deps = {n: x for n, (_, x) in RS.items()}
    crates["codecs"] = rsrc; deps["codecs"] = ("bridge_rust",)
    crates["views"] = VIEWS_RS; deps["views"] = ()
    def build(n):
        f = os.path.join(d, n + ".rs")
        src = f
        if n in extra or n in ("codecs", "views", "cpp_waker"): open(f, "w").write(crates[n])
        else: src = f"{core.REPO}/{RS[n][0]}"
        cmd = ["rustc", "--edition", "2021" if n in ("codecs", "views") else "2024", "-O", "-A", "warnings", "--cap-lints", "allow", "-C", "codegen-units=1", "-C", "panic=abort", "-C", "no-vectorize-slp", "-C", "no-vectorize-loops", "-Z", "merge-functions=disabled", "--crate-type", "rlib", "--crate-name", n, f"--emit=llvm-ir={d}/{n}.ll,link={d}/lib{n}.rlib", "-L", d]
        for x in deps[n]: cmd += ["--extern", f"{x}={d}/lib{x}.rlib"]
        ctx.run(cmd + [src])
    first = [n for n in crates if not deps[n]]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(build, first)); list(ex.map(build, [n for n in crates if deps[n]]))
    return {n: llvm.Module(open(f"{d}/{n}.ll").read()) for n in crates}, csrc, plan

def wvt(ctx, crate):
    """the static waker vtable of a crate, by its type"""
    src = open(f"{core.REPO}/{RS[crate][0]}").read()
    m = re.search(r"(?:static|const)\s+(\w+)\s*:\s*&\s*(?:'static\s+)?(?:[\w:]*::)?RawWakerVTable\b", src)
    if m: return m[1]
    m = re.search(r"(?:static|const)\s+(\w+)\s*:\s*(?:[\w:]*::)?RawWakerVTable\b", src)
    if m: return "&" + m[1]
    raise core.Broken(f"no waker vtable in {crate}")

VT_RS = "\nfn vt_table() -> &'static core::task::RawWakerVTable { %s }\n"
WAKER_RS = """
unsafe fn vt_new(p: *const ()) -> core::mem::ManuallyDrop<core::task::Waker> { core::mem::ManuallyDrop::new(unsafe { core::task::Waker::new(p, vt_table()) }) }
#[unsafe(no_mangle)] pub unsafe fn vt_wake(p: *const ()) { core::mem::ManuallyDrop::into_inner(unsafe { vt_new(p) }).wake() }
#[unsafe(no_mangle)] pub unsafe fn vt_wake_by_ref(p: *const ()) { unsafe { vt_new(p) }.wake_by_ref() }
#[unsafe(no_mangle)] pub unsafe fn vt_drop(p: *const ()) { drop(core::mem::ManuallyDrop::into_inner(unsafe { vt_new(p) })) }
#[unsafe(no_mangle)] pub unsafe fn vt_clone(p: *const ()) -> *const () { let c = core::mem::ManuallyDrop::new((*unsafe { vt_new(p) }).clone()); c.data() }
#[unsafe(no_mangle)] pub unsafe fn vt_clone_wake(p: *const ()) { (*unsafe { vt_new(p) }).clone().wake() }
#[unsafe(no_mangle)] pub unsafe fn vt_clone_clone_drop(p: *const ()) { let c = (*unsafe { vt_new(p) }).clone(); let d = core::mem::ManuallyDrop::new(c.clone()); }
"""
POLL_RS = """
pub struct VtFut; unsafe extern "C" { fn vt_ext_poll() -> bool; fn vt_ext_value() -> u64; }
impl core::future::Future for VtFut { type Output = u64; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> core::task::Poll<u64> { if unsafe { vt_ext_poll() } { core::task::Poll::Ready(unsafe { vt_ext_value() }) } else { core::task::Poll::Pending } } }
#[unsafe(no_mangle)] pub unsafe fn vt_poll(f: Pin<&mut VtFut>, cx: &mut Context<'_>, out: *mut ()) -> bool { unsafe { f.poll_erased(cx, out) }.is_ready() }
"""
POLL2_RS = """
#[unsafe(no_mangle)] pub unsafe fn vt_dynfuture_poll(f: &mut DynFuture<'_>, w: *const CppWaker) -> bool { unsafe { f.poll(w) } }
"""
DYN_RS = """
#[unsafe(no_mangle)] pub unsafe fn dyn_encode(buf: *mut u8, v: Box<dyn Fn()>, fb: Box<dyn Fn()>) { bridge_rust::internal::encode(DynCallableAbi::new(fb), buf, v) }
#[unsafe(no_mangle)] pub fn dyn_size() -> usize { <DynCallableAbi<dyn Fn()> as CrubitAbi>::SIZE }
unsafe extern "C" { fn present(a: *const (), b: *const ()); fn absent(); }
#[unsafe(no_mangle)] pub unsafe fn dyn_decode(buf: *const u8) {
    trait Tr {} impl Tr for u8 {}
    let fb: Box<dyn Tr> = unsafe { core::mem::transmute([core::ptr::without_provenance::<()>(8), core::ptr::without_provenance::<()>(16)]) };
    let v: Box<dyn Tr> = unsafe { bridge_rust::internal::decode(DynCallableAbi::new(fb), buf) };
    let r: [*const (); 2] = unsafe { core::mem::transmute(v) };
    if r[0] as usize == 8 { unsafe { absent() } } else { unsafe { present(r[0], r[1]) } }
}
"""
FFI_RS = """
#[unsafe(no_mangle)] pub unsafe fn ffi_slice(out: *mut FfiU8Slice, p: *const u8, n: usize) { unsafe { out.write(FfiU8Slice::from_slice(slice::from_raw_parts(p, n))) } }
#[unsafe(no_mangle)] pub unsafe fn ffi_box(out: *mut FfiU8SliceBox, p: *const u8, n: usize) { unsafe { out.write(FfiU8SliceBox { ptr: p, size: n }) } }
"""
VIEWS_RS = """
#![allow(warnings)]
#[no_mangle] pub unsafe fn view_slice(out: *mut &'static [u32], p: *const u32, n: usize) { out.write(core::slice::from_raw_parts(p, n)) }
#[no_mangle] pub unsafe fn view_str(out: *mut &'static str, p: *const u8, n: usize) { out.write(core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n))) }
#[no_mangle] pub fn view_slice_size() -> usize { core::mem::size_of::<&[u32]>() }
#[no_mangle] pub fn view_str_size() -> usize { core::mem::size_of::<&str>() }
#[no_mangle] pub fn char_size() -> usize { core::mem::size_of::<char>() * 100 + core::mem::align_of::<char>() }
#[no_mangle] pub fn usize_size() -> usize { core::mem::size_of::<usize>() * 100 + core::mem::align_of::<usize>() }
"""
CC = r'''
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
#include "support/bridge.h"
#include "support/rs_std/char.h"
#include "support/rs_std/cpp_waker.h"
#include "support/rs_std/waker.h"
#include "support/rs_std/dyn_callable.h"
#include "support/rs_std/dyn_erased_future.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"
#include "support/rs_std/lossy_formatter_for_bindings.h"
#include "common/ffi_types.h"
#include "common/external_binaries.h"
namespace idc = rs_std::internal_dyn_callable;
extern "C" void present(const void*, const void*); extern "C" void absent();
void mgr(idc::FunctionToCall, idc::TypeErasedState*, idc::TypeErasedState*) noexcept; extern "C" void inv(idc::TypeErasedState*);
void mgr(idc::FunctionToCall f, idc::TypeErasedState* from, idc::TypeErasedState* to) noexcept { if (f != idc::FunctionToCall::dispose) *to = *from; }
using FN = rs_std::DynCallable<void()>;
extern "C" size_t dyn_size() { return idc::DynCallableAbi<void()>::kSize; }
extern "C" void dyn_decode(const unsigned char* buf) {
  FN f = crubit::internal::Decode(idc::DynCallableAbi<void()>(mgr, [](idc::TypeErasedState* s) { const void* w[2]; std::memcpy(w, s, 16); present(w[0], w[1]); }), buf);
  f();
}
extern "C" void dyn_encode(unsigned char* buf, const unsigned char* from) {
  FN f = crubit::internal::Decode(idc::DynCallableAbi<void()>(mgr, inv), from);
  crubit::internal::Encode(idc::DynCallableAbi<void()>(mgr, inv), buf, std::move(f));
}
extern "C" void dyn_encode_empty(unsigned char* buf) { crubit::internal::Encode(idc::DynCallableAbi<void()>(mgr, inv), buf, FN()); }
extern "C" void view_slice(void* out, const uint32_t* p, size_t n) { new (out) rs_std::SliceRef<const uint32_t>(p, n); }
extern "C" size_t view_slice_size() { return sizeof(rs_std::SliceRef<const uint32_t>); }
extern "C" size_t view_str_size() { return sizeof(rs_std::StrRef); }
extern "C" void view_str(void* out, rs_std::StrRef s) { std::memcpy(out, &s, sizeof s); }
extern "C" const char* str_data(const rs_std::StrRef* s) { return s->data(); }
extern "C" size_t str_len(const rs_std::StrRef* s) { return s->size(); }
extern "C" const uint32_t* slice_data(const rs_std::SliceRef<const uint32_t>* s) { return s->data(); }
extern "C" size_t slice_len(const rs_std::SliceRef<const uint32_t>* s) { return s->size(); }
extern "C" size_t char_size() { return sizeof(rs_std::char_) * 100 + alignof(rs_std::char_); }
extern "C" size_t usize_size() { return sizeof(uintptr_t) * 100 + alignof(uintptr_t); }
extern "C" size_t future_size() { return sizeof(crubit::DynErasedFuture<int>) * 100 + alignof(crubit::DynErasedFuture<int>); }
extern "C" void ffi_slice(crubit::FfiU8Slice* out, const char* p, size_t n) { out->ptr = p; out->size = n; }
extern "C" void ffi_box(crubit::FfiU8SliceBox* out, const char* p, size_t n) { out->ptr = p; out->size = n; }
#include "support/rs_std/waker.cc"
#include "support/rs_std/cpp_waker.cc"
#define SLOTS(B, P) struct B##_ : rs_std::B { void WakeByRef() override; void WakeAndDestroy() override; rs_std::B* Clone() override; void Destroy() override; }; \
  extern "C" void P##_WakeByRef(B##_* w) { w->WakeByRef(); } extern "C" void P##_WakeAndDestroy(B##_* w) { w->WakeAndDestroy(); } \
  extern "C" rs_std::B* P##_Clone(B##_* w) { return w->Clone(); } extern "C" void P##_Destroy(B##_* w) { w->Destroy(); }
SLOTS(Waker, slot_waker) SLOTS(CppWaker, slot_cpp_waker)
'''

SYM_CRATES = {"dyn_erased_future": "support/rs_std/dyn_erased_future.rs", "dyn_future": "support/rs_std/dyn_future.rs", "lossy_formatter_for_bindings": "support/rs_std/lossy_formatter_for_bindings.rs", "ffi_types": "common/ffi_types.rs", "external_binaries": "common/external_binaries.rs"}
WITNESS = re.compile(r"vt_|ffi_(slice|box)$")

def leaf_types(t):
    """scalar parts of an LLVM type, pointers as words"""
    t = t.strip()
    if t in ("void", ""): return []
    if t == "ptr": return ["i64"]
    if t.startswith("{") or t.startswith("<{"): return sum((leaf_types(x) for x in llvm.split_top(t.strip("<>").strip()[1:-1])), [])
    m = re.fullmatch(r"\[(\d+) x (.*)\]", t)
    if m: return leaf_types(m[2]) * int(m[1])
    return [t]

def lowered(head):
    """(result, parameters) of a define/declare line, as lists of scalars with their extension or in-memory attribute"""
    i = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", head)
    ret = re.sub(r"^(define|declare)\b", "", head[:i.start()])
    d, j = 1, i.end()
    while d: d += {"(": 1, ")": -1}.get(head[j], 0); j += 1
    def part(x):
        x = x.strip()
        if x == "...": return ["..."]
        m = re.search(r"(?:^|\s)(\{.*\}|\[\d+ x .*\]|ptr|void|i\d+|float|double)(?=\s|$)", re.sub(r"\((?:[^()]|\([^()]*\))*\)", "", x))
        ts = leaf_types(m[1])
        for a in ("zeroext", "signext", "sret", "byval", "inreg"):
            if re.search(rf"\b{a}\b", x): ts = [t + " " + a for t in ts if t != "i1"] + [t for t in ts if t == "i1"]     # bool is 0 or 1 on both sides
        return ts
    return part(ret), sum((part(x) for x in llvm.split_top(head[i.end():j - 1]) if x.strip()), [])

def heads(ir):
    out = {}
    for l in ir.splitlines():
        if l.startswith(("define ", "declare ")):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", l)
            out.setdefault(m[1].strip('"'), l)
    return out

def symbols(ctx, texts):
    """every C symbol a support crate defines or imports, against the C++ prototype of that name"""
    mine = {}
    for c, where in SYM_CRATES.items():
        for n, l in heads(texts[c]).items():
            if re.match(r"_R|_ZN|llvm\.|rust_|__rust|mem(cpy|cmp|move|set)$|bcmp$|strlen$", n) or WITNESS.match(n) or ".llvm." in n: continue
            mine[n] = (where, l, "defines" if l.startswith("define") else "imports")
    def qual(n):
        r = ctx.run(["clang++", "-std=c++20", "-w", "-fno-exceptions", f"-I{core.REPO}", f"-I{core.VERIF}/stubs", "-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", f"-ast-dump-filter={n}", os.path.join(ctx.tmp, "cc.cc")], ok=False)
        q = {x for x in re.findall(r"^Dumping (\S+?):?$", r.stdout, re.M) if x.split("::")[-1] == n}
        return n, q
    with ThreadPoolExecutor(8) as ex: quals = dict(ex.map(qual, mine))
    use = ["#define LOSSY 1"]
    for n, q in sorted(quals.items()):
        if not q: ctx.violate(f"symbol {n}: no C++ declaration", mine[n][0], f"{mine[n][0]} {mine[n][2]} `{n}`, which no C++ support header declares")
        else: use.append(f"auto* vt_use_{n} = &{sorted(q)[0]};")
    import p31
    r, ll = p31.compile_ir(ctx, CC + "\n".join(use), "syms")
    if r.returncode: raise core.Broken("C symbols: " + r.stderr[-2000:])
    theirs = heads(open(ll).read())
    for n, (where, l, how) in sorted(mine.items()):
        if not quals[n]: continue
        if n not in theirs: ctx.violate(f"symbol {n}: C++ name differs", where, f"{where} {how} `{n}`, but the C++ function of that name does not have C linkage"); continue
        a, b = lowered(l), lowered(theirs[n])
        sh = lambda x: f"({', '.join(x[1])}) -> ({', '.join(x[0])})"
        ctx.obligation(f"symbol {n}: {sh(a)}")
        if a != b: ctx.violate(f"symbol {n}: signatures differ", where, f"`{n}` is {sh(a)} in Rust and {sh(b)} in C++")
        if how == "imports" and not theirs[n].startswith("define"): ctx.violate(f"symbol {n}: not defined", where, f"Rust imports `{n}`, which the C++ support code does not define")
    ctx.count("C symbols", len(mine))
    core.floor(ctx, "C symbols", len(mine), 15)

def image(mod, fn):
    """initial memory for a decoder, from the stores of an encoder (one path, no other effects on the buffer)"""
    ps = [p for p in mod.paths(fn) if p.end == "ret"]
    mems = []
    for p in ps:
        m = {}
        for e in p.effects:
            if e[0] == "store" and mod.addr(e[1])[0] == "a0": m[e[1]] = (e[3], e[2])
            elif e[0] in ("copy", "set") and mod.addr(e[1])[0] == "a0": raise core.Broken(f"{fn}: bulk write to the buffer")
        mems.append(m)
    if any(m != mems[0] for m in mems): raise core.Broken(f"{fn}: the encoding depends on more than the value")
    if not mems: raise core.Broken(f"{fn} never returns")
    return mems[0]

def overlap(img):
    spans = sorted((int(re.fullmatch(r"a0(?:\+(-?\d+))?", k)[1] or 0), {"ptr": 8, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "i1": 1}[t], k) for k, (v, t) in img.items())
    return [(a, b) for a, b in zip(spans, spans[1:]) if a[0] + a[1] > b[0]], spans

def rename(v, off):
    """the encoder's parameters, apart from the decoder's"""
    return re.sub(r"\ba(\d+)\b", lambda m: "v" + m[1], v)

def codecs(ctx, R, C, plan):
    n = 0
    for name, shapes in plan:
        sz = {l: m.paths("size_" + name)[0].ret for l, m in (("Rust", R), ("C++", C))}
        if sz["Rust"] != sz["C++"]: ctx.violate(f"format {name}: sizes differ", "support/bridge.h", f"wire format {name} is {sz['Rust']} bytes in Rust and {sz['C++']} in C++")
        for i, ls in enumerate(shapes):
            imgs = {}
            for lang, m in (("Rust", R), ("C++", C)):
                img = image(m, f"enc_{name}_{i}")
                bad, spans = overlap(img)
                where = WHERE[lang]
                if bad: ctx.violate(f"{lang} encode {name} {i}: overlapping writes", where, f"{lang}'s encoding of {name} writes two parts over each other")
                if spans and (spans[0][0] < 0 or spans[-1][0] + spans[-1][1] > int(sz[lang])): ctx.violate(f"{lang} encode {name} {i}: outside the buffer", where, f"{lang}'s encoding of {name} writes outside its {sz[lang]} bytes")
                imgs[lang] = {k: rename(v, 0) for k, (v, t) in img.items()}
            for a, b in (("Rust", "C++"), ("C++", "Rust"), ("Rust", "Rust"), ("C++", "C++")):
                m = {"Rust": R, "C++": C}[b]
                want = "sink_" + ("".join(ls) or "none"), tuple(f"v{k + 1}" for k in range(len(ls)))
                got = set()
                for p in m.paths(f"dec_{name}", mem=dict(imgs[a])):
                    if p.end == "unreachable": continue
                    got.add(tuple((e[1], e[2]) for e in p.effects if e[0] == "call" and e[1].startswith("sink_")))
                n += 1
                ctx.obligation(f"format {name}, value {i} ({len(ls)} leaves): {a} -> {b}")
                if got != {(want,)}:
                    ctx.violate(f"format {name} value {i}: {a} to {b}", WHERE[b], f"a {name} value with parts {ls or 'none'} encoded by {a} is decoded by {b} as {sorted(got)[:2]} instead of {want[0]}{want[1]}")
    ctx.count("codec round trips", n)
WHERE = {"Rust": "support/crubit_bridge_rust/src/bridge.rs", "C++": "support/bridge.h"}

def callables(ctx, R, C):
    sz = R.paths("dyn_size")[0].ret, C.paths("dyn_size")[0].ret
    if sz[0] != sz[1]: ctx.violate("DynCallable: sizes differ", "support/rs_std/dyn_callable.h", f"DynCallableAbi is {sz[0]} bytes in Rust, {sz[1]} in C++")
    def calls(p, names): return tuple((e[1], e[2]) for e in p.effects if e[0] == "call" and e[1] in names)
    img = {k: rename(v, 0) for k, (v, t) in image(R, "dyn_encode").items()}
    got = {calls(p, ("present", "absent")) for p in C.paths("dyn_decode", mem=img) if p.end != "unreachable"}
    ctx.obligation("DynCallable: Rust encode -> C++ decode")
    if got != {(("present", ("v1", "v2")),)}: ctx.violate("DynCallable: Rust to C++", "support/rs_std/dyn_callable.h", f"a Box<dyn Fn> (v1, v2) sent by Rust is received by C++ as {sorted(got)}")
    src = C.paths("dyn_decode")[0]
    box = [e[2] for e in src.effects if e[0] == "call" and e[1] == "present"][0]
    loads = [re.fullmatch(r"ld:\w+\(a0(\+\d+)?\)", x) for x in box]
    if not all(loads): raise core.Broken("DynCallable: C++ decode does not read its buffer")
    held = {f"a1{l[1] or ''}": f"v{k + 1}" for k, l in enumerate(loads)}
    for fn, what, mem in (("dyn_encode", "present", held), ("dyn_encode_empty", "absent", {})):
        ims = []
        for p in C.paths(fn, mem=dict(mem)):
            if p.end != "ret": continue
            ims.append({e[1]: e[3] for e in p.effects if e[0] == "store" and C.addr(e[1])[0] == "a0"})
        got = set()
        for im in ims:
            for p in R.paths("dyn_decode", mem=im):
                if p.end == "unreachable": continue
                if any(re.match(r"icmp eq\((8, v1|v1, 8)\)", c) and t for c, t in p.conds): continue    # the box is not the fallback's
                got.add(calls(p, ("present", "absent")))
        want = (("present", ("v1", "v2")),) if what == "present" else (("absent", ()),)
        ctx.obligation(f"DynCallable: C++ encode ({what}) -> Rust decode")
        if got != {want}: ctx.violate(f"DynCallable: C++ to Rust, {what}", "support/rs_std/dyn_callable.rs", f"a {'callable holding (v1, v2)' if what == 'present' else 'moved-from callable'} sent by C++ is received by Rust as {sorted(got)}")

def views(ctx, V, C, F):
    def stores(m, fn, base="a0"): return [{m.addr(e[1])[1]: e[3] for e in p.effects if e[0] == "store" and m.addr(e[1])[0] == base} for p in m.paths(fn) if p.end == "ret"]
    for k in ("view_slice_size", "view_str_size", "char_size", "usize_size"):
        a, b = V.paths(k)[0].ret, C.paths(k)[0].ret
        ctx.obligation(f"{k}: {a}")
        if a != b: ctx.violate(f"{k}", "support/rs_std", f"{k}: Rust {a}, C++ {b}")
    for kind, fns, where in (("slice", ("slice_data", "slice_len"), "support/rs_std/slice_ref.h"), ("str", ("str_data", "str_len"), "support/rs_std/str_ref.h")):
        rs = stores(V, "view_" + kind)
        if len(rs) != 1: raise core.Broken("views: the Rust view has several layouts")
        where_is = {v: o for o, v in rs[0].items()}        # a1 pointer, a2 length
        for fn, part in zip(fns, ("a1", "a2")):
            o = where_is[part]
            for p in C.paths(fn):
                if p.end != "ret": continue
                ctx.obligation(f"{kind}: C++ {fn} reads Rust's {'pointer' if part == 'a1' else 'length'} at offset {o}")
                if p.ret == "0" and part == "a1" and any(x in c and t for c, t in p.conds for x in (f"icmp eq(0, {ldterm(C, where_is['a2'])})",)): continue    # empty: null
                if p.ret != ldterm(C, o, "ptr" if part == "a1" else "i64"): ctx.violate(f"{kind}: {fn} layout", where, f"{fn}() of a {kind} made by Rust returns {p.ret}; the {'pointer' if part == 'a1' else 'length'} is at offset {o}")
    for kind in ("slice", "box"):
        a, b = stores(F, "ffi_" + kind), stores(C, "ffi_" + kind)
        ctx.obligation(f"FfiU8{kind} fields: {a}")
        if a != b: ctx.violate(f"ffi_types: {kind} layout", "common/ffi_types.h", f"FfiU8Slice{'Box' if kind == 'box' else ''} fields are {a} in Rust and {b} in C++")

def ldterm(C, off, ty="i64"): return f"ld:{ty}(a0{f'+{off}' if off else ''})"

WAKES = [("vt_wake", ["WakeAndDestroy"]), ("vt_wake_by_ref", ["WakeByRef"]), ("vt_drop", ["Destroy"]), ("vt_clone", ["Clone"]), ("vt_clone_wake", ["Clone", "WakeAndDestroy*"]), ("vt_clone_clone_drop", ["Clone", "Clone*", "Destroy*"])]
def wakers(ctx, mod, C, cls, where):
    """Rust Waker operation -> C symbol -> C++ virtual function"""
    slot = {}
    for meth in ("WakeByRef", "WakeAndDestroy", "Clone", "Destroy"):
        ps = C.paths(f"{cls}_{meth}")
        slot[[e[1] for e in ps[0].effects if e[0] == "call"][0]] = meth
    def through(sym, arg):
        """the virtual functions a C symbol calls, as (method, ok receiver, returns its result)"""
        if sym not in C.fns: return None
        out = []
        for p in C.paths(sym):
            cs = [e for e in p.effects if e[0] == "call"]
            out.append(tuple((slot.get(e[1], e[1]), e[2][:1] == ("a0",)) for e in cs) + ((p.ret is not None and p.ret.startswith("call1:"),) if p.ret is not None else ()))
        return out
    for fn, want in (WAKES if "vt_wake" in mod.fns else []):
        for p in mod.paths(fn):
            if p.end != "ret": continue
            seen, bad = [], None
            for e in p.effects:
                if e[0] != "call": continue
                t = through(e[1], e[2])
                if t is None: bad = f"calls {e[1]}"; break
                if len(t) != 1 or len([x for x in t[0] if isinstance(x, tuple)]) != 1: bad = f"`{e[1]}` calls {t}"; break
                (meth, recv) = t[0][0]
                if not recv: bad = f"`{e[1]}` does not call its own waker"; break
                if meth == "Clone" and t[0][1:] != (True,): bad = f"`{e[1]}` does not return the clone"; break
                src = e[2][0] if e[2] else "?"
                seen.append(meth + ("" if src == "a0" else "*" if re.match(r"call1:", src) else "?"))
            ctx.obligation(f"{where}: {fn[3:]} -> {' '.join(want)}")
            if not bad and fn == "vt_clone" and not (p.ret or "").startswith("call1:"): bad = "the clone does not hold the pointer C++ returned"
            if bad or seen != want: ctx.violate(f"{where}: waker {fn[3:]}", where, f"Rust `Waker` operation {fn[3:].replace('_', ' ')} reaches {seen} on the C++ waker, expected {want}" + (f" ({bad})" if bad else ""))

def polls(ctx, D, F):
    where = "support/rs_std/erased_future.rs"
    for p in D.paths("vt_poll"):
        if p.end != "ret": continue
        ready = [t for c, t in p.conds if "vt_ext_poll" in c]
        pos = [t if not c.startswith("not(") and "icmp eq" not in c else not t for c, t in p.conds if "vt_ext_poll" in c]
        called = any(e[1] == "vt_ext_value" for e in p.effects if e[0] == "call")
        wrote = [e for e in p.effects if e[0] == "store" and e[1] == "a2"]
        ok = p.ret in ("1", "0") and (p.ret == "1") == called if p.ret in ("0", "1") else None
        if ok is None and "vt_ext_poll" in str(p.ret): ok = not str(p.ret).startswith("not(")
        ctx.obligation(f"{where}: poll_erased {'ready' if called else 'pending'}: returns {p.ret}, writes {len(wrote)}")
        if not ok: ctx.violate("poll_erased: result", where, f"poll_erased returns {p.ret} when the future is {'ready' if called else 'pending'}")
        if called and not (len(wrote) == 1 and "vt_ext_value" in wrote[0][3]): ctx.violate("poll_erased: output", where, "poll_erased does not write the output of a ready future through `out`")
        if not called and wrote: ctx.violate("poll_erased: early output", where, "poll_erased writes through `out` although the future is pending")
    for m, fn, w in ((D, "rs_std_dyn_erased_future_poll", "support/rs_std/dyn_erased_future.rs"), (F, "vt_dynfuture_poll", "support/rs_std/dyn_future.rs")):
        for p in m.paths(fn):
            if p.end == "unreachable": continue
            bad = [e[1] for e in p.effects if e[0] == "call" and re.search(r"waker_(clone|drop|wake)", e[1])]
            ctx.obligation(f"{w}: {fn} borrows the waker")
            if bad: ctx.violate(f"{fn}: waker", w, f"{fn} calls {bad[0]} on the waker it only borrows")
    for p in D.paths("rs_std_dyn_erased_future_poll"):
        if p.end == "unreachable": continue
        cs = [e for e in p.effects if e[0] == "call"]
        if len(cs) != 1 or cs[0][2][-1] != "a2": ctx.violate("rs_std_dyn_erased_future_poll: output", "support/rs_std/dyn_erased_future.rs", "the output pointer is not handed to the future exactly once")
        # Poll<()> is 0 when ready
        elif not re.fullmatch(r"not\(call1:.*\)|icmp eq\(0, call1:.*\)", str(p.ret)) : ctx.violate("rs_std_dyn_erased_future_poll: result", "support/rs_std/dyn_erased_future.rs", f"returns {p.ret}: not whether the future is ready")
        if not any(e[0] == "store" and e[3] == "a1" for e in p.effects): ctx.violate("rs_std_dyn_erased_future_poll: waker", "support/rs_std/dyn_erased_future.rs", "the future is polled with a waker other than the caller's")

def run(ctx):
    import p31
    irs, csrc, plan = rust_irs(ctx)
    mods = {}
    def cc(a):
        r, ll = p31.compile_ir(ctx, a[1], a[0])
        return a[0], r, ll
    with ThreadPoolExecutor(2) as ex: res = list(ex.map(cc, [("cc", CC), ("codecs_cc", csrc)]))
    for n, r, ll in res:
        if r.returncode: raise core.Broken(f"the C++ support headers do not compile:\n{r.stderr[-3000:]}")
        mods[n] = llvm.Module(open(ll).read())
    texts = {n: open(f"{ctx.tmp}/rs/{n}.ll").read() for n in SYM_CRATES}
    for m in (*irs.values(), *mods.values()): m.distinct = True
    symbols(ctx, texts)
    codecs(ctx, irs["codecs"], mods["codecs_cc"], plan)
    callables(ctx, irs["dyn_callable_rs"], mods["cc"])
    views(ctx, irs["views"], mods["cc"], irs["ffi_types"])
    wakers(ctx, irs["dyn_erased_future"], mods["cc"], "slot_waker", "support/rs_std/dyn_erased_future.rs")
    wakers(ctx, irs["dyn_future"], mods["cc"], "slot_cpp_waker", "support/rs_std/dyn_future.rs")
    polls(ctx, irs["dyn_erased_future"], irs["dyn_future"])
    fs = mods["cc"].paths("future_size")[0].ret
    ctx.obligation(f"DynErasedFuture: C++ size and alignment {fs}")
    if fs != "1608": ctx.violate("DynErasedFuture: layout", "support/rs_std/dyn_erased_future.h", f"C++ DynErasedFuture has size*100+align {fs}; the Rust type is two pointers")
