"""Abstract interpretation of the LLVM IR that clang makes of the current headers (lib/bits.py). `char_`: exact interval sets over the 32-bit input with preimages of the bit operations; UTF-8 encoding: provenance of every stored bit. UTF-8 validation: the loops are cut at their headers, the remaining string is havocked, and one iteration must consume exactly one character of RFC 3629's grammar or reject, with no read past the end. Slices and strings: a zero/non-zero abstraction of pointer and length for every conversion. Compile-time entry points: compile-fail witnesses beside their valid twins."""
from core import *
import core, bits, llvm
from bits import lin, const, ev, ladd, subst, Unsupported, Walk
from gen import parallel
from itertools import product
RULE = "per IR path: a value is produced iff the input is a Unicode scalar value; bytes written are exactly its UTF-8 encoding, within the buffer; one loop iteration of validation consumes exactly one RFC 3629 character or rejects; slices store a non-null aligned pointer and the given length, and give both back"
LEVEL = "other"
STD = "array cstddef cstdint optional span type_traits string_view algorithm ranges string ostream vector concepts compare memory cstdio cstdlib cstring".split()
VALID = ((0, 0xD7FF), (0xE000, 0x10FFFF))
CH, SR, SL, U8 = "support/rs_std/char.h", "support/rs_std/str_ref.h", "support/rs_std/slice_ref.h", "support/rs_std/internal/is_utf8.h"
V = lambda n, w=64: ("v", w, n)
A = lambda n: lin({V(n): 1}, 0)

# ---- compiling ------------------------------------------------------------------------------------------------------
def clang(ctx, name, src, *flags):
    f = os.path.join(ctx.tmp, name + ".cc"); open(f, "w").write(src); ll = f[:-3] + ".ll"
    r = ctx.run(["clang++", "-std=c++20", "-w", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-mllvm", "-inline-threshold=20000", "-mllvm", "-rotation-max-header-size=0",
                 *flags, "-S", "-emit-llvm", f"-I{core.REPO}", f"-I{core.VERIF}/stubs", f, "-o", ll], ok=False)
    if r.returncode: raise Broken(f"{name}: does not compile:\n" + r.stderr[-1500:])
    return open(ll).read()
def traps(ctx, body):
    """the non-constexpr functions whose call makes a consteval constructor fail: nullary void functions of the headers"""
    raw = clang(ctx, "traps", body, "-O0")
    names = set(re.findall(r"define [^@]*void @(_ZN6rs_std8internal\d+\w+Ev)\(\)", raw))
    out = {}
    for n, d in llvm.demangle(names).items():
        m = re.fullmatch(r"rs_std::internal::(\w+)\(\)", d)
        if m: out[n] = m[1]
    return out

# ---- char_ ----------------------------------------------------------------------------------------------------------
def islin_n(a): return bits.islin(a) and a[1] == ((V("n"), 1),)
def maximal(t, var):
    """the largest parts of a term that depend on nothing but `var`"""
    if not isinstance(t, tuple) or t[0] in ("c",): return
    if bits.variables(t) == {var}: yield t; return
    if bits.islin(t):
        for x, _ in t[1]: yield from maximal(x, var)
    elif t[0] not in ("v", "ld"):
        for x in t[1:]:
            if isinstance(x, tuple): yield from maximal(x, var)
def replace(t, x, by):
    if t == x: return by
    if not isinstance(t, tuple) or t[0] in ("c", "v"): return t
    if bits.islin(t):
        r = lin({}, t[2])
        for y, f in t[1]: r = ladd(r, bits.lscale(replace(y, x, by), f))
        return r
    return tuple(replace(y, x, by) for y in t)
class Char(bits.Range):
    """c, and what is known of the buffer length n"""
    lo, hi, W = 0, 1 << 62, None
    def others(s, t, want):
        r = s.other(t, want)
        return r if isinstance(r, list) else [r] if r else []
    def pieces(s, t):
        """split the characters by encoded length; parts of the condition that are constant for a piece are replaced"""
        parts = list(maximal(t, s.var[2]))
        if not parts: return [(s, t)]
        out = []
        for lo, hi in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0xFFFFFFFF)):
            iv = bits.meet(s.iv, ((lo, hi),))
            if not iv: continue
            d = type(s)(s.var, iv); d.lo, d.hi = s.lo, s.hi; u = t
            for x in parts:
                v = ev(x, {s.var[2]: iv[0][0]}, s.W); w = bits.width(x)
                if any(ev(x, {s.var[2]: q}, s.W) != v for ab in iv for q in ab): raise Unsupported("a condition of buffer length and character")
                same = bits.pre(x, ((v, v),), s.var, iv)
                if same is not None and bits.meet(iv, bits.comp(same, bits.width(s.var))): raise Unsupported("a condition of buffer length and character")
                u = replace(u, x, bits.c(w, v))
            out.append((d, u))
        return out
    def other(s, t, want):
        if t[0] == "not": return s.other(t[1], not want)
        r = type(s)(s.var, s.iv); r.lo, r.hi = s.lo, s.hi
        if t[0] == "cmp":
            p, a, b = t[1:]
            if const(a) is not None: a, b, p = b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            k = const(b)
            if a == A("p") and k == 0 and p in ("eq", "ne"): return r if want != (p == "eq") else None
            if islin_n(a) and k is not None:
                if not want: p = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}[p]
                top = (1 << 64) - 1
                ok_ = {"uge": ((k, top),), "ugt": ((k + 1, top),), "ule": ((0, k),), "ult": ((0, k - 1),), "eq": ((k, k),), "ne": ((0, k - 1), (k + 1, top))}[p]
                m, out = a[2], []
                for u, v in ok_:        # n + m in [u, v], modulo 2^64
                    for base in (-m, -m + top + 1):
                        x, y = max(r.lo, u + base), min(r.hi, v + base)
                        if x <= y:
                            q = type(s)(s.var, s.iv); q.lo, q.hi = x, y; out.append(q)
                return out
        raise Unsupported("condition")
    def assume(s, t, want):
        try: iv = s.truth(t, s.iv)
        except Unsupported:
            if bits.variables(t) == {s.var[2]}: raise
            return [x for d, u in s.pieces(t) for x in d.others(u, want)]
        iv = iv if want else bits.bits_minus(s.iv, iv, bits.width(s.var))
        if not iv: return []
        r = type(s)(s.var, iv); r.lo, r.hi = s.lo, s.hi; return [r]
def show_iv(iv): return ", ".join(f"U+{a:04X}..U+{b:04X}" if a != b else f"U+{a:04X}" for a, b in iv[:4]) + (" .." if len(iv) > 4 else "")
def runs(mod, fn, args, dom, hook=None):
    entry, heads = mod.headers(fn)
    if heads: raise Unsupported(f"{fn} has a loop")
    return mod.segments(fn, entry, {n: a for (t, n), a in zip(mod.fns[fn][0], args)}, dom, set(), hook=hook)
def truths(seg):
    """[(dom, returned truth)]"""
    k = const(seg.ret)
    if k is not None: return [(seg.dom, bool(k & 1))]
    return [(d, w) for w in (True, False) for d in seg.dom.assume(seg.ret, w)]
def stored(seg, base, off=0, size=1):
    v = None
    for p, t, x in seg.stores:
        if p == ladd(A(base), bits.c(64, off)): v = x
    return v
def identity(v, var, iv, w=32):
    if v is None: return False
    pr = bits.provenance(v, var, iv); top = max((b for a, b in iv), default=0).bit_length()
    return pr[:w] == [("b", i) if i < min(top, bits.width(var)) else 0 for i in range(w)]

def chars(ctx, tr):
    inc = "".join(f"#include <{h}>\n" for h in STD)
    fwd = "namespace rs_std::internal { " + " ".join(f"[[gnu::noinline, clang::optnone]] inline void {n}();" for n in tr.values()) + " }\n"
    src = inc + fwd + '#define consteval constexpr\n#include "support/rs_std/char.cc"\nusing namespace rs_std;\nextern "C" {\n' + \
        "bool from(char32_t c, uint32_t* o) { auto r = char_::from_u32(c); if (!r) return false; *o = uint32_t(*r); return true; }\n" + \
        "unsigned long len(uint32_t c) { union U { uint32_t c; char_ x; U() {} } u; u.c = c; return u.x.len_utf8(); }\n" + \
        "void enc(uint32_t c, uint8_t* p, size_t n, const char** q, size_t* m) { union U { uint32_t c; char_ x; U() {} } u; u.c = c; auto s = u.x.encode_utf8(std::span<uint8_t>(p, n)); *q = s.data(); *m = s.size(); }\n" + \
        "uint32_t max_() { return uint32_t(char_::MAX); } uint32_t dflt() { return uint32_t(char_()); }\n" + \
        "".join(f"void mk_{t}({t} c, uint32_t* o) {{ char_ x(c); *o = uint32_t(x); }}\n" for t in ("char", "char8_t", "char16_t", "char32_t")) + "}\n"
    mod = Char.W = Walk(clang(ctx, "char", src, "-O1"))
    n = 0
    # from_u32
    c = V("c", 32); full = ((0, 0xFFFFFFFF),); yes = ()
    for sg in runs(mod, "from", [c, A("o")], Char(c, full)):
        for d, t in truths(sg):
            n += 1
            if not t: continue
            yes = bits.norm(yes + d.iv)
            if not identity(stored(sg, "o"), c, d.iv): ctx.violate("char:from_u32:value", CH, f"from_u32 gives back another code point for {show_iv(d.iv)}")
    ctx.obligation(f"from_u32: {show_iv(yes)} accepted")
    if bits.meet(yes, bits.comp(VALID, 32)): ctx.violate("char:from_u32:invalid", CH, f"from_u32 makes a char of {show_iv(bits.meet(yes, bits.comp(VALID, 32)))}, which is no Unicode scalar value")
    if bits.meet(VALID, bits.comp(yes, 32)): ctx.violate("char:from_u32:missing", CH, f"from_u32 refuses {show_iv(bits.meet(VALID, bits.comp(yes, 32)))}")
    # the compile-time constructors, run through as if at run time
    for t, w in (("char", 8), ("char8_t", 8), ("char16_t", 16), ("char32_t", 32)):
        c = V("c", w); ok_ = ()
        for sg in runs(mod, "mk_" + t, [c, A("o")], Char(c, ((0, (1 << w) - 1),))):
            n += 1
            if sg.end != "ret" or any(nm in tr for nm, _ in sg.calls): continue
            v = stored(sg, "o")
            ok_ = bits.norm(ok_ + sg.dom.iv)
            if not identity(v, c, sg.dom.iv): ctx.violate(f"char:literal:{t}", CH, f"a char_ made of a {t} is another code point than the character for {show_iv(sg.dom.iv)}")
        ctx.obligation(f"char_({t}): accepts {show_iv(ok_)}")
        want = VALID if w > 8 else ((0, 0x7F),) if t == "char" else ((0, 0xFF),)
        want = bits.meet(want, ((0, (1 << w) - 1),))
        if bits.meet(ok_, bits.comp(VALID, 32)) or (t == "char" and bits.meet(ok_, ((0x80, 0xFF),))): ctx.violate(f"char:literal:{t}", CH, f"a char_ may be made of the {t} {show_iv(bits.meet(ok_, bits.comp(want, w)))}")
        if bits.meet(want, bits.comp(ok_, w)) and t != "char8_t": ctx.violate(f"char:literal:{t}:missing", CH, f"no char_ may be made of the {t} {show_iv(bits.meet(want, bits.comp(ok_, w)))}")
    for fn, k in (("max_", 0x10FFFF), ("dflt", 0)):
        for sg in runs(mod, fn, [], Char(V("c", 32), full)):
            ctx.obligation(f"char_ {fn.strip('_')}")
            if const(sg.ret) != k: ctx.violate(f"char:{fn.strip('_')}", CH, f"the {'largest' if k else 'default'} char_ is not U+{k:04X}")
    # len_utf8 and encode_utf8
    LEN = [(1, 0, 0x7F), (2, 0x80, 0x7FF), (3, 0x800, 0xFFFF), (4, 0x10000, 0x10FFFF)]
    c = V("c", 32)
    for sg in runs(mod, "len", [c], Char(c, VALID)):
        for d, t in mod.resolve(sg.dom, sg.ret):
            n += 1; k = const(t)
            ctx.obligation(f"len_utf8 is {k} for {show_iv(d.iv)}")
            if k is None: raise Broken("len_utf8 is not a constant per path")
            bad = bits.meet(d.iv, bits.comp(bits.norm((a, b) for l, a, b in LEN if l == k), 32))
            if bad: ctx.violate("char:len_utf8", CH, f"len_utf8 is {k} for {show_iv(bad)}")
    for sg in runs(mod, "enc", [c, A("p"), A("n"), A("q"), A("m")], Char(c, VALID)):
        for k, a, b in LEN:
            iv = bits.meet(sg.dom.iv, ((a, b),))
            if not iv: continue
            n += 1; ctx.obligation(f"encode_utf8 of {show_iv(iv)}, buffer of {sg.dom.lo}..")
            if sg.end == "unreachable":
                if sg.dom.hi >= k: ctx.violate("char:encode_utf8:refuses", "support/rs_std/char.cc", f"encode_utf8 of {show_iv(iv)} aborts although the buffer holds {k} bytes")
                continue
            if sg.dom.lo < k: ctx.violate("char:encode_utf8:bounds", "support/rs_std/char.cc", f"encode_utf8 of {show_iv(iv)} goes on with a buffer of {sg.dom.lo} bytes")
            got = {}
            for p, t, v in sg.stores:
                o = const(ladd(p, A("p"), -1))
                if o is None:
                    if V("p") in dict(p[1]): raise Broken("encode_utf8: store at a variable offset")
                    continue
                for j in range(mod.w(t) // 8): got[o + j] = ("op", 8, "trunc", v if j == 0 else ("op", bits.width(v), "lshr", v, bits.c(bits.width(v), 8 * j)), None) if mod.w(t) > 8 else v
            exp = {}
            for j in range(k):
                tail = ([("b", 6 * (k - 1 - j) + i) for i in range(6)] + [0, 1]) if j else ([("b", i) for i in range(7)] + [0]) if k == 1 else ([("b", 6 * (k - 1) + i) for i in range(7 - k)] + [0] + [1] * k)
                top = max(y for x, y in iv).bit_length()
                exp[j] = [0 if isinstance(x, tuple) and x[1] >= top else x for x in tail]
            for j in set(got) | set(exp):
                if j not in exp: ctx.violate("char:encode_utf8:bytes", "support/rs_std/char.cc", f"encode_utf8 of {show_iv(iv)} writes byte {j}")
                elif j not in got or bits.provenance(got[j], c, iv) != exp[j]: ctx.violate("char:encode_utf8:bytes", "support/rs_std/char.cc", f"byte {j} that encode_utf8 writes for {show_iv(iv)} is not that of UTF-8")
            if stored(sg, "q") != A("p") or any(const(t) != k for d, t in mod.resolve(sg.dom, stored(sg, "m") or A("none")) if bits.meet(d.iv, iv)): ctx.violate("char:encode_utf8:result", "support/rs_std/char.cc", f"encode_utf8 of {show_iv(iv)} does not return the {k} bytes it wrote")
    ctx.cov["char_path_outcomes"] = n

# ---- UTF-8 validation -----------------------------------------------------------------------------------------------
NS = list(range(9)) + [1 << 40]
FIRST = [(0, 0x7F), (0x80, 0xC1), (0xC2, 0xDF), (0xE0, 0xE0), (0xE1, 0xEC), (0xED, 0xED), (0xEE, 0xEF), (0xF0, 0xF0), (0xF1, 0xF3), (0xF4, 0xF4), (0xF5, 0xFF)]
SECOND = [(0, 0x7F), (0x80, 0x8F), (0x90, 0x9F), (0xA0, 0xBF), (0xC0, 0xFF)]
REST = [(0, 0x7F), (0x80, 0xBF), (0xC0, 0xFF)]
def rfc3629(b0, n, b1, b2, b3):
    """length of the character at the front, 0 if there is none"""
    cont = lambda b: 0x80 <= b <= 0xBF
    if b0 <= 0x7F: return 1
    if b0 < 0xC2 or b0 > 0xF4: return 0
    k = 2 if b0 < 0xE0 else 3 if b0 < 0xF0 else 4
    if n < k: return 0
    lo, hi = {0xE0: (0xA0, 0xBF), 0xED: (0x80, 0x9F), 0xF0: (0x90, 0xBF), 0xF4: (0x80, 0x8F)}.get(b0, (0x80, 0xBF))
    if not lo <= b1 <= hi or (k > 2 and not cont(b2)) or (k > 3 and not cont(b3)): return 0
    return k
ALL = frozenset(range(256))
class Str:
    """the remaining string: pairs (first byte, length), and the sets its next bytes lie in"""
    W = None
    def __init__(s, fn, bs=(ALL, ALL, ALL), facts=(), oob=()): s.fn, s.bs, s.facts, s.oob = fn, bs, facts, oob
    def load(s, t, seg): pass
    def assume(s, t, want):
        if t[0] == "not": return s.assume(t[1], not want)
        if t[0] in ("and", "or"):
            a, b = t[1], t[2]
            if (t[0] == "and") == want: return [y for x in s.assume(a, want) for y in x.assume(b, want)]
            return s.assume(a, want) + [y for x in s.assume(a, not want) for y in x.assume(b, want)]
        if t[0] == "cmp" and t[1][0] == "u" and bits.width(t[2]) == 64:
            d = ladd(t[3], t[2], -1)        # places in one string: the order is that of the distance
            if bits.variables(d) <= {"b0", "n"} and not bits.variables(t) <= {"b0", "n"}: t = ("cmp", {"ult": "sgt", "ule": "sge", "ugt": "slt", "uge": "sle"}[t[1]], d, bits.c(64, 0))
        vs = bits.variables(t)
        if vs <= {"b0", "n"}:
            fn = frozenset((b, n) for b, n in s.fn if bool(ev(t, {"b0": b, "n": n}, s.W)) == want)
            return [Str(fn, s.bs, s.facts, s.oob)] if fn else []
        bj = [v for v in vs if isinstance(v, str) and re.fullmatch(r"b[123]", v)]
        if len(bj) == 1 and vs <= {"b0", bj[0]}:
            j = int(bj[0][1]) - 1; groups = {}
            for b0 in {b for b, n in s.fn} if "b0" in vs else {0}:
                S = frozenset(x for x in s.bs[j] if bool(ev(t, {"b0": b0, bj[0]: x}, s.W)) == want)
                if S: groups.setdefault(S, set()).add(b0)
            return [Str(s.fn if "b0" not in vs else frozenset(p for p in s.fn if p[0] in bs), s.bs[:j] + (S,) + s.bs[j + 1:], s.facts, s.oob) for S, bs in groups.items()]
        if any(re.fullmatch(r"b\d+", v) for v in vs if isinstance(v, str)): raise Unsupported(f"relation between {sorted(vs)}")
        if t[0] == "cmp" and t[1] in ("eq", "ne") and const(t[3]) == 0 and t[2] in (A("p0"), A("R")):
            return [s] if want == (t[1] == "ne") else []        # the string has an address
        for f, w in s.facts:
            if f == t: return [s] if w == want else []
        return [Str(s.fn, s.bs, s.facts + ((t, want),), s.oob)]
    def cells(s):
        fs = [x for x in FIRST if any(x[0] <= b <= x[1] for b, n in s.fn)]
        for b0, n in {(max(x[0], min(b for b, m in s.fn if x[0] <= b <= x[1])), n) for x in fs for b, n in s.fn if x[0] <= b <= x[1]} | {(b, n) for b, n in s.fn if not uniform(s)}:
            for x in SECOND:
                for y in REST:
                    for z in REST:
                        if all(any(l <= q <= h for q in S) for (l, h), S in zip((x, y, z), s.bs)): yield b0, n, x[0], y[0], z[0]
def uniform(s):
    # every first-byte class meets the same lengths throughout
    by = {}
    for b, n in s.fn: by.setdefault(b, set()).add(n)
    for lo, hi in FIRST:
        if len({frozenset(by[b]) for b in by if lo <= b <= hi}) > 1: return False
    return True
class Utf8(Walk):
    def load(self, w, a, seg):
        o = const(ladd(a, A("R"), -1))
        if o is not None:
            if w != 8: raise Unsupported("wide load")
            if any(n <= o for b, n in seg.dom.fn): seg.dom = Str(seg.dom.fn, seg.dom.bs, seg.dom.facts, seg.dom.oob + (o,))
            return V(f"b{o}", 8)
        return super().load(w, a, seg)
def validation(ctx, tr):
    inc = "".join(f"#include <{h}>\n" for h in STD)
    fwd = "namespace rs_std::internal { " + " ".join(f"[[gnu::noinline, clang::optnone]] inline void {n}();" for n in tr.values()) + " }\n"
    W = {"from": ("StrRef::FromUtf8", "auto r = StrRef::FromUtf8(std::string_view(p, n)); if (!r) return false; new (o) StrRef(*r); return true;"),
         "mk": ("StrRef's compile-time constructor", "new (o) StrRef(std::string_view(p, n)); return true;")}
    src = inc + fwd + '#define consteval constexpr\n#include "support/rs_std/str_ref.h"\nusing namespace rs_std;\nextern "C" {\n' + "".join(f"bool {f}(const char* p, size_t n, StrRef* o) {{ {b} }}\n" for f, (_, b) in W.items()) + "}\n"
    text = clang(ctx, "utf8", src, "-O1")
    for fn, (what, _) in W.items():
        n, bad = induct(ctx, Utf8(text), fn, what, tr)
        ctx.obligation(f"{what}: {n} segments between loop heads")
        for key, msg in bad: ctx.violate(f"utf8:{fn}:{key}", U8 if key != "result" else SR, msg)
def induct(ctx, mod, fn, what, tr):
    Str.W = mod
    entry, heads = mod.headers(fn); args = [n for t, n in mod.fns[fn][0]]
    every = lambda lo: frozenset((b, n) for b in range(256) for n in NS if n >= lo)
    start = mod.segments(fn, entry, {args[0]: A("R"), args[1]: A("n"), args[2]: A("o")}, Str(every(0)), heads)
    un = {V("R"): A("p0"), V("n"): A("n0")}
    inv = {}
    for sg in start:
        for k, v in sg.env.items():
            v = subst(v, un)
            if not any(isinstance(x, str) and re.fullmatch(r"b\d", x) for x in bits.variables(v)): inv.setdefault(k, set()).add(v)
    inv = {k: v.copy().pop() for k, v in inv.items() if len(v) == 1}
    # what the remaining string is at each loop head
    cand = {}
    for h in heads:
        ph = mod.phis(fn, h); ptrs = [n for n, t, _ in ph if t == "ptr"]; ints = [n for n, t, _ in ph if t == "i64"]
        cs = []
        for d in (0, 1):
            cs += [("size", x, k, d) for x in ptrs for k in ints] + [("end", x, None, d) for x in ptrs] + [("index", None, k, d) for k in ints]
        cand[h] = [c + (lo,) for c in cs for lo in (0, 1)]
    best, memo = None, {}
    order = sorted(heads)
    for pick in sorted(product(*[cand[h] for h in order]), key=lambda p: sum(2 * c[3] + c[4] for c in p)):
        try:
            if attempt(mod, fn, what, tr, heads, dict(zip(order, pick)), inv, start, every, memo, True)[0]: continue
            r = attempt(mod, fn, what, tr, heads, dict(zip(order, pick)), inv, start, every, memo)
        except Unsupported as e:
            if best is None: best = (10 ** 6, 0, [("unsupported", str(e))])
            continue
        if best is None or r[:1] < best[:1] or (r[0] == best[0] and len(r[2]) < len(best[2])): best = r
        if r[0] == 0 and not r[2]: break
    if best is None or best[0]: raise Broken(f"{what}: the loops are not of a form this analysis follows ({best and best[2][:1]})")
    return best[1], best[2]
def attempt(mod, fn, what, tr, heads, pick, inv, start, every, memo, quick=False):
    """(structural failures, segments, [violation])"""
    bad, shape, n = {}, 0, 0
    def rest(h, phis, env):
        """(address, length) of the remaining string when head h is reached with these values"""
        kind, x, k, d, lo = pick[h]
        if kind == "size": return ladd(phis[x], bits.c(64, d)), ladd(phis[k], bits.c(64, -d))
        p = ladd(phis[x], bits.c(64, d)) if kind == "end" else ladd(ladd(env["p0"], phis[k]), bits.c(64, d))
        return p, ladd(ladd(env["p0"], env["n0"]), p, -1)
    worlds = [(None, start, {"p0": A("R"), "n0": A("n")})]
    for h in heads:
        kind, x, k, d, lo = pick[h]
        ph = mod.phis(fn, h); vals = {m: ("v", mod.w(t), f"{h}:{m}") if t != "i64" and t != "ptr" else A(f"{h}:{m}") for m, t, _ in ph}
        p0, n0 = A("p0"), A("n0")
        if kind != "index": vals[x] = ladd(A("R"), bits.c(64, -d))
        if kind == "size": vals[k] = ladd(A("n"), bits.c(64, d))
        else: n0 = ladd(ladd(A("R"), A("n")), p0, -1)
        if kind == "index": vals[k] = ladd(ladd(A("R"), p0, -1), bits.c(64, -d))
        env = {q: subst(v, {V("n0"): n0}) for q, v in inv.items()}; env.update(vals)
        if (h, pick[h]) not in memo:
            try: memo[h, pick[h]] = mod.segments(fn, h, env, Str(every(lo)), heads)
            except Unsupported as e: memo[h, pick[h]] = e
        if isinstance(memo[h, pick[h]], Unsupported): raise memo[h, pick[h]]
        worlds.append((h, memo[h, pick[h]], {"p0": p0, "n0": n0}))
    for h, segs, w in worlds:
        for sg in segs:
            n += 1; d = sg.dom
            if d.oob: bad["reads"] = f"{what} reads byte {d.oob[0]} of a string that may be shorter"
            rejects = any(nm in tr for nm, _ in sg.calls) or (sg.end == "ret" and const(sg.ret) == 0)
            if sg.end == "unreachable" and not rejects:
                if sg.calls: bad["aborts"] = f"{what} aborts on some strings"
                else: shape += 1
                continue
            if rejects and sg.end in ("ret", "unreachable"): outs = [(d, False, None)]
            elif sg.end == "ret":
                outs = [(x, t, None) for x, t in truths(sg)]
            else:
                p, m = rest(sg.at, sg.phis, w)
                if ladd(p, m) != ladd(A("R"), A("n")): shape += 1; continue
                adv = ladd(p, A("R"), -1)
                if p == w["p0"] and h is not None and p != A("R"): adv = bits.c(64, 0) if sg.at != h else None
                if adv is None or not bits.variables(adv) <= {"b0", "n"}: shape += 1; continue
                outs = [(d, None, adv)]
            if quick: continue
            for x, t, adv in outs:
                for b0, ln, b1, b2, b3 in x.cells():
                    want = rfc3629(b0, ln, b1, b2, b3) if ln else None
                    s = " ".join(f"{b:02X}" for b in (b0, b1, b2, b3)[:min(ln, 4)]) + (" .." if ln > 4 else "")
                    if t is False and (ln == 0 or want): bad["refuses"] = f"{what} refuses the valid UTF-8 {s or '(empty)'}"
                    elif t is True and ln and want != ln: bad["accepts"] = f"{what} accepts {s}, which is not UTF-8" if not want else f"{what} accepts a string without looking at all of it ({s})"
                    elif t is None:
                        k = ev(adv, {"b0": b0, "n": ln}, mod)
                        if ln < pick[sg.at][4] + k: shape += 1; continue      # the head's assumption on the length does not hold
                        if k == 0 and sg.at != h: continue
                        if ln == 0 or not want: bad["accepts"] = f"{what} goes on after {s or 'the end'}, which is not UTF-8"
                        elif k != want: bad["skips"] = f"{what} goes on {k} bytes after a character of {want} bytes ({s})"
                if t is True:
                    q, m = stored(sg, "o"), stored(sg, "o", 8)
                    if (q, m) == (w["p0"], w["n0"]): continue
                    zero = (w["n0"] == A("n") and all(ln == 0 for _, ln in x.fn)) or only_zero(x.facts, w, mod)
                    if zero and (q == w["p0"] or (q is not None and const(q))) and (m == w["n0"] or (m is not None and const(m) == 0)): continue
                    bad["result"] = f"{what} gives a StrRef of another address or length than the string"
    return shape, n, sorted(bad.items())
def only_zero(facts, w, mod):
    env = lambda k: {"p0": 1 << 20, "R": 1 << 20, "n": k, "n0": k}
    try: return all(any(bool(ev(t, env(k), mod)) != want for t, want in facts) for k in (1, 2, 7, 1 << 40)) and all(bool(ev(t, env(0), mod)) == want for t, want in facts)
    except KeyError: return False

# ---- slices ---------------------------------------------------------------------------------------------------------
class Reps:
    """the zero/non-zero cases of pointer and length"""
    def __init__(s, W, cases, live=None): s.W, s.cases, s.live = W, cases, frozenset(range(len(cases))) if live is None else live
    def load(s, t, seg): pass
    def assume(s, t, want):
        l = frozenset(i for i in s.live if bool(ev(t, s.cases[i], s.W)) == want)
        return [Reps(s.W, s.cases, l)] if l else []
LENS = (1, 2, 7, 1 << 33)
def slices(ctx):
    inc = "".join(f"#include <{h}>\n" for h in STD)
    # source: name, parameter, how to read its address and length, element type, conversion, assignments of its atoms to (address, length)
    ld = lambda o=0: ("ld", 64, ladd(A("s"), bits.c(64, o)))
    pn = lambda p, n: {"p": p, "n": n}
    obj = lambda p, n: {ld(): p, ld(8): n, "s": 1 << 30}
    vec = lambda z: lambda p, n: {ld(): p, ld(8): p + z * n, ld(16): p + z * n, "s": 1 << 30}
    T = [("long long", 8), ("const long long", 8), ("const char", 1), ("unsigned char", 1), ("const unsigned char", 1), ("const short", 2)]
    S = []
    for t, z in T:
        S.append((f"pointer and length of {t}", f"{t}* p, size_t n", f"SliceRef<{t}>(p, n)", t, z, pn, ["p", "n"]))
        S.append((f"std::span<{t}>", f"std::span<{t}>& s", f"SliceRef<{t}>(s)", t, z, obj, ["s"]))
        u = t.replace("const ", "")
        if "const" in t: S.append((f"SliceRef<{u}> to SliceRef<{t}>", f"const SliceRef<{u}>& s", f"SliceRef<{t}>(s)", t, z, obj, ["s"]))
        S.append((f"std::vector<{u}> to {t}", f"std::vector<{u}>& s", f"SliceRef<{t}>(s)", t, z, vec(z), ["s"]))
        S.append((f"copy of SliceRef<{t}>", f"const SliceRef<{t}>& s", f"SliceRef<{t}>(s)", t, z, obj, ["s"]))
    for t in ("const unsigned char", "const char"):
        S.append((f"std::string_view to {t}", "std::string_view& s", f"SliceRef<{t}>(s)", t, 1, lambda p, n: {ld(): n, ld(8): p, "s": 1 << 30}, ["s"]))
        S.append((f"std::string to {t}", "std::string& s", f"SliceRef<{t}>(s)", t, 1, obj, ["s"]))
    S.append(("StrRef of a std::string_view", "std::string_view& s", "StrRef::FromUtf8Unchecked(s)", "StrRef", 1, lambda p, n: {ld(): n, ld(8): p, "s": 1 << 30}, ["s"]))
    S.append(("copy of a StrRef", "const StrRef& s", "StrRef(s)", "StrRef", 1, obj, ["s"]))
    G = []      # the ways back
    for t, z in T[:3]:
        for what, e in (("data() and size()", "*o = s.data(); *m = s.size();"), ("to_span()", "auto x = s.to_span(); *o = x.data(); *m = x.size();"), ("conversion to std::span", f"std::span<{t}> x = s; *o = x.data(); *m = x.size();")):
            G.append((f"{what} of SliceRef<{t}>", f"const SliceRef<{t}>& s, {t}** o, size_t* m", e))
    for what, e in (("data() and size()", "*o = s.data(); *m = s.size();"), ("len()", "*o = s.data(); *m = s.len();"), ("to_string_view()", "auto x = s.to_string_view(); *o = x.data(); *m = x.size();"), ("conversion to std::string_view", "std::string_view x = s; *o = x.data(); *m = x.size();")):
        G.append((f"{what} of StrRef", "const StrRef& s, const char** o, size_t* m", e))
    src = inc + '#include "support/rs_std/slice_ref.h"\n#include "support/rs_std/str_ref.h"\nusing namespace rs_std;\nextern "C" {\n'
    for i, (what, ps, e, t, z, mk, ns) in enumerate(S): src += f"void mk{i}({ps}, {t if t == 'StrRef' else f'SliceRef<{t}>'}* o) {{ new (o) {t if t == 'StrRef' else f'SliceRef<{t}>'}({e}); }}\n"
    for i, (what, ps, e) in enumerate(G): src += f"void get{i}({ps}) {{ {e} }}\n"
    for i, (t, z) in enumerate(T): src += f"void dflt{i}(SliceRef<{t}>* o) {{ new (o) SliceRef<{t}>(); }}\n"
    src += "bool eqc(const SliceRef<const char>& a, const SliceRef<const char>& b) { return a == b; } bool nec(const SliceRef<const char>& a, const SliceRef<const char>& b) { return a != b; } bool eql(const SliceRef<long long>& a, const SliceRef<const long long>& b) { return a == b; } bool eqm(const SliceRef<long long>& a, const SliceRef<long long>& b) { return a == b; } bool eqs(const StrRef& a, const StrRef& b) { return a == b; } }\n"
    mod = Walk(clang(ctx, "slice", src, "-O1"))
    n = 0
    def judge(what, sg, cases, pn_, z, key, f):
        nonlocal n
        q, m = stored(sg, "o"), stored(sg, "o", 8)
        for i in sg.dom.live:
            n += 1; p, ln = pn_[i]
            if q is None or m is None: raise Broken(f"{what}: the slice is not stored field by field")
            a, b = ev(q, cases[i], mod), ev(m, cases[i], mod)
            if p and ln: good = (a, b) == (p, ln)
            else: good = b == 0 and a and a % z == 0
            if not good: return ctx.violate(key, f, f"{what}: {'null' if not p else 'non-null'} pointer and length {ln if ln < 9 else 'large'} are stored as {'a null' if not a else 'another' if p and ln and a != p else 'a misaligned' if a % z else 'the'} pointer and {'another length' if b != (ln if p else 0) else 'that length'}")
    for i, (what, ps, e, t, z, mk, ns) in enumerate(S):
        pl = [(p, ln) for p in (0, 4096) for ln in (0,) + LENS if p or not ln or ns == ["p", "n"]]
        cases = [{**mk(p, ln), "o": 1 << 29} for p, ln in pl]
        try:
            sgs = runs(mod, f"mk{i}", [A(x) for x in ns] + [A("o")], Reps(mod, cases))
        except KeyError as x: raise Broken(f"{what}: reads {x}")
        ctx.obligation(what)
        # a copy of a slice already holds the invariant: (align, 0) for an empty one
        if what.startswith("copy"):
            pl = [(p, ln) for p, ln in pl if p]; cases = [{**mk(p, ln), "o": 1 << 29} for p, ln in pl]; sgs = runs(mod, f"mk{i}", [A(x) for x in ns] + [A("o")], Reps(mod, cases))
        for sg in sgs: judge(what, sg, cases, pl, z, f"slice:{what}", SR if t == "StrRef" else SL)
    for i, (t, z) in enumerate(T):
        for sg in runs(mod, f"dflt{i}", [A("o")], Reps(mod, [{"o": 1 << 29}])):
            ctx.obligation(f"default SliceRef<{t}>"); judge(f"default SliceRef<{t}>", sg, [{"o": 1 << 29}], [(0, 0)], z, f"slice:default:{t}", SL)
    for i, (what, ps, e) in enumerate(G):
        pl = [(p, ln) for p in (8, 4096) for ln in (0,) + LENS]; cases = [{**obj(p, ln), "o": 1, "m": 2} for p, ln in pl]
        ctx.obligation(what)
        for sg in runs(mod, f"get{i}", [A("s"), A("o"), A("m")], Reps(mod, cases)):
            q, m = stored(sg, "o"), stored(sg, "m")
            for k in sg.dom.live:
                n += 1; p, ln = pl[k]
                if q is None or m is None: raise Broken(f"{what}: no result")
                if ev(m, cases[k], mod) != ln or (ln and ev(q, cases[k], mod) != p): ctx.violate(f"slice:{what}", SR if "StrRef" in what else SL, f"{what} does not give back the pointer and length that are stored (length {ln if ln < 9 else 'large'})"); break
    # equality
    for fn, what, z in (("eqc", "SliceRef<const char>", 1), ("nec", "SliceRef<const char>", 1), ("eql", "SliceRef<long long>", 8), ("eqm", "mutable SliceRef<long long>", 8), ("eqs", "StrRef", 1)):
        la, lb = (lambda o=0: ("ld", 64, ladd(A("a"), bits.c(64, o)))), (lambda o=0: ("ld", 64, ladd(A("b"), bits.c(64, o))))
        pl = [(x, y) for x in (0,) + LENS for y in (0,) + LENS]
        cases = [{la(): 4096, la(8): x, lb(): 8192, lb(8): y, "a": 1, "b": 2, "cmp": r} for x, y in pl for r in (0, 1, 0xFFFFFFFF)]
        def hook(name, args, sg):
            if name in ("bcmp", "memcmp", "__builtin_memcmp"): return V("cmp", 32)
        ctx.obligation(f"equality of {what}")
        try: sgs = runs(mod, fn, [A("a"), A("b")], Reps(mod, cases), hook=hook)
        except Unsupported: continue
        for sg in sgs:
            for k in sg.dom.live:
                n += 1; x, y = pl[k // 3]; r = ev(sg.ret, cases[k], mod) & 1
                looked = [[ev(u, cases[k], mod) for u in ar[:3]] for nm, ar in sg.calls if nm in ("bcmp", "memcmp")]
                if fn == "nec": r ^= 1
                want = 0 if x != y else 1 if x == 0 else int(cases[k]["cmp"] == 0)
                good = r == want and (x != y or x == 0 or any(sorted(l[:2]) == [4096, 8192] and l[2] == x * z for l in looked))
                if not good: ctx.violate(f"slice:equality:{what}", SR if what == "StrRef" else SL, f"{what}: equality of slices of length {x if x < 9 else 'large'} and {y if y < 9 else 'large'} is not that of their elements"); break
    ctx.cov["slice_path_outcomes"] = n

# ---- compile-time entry points --------------------------------------------------------------------------------------
def witnesses(ctx):
    pre = '#include "support/rs_std/char.h"\nusing namespace rs_std;\n'
    X = [  # key, name, header, bad, twin
        ("consteval:char_", "a char_ is not made of a run-time character without a check", CH, "char_ f(char32_t c) { return char_(c); }", "char_ f() { return char_(U'x'); }"),
        ("consteval:char_", "a char_ is not made of a run-time 8-bit character", CH, "char_ f(char c) { return c; }", "char_ f() { return 'x'; }"),
        ("consteval:char_", "a surrogate is no char_ constant", CH, "constexpr char_ c = char32_t{0xD800};", "constexpr char_ c = char32_t{0xD7FF};"),
        ("consteval:char_", "a surrogate is no char_ constant (last)", CH, "constexpr char_ c = char16_t{0xDFFF};", "constexpr char_ c = char16_t{0xE000};"),
        ("consteval:char_", "nothing above U+10FFFF is a char_ constant", CH, "constexpr char_ c = char32_t{0x110000};", "constexpr char_ c = char32_t{0x10FFFF};"),
        ("consteval:char_", "a non-ASCII byte is no char_ constant", CH, "constexpr char_ c = '\\xE9';", "constexpr char_ c = '\\x7F';"),
        ("unchecked:char_", "the unchecked constructor is private", CH, "char_ f(unsigned c) { return char_::from_u32_unchecked(c); }", "auto f(unsigned c) { return char_::from_u32(c); }"),
        ("unchecked:char_", "the unchecked constructor's tag is no way in", CH, "char_ f(unsigned c) { return char_(c, {}); }", "char_ f() { return char_(); }"),
        ("value:char_", "the value is not writable", CH, "void f(char_& c) { c.value_ = 0xD800; }", "void f(char_& c) { c = U'x'; }"),
        ("consteval:StrRef", "a StrRef is not made of a run-time string_view without a check", SR, "StrRef f(std::string_view s) { return s; }", 'StrRef f() { return std::string_view("x"); }'),
        ("consteval:StrRef", "a StrRef is not made of a run-time C string without a check", SR, "StrRef f(const char* s) { return s; }", 'StrRef f() { return "x"; }'),
        ("consteval:StrRef", "a StrRef constant is UTF-8", SR, 'constexpr StrRef s = "a\\xFF";', 'constexpr StrRef s = "a\\u00e9";'),
        ("consteval:StrRef", "a StrRef constant is UTF-8 (truncated character)", SR, 'constexpr StrRef s = std::string_view("\\xE2\\x82");', 'constexpr StrRef s = std::string_view("\\xE2\\x82\\xAC");'),
        ("unchecked:StrRef", "the unchecked constructor is private", SR, "StrRef f(std::string_view s) { return StrRef({}, s); }", "StrRef f() { return StrRef(); }"),
        ("value:StrRef", "a StrRef's slice is not writable", SR, 'void f(StrRef& s, SliceRef<const char> x) { s.slice_ = x; }', 'void f(StrRef& s, StrRef x) { s = x; }'),
        ("unchecked:StrRef", "bytes are no StrRef", SR, "StrRef f(SliceRef<const char> x) { return StrRef(x); }", "SliceRef<const char> f(StrRef x) { return SliceRef<const char>(x.to_string_view()); }"),
        ("value:SliceRef", "a SliceRef's pointer is not writable", SL, "void f(SliceRef<int>& s) { s.ptr_ = nullptr; }", "void f(SliceRef<int>& s) { s = SliceRef<int>(); }"),
        ("const:SliceRef", "a slice of const elements is no slice of mutable ones", SL, "SliceRef<int> f(SliceRef<const int> s) { return s; }", "SliceRef<const int> f(SliceRef<int> s) { return s; }"),
        ("const:SliceRef", "a const span is no slice of mutable elements", SL, "SliceRef<int> f(std::span<const int> s) { return s; }", "SliceRef<int> f(std::span<int> s) { return s; }"),
        ("const:SliceRef", "a const container is no slice of mutable elements", SL, "SliceRef<int> f(const std::vector<int>& s) { return SliceRef<int>(s); }", "SliceRef<int> f(std::vector<int>& s) { return SliceRef<int>(s); }"),
        ("const:SliceRef", "characters are no slice of mutable bytes", SL, "SliceRef<unsigned char> f(std::string_view s) { return SliceRef<unsigned char>(s); }", "SliceRef<const unsigned char> f(std::string_view s) { return SliceRef<const unsigned char>(s); }"),
        ("const:SliceRef", "a string is no slice of wider elements", SL, "SliceRef<const short> f(std::string_view s) { return SliceRef<const short>(s); }", "SliceRef<const signed char> f(std::string_view s) { return SliceRef<const signed char>(s); }"),
    ]
    for t in ("int", "unsigned", "long", "unsigned char", "bool", "wchar_t", "double", "short"):
        X.append(("consteval:char_", f"a {t} is no char_", CH, f"constexpr char_ c = ({t})1;", "constexpr char_ c = (char32_t)1;"))
    def one_(x):
        key, name, h, bad, good = x
        out = []
        for k, body in enumerate((bad, good)):
            f = os.path.join(ctx.tmp, f"w{abs(hash(name + body))}_{k}.cc"); open(f, "w").write("".join(f"#include <{i}>\n" for i in STD) + pre + body + "\n")
            out.append(ctx.run(["clang++", "-std=c++20", "-w", "-fsyntax-only", f"-I{core.REPO}", f"-I{core.VERIF}/stubs", f], ok=False).returncode)
        return out
    for x, (b, g) in zip(X, parallel(one_, X)):
        ctx.obligation(f"witness: {x[1]}")
        if b == 0: ctx.violate(f"witness:{x[0]}:{x[1]}", x[2], f"{x[1]}: `{x[3]}` compiles")
        if g != 0: ctx.violate(f"witness:{x[0]}:{x[1]}:twin", x[2], f"`{x[4]}` no longer compiles")
    ctx.cov["compile_fail_witnesses"] = len(X)

def run(ctx):
    inc = "".join(f"#include <{h}>\n" for h in STD)
    body = inc + '#define consteval constexpr\n#include "support/rs_std/char.h"\nusing namespace rs_std; char_ f(char32_t c) { return char_(c); } StrRef g(std::string_view s) { return StrRef(s); }\n'
    tr = traps(ctx, body)
    floor(ctx, "functions that reject a compile-time value", len(tr), 1)
    broken = None
    for part in (lambda: chars(ctx, tr), lambda: validation(ctx, tr), lambda: slices(ctx), lambda: witnesses(ctx)):
        try: part()
        except Unsupported as e:
            if os.environ.get("VT_DEBUG"): raise
            broken = Broken(f"instruction or term this analysis does not follow: {e}")
        except Broken as e: broken = e
    if broken: raise broken
