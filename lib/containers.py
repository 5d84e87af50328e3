"""The C++ types generated for rs_std::Option, Result and Vec: the text the generator emits (checks/p32.py's abstract
interpretation) is compiled together with the current support headers, and the IR of each public operation is analysed."""
import os, re
import core, bits, llvm
from bits import lin, const, ladd, Walk, Unsupported
STD = "array bit cstddef cstdint cstring optional span type_traits utility memory new tuple".split()
V = lambda n, w=64: ("v", w, n)
A = lambda n: lin({V(n): 1}, 0)

def cpp(s):
    """emitted tokens as C++"""
    s = re.sub(r"__HASH_TOKEN__ (?:ifndef|define) ⟨[^⟩]*⟩", " ", s).replace("__HASH_TOKEN__ endif", " ")
    s = re.sub(r"⟨\{?(\w+)\}?⟩", r"hole_\1", s)
    s = re.sub(r"#t(\w+)!?", r"\1", s)
    s = re.sub(r"#(-?\d+)", r"\1", s)
    for a in ("+ +", "- -", "+ =", "- =", "& =", "| =", "< =", "> =", "= =", "! =", "& &", "| |", "- >"): s = s.replace(" " + a + " ", " " + a.replace(" ", "") + " ")
    return s
PAY = lambda n: f'extern "C" void ctor_{n}(void*, int) noexcept; extern "C" void move_{n}(void*, void*) noexcept; extern "C" void dtor_{n}(void*) noexcept;\n' \
    f"struct {n} {{ short v[7]; explicit {n}(int x) noexcept {{ ctor_{n}(this, x); }} {n}({n}&& o) noexcept {{ move_{n}(this, &o); }} {n}& operator=({n}&&) noexcept; ~{n}() {{ dtor_{n}(this); }} }};\n"
PRE = lambda hs: "".join(f"#include <{h}>\n" for h in STD) + "".join(f'#include "{h}"\n' for h in hs) + "#undef CRUBIT_INTERNAL_RUST_TYPE\n#define CRUBIT_INTERNAL_RUST_TYPE(...)\n"
def compile(ctx, name, src, *flags):
    f = os.path.join(ctx.tmp, name + ".cc"); open(f, "w").write(src); ll = f[:-3] + ".ll"
    r = ctx.run(["clang++", "-std=c++20", "-w", "-O2", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-fno-strict-aliasing", "-mllvm", "-inline-threshold=20000", *flags,
                 "-S", "-emit-llvm", f"-I{core.REPO}", f"-I{core.VERIF}/stubs", f, "-o", ll], ok=False)
    return (open(ll).read(), "") if r.returncode == 0 else (None, r.stderr)

ENUM = {"Option": ("support/rs_std/option.h", "using O = rs_std::Option<SOME>;", PAY("SOME"), '''
bool q_has(const O& o) { return o.has_value(); }
bool q_conv(O& o) { std::optional<SOME> r(std::move(o)); return r.has_value(); }
void* some_arrow(O& o) { return o.operator->(); }
const void* some_arrow_const(const O& o) { return o.operator->(); }
void* some_star(O& o) { auto& r = *o; return &r; }
const void* some_star_const(const O& o) { auto& r = *o; return &r; }
void* some_star_move(O& o) { auto&& r = *std::move(o); return &r; }
bool is_star() { return std::is_same_v<decltype(*std::declval<O&>()), SOME&>; }
bool is_star_const() { return std::is_same_v<decltype(*std::declval<const O&>()), const SOME&>; }
bool is_star_move() { return std::is_same_v<decltype(*std::declval<O>()), SOME&&>; }
bool is_arrow() { return std::is_same_v<decltype(std::declval<O&>().operator->()), SOME*>; }
bool is_arrow_const() { return std::is_same_v<decltype(std::declval<const O&>().operator->()), const SOME*>; }
void mk_none_nullopt(void* o) { new (o) O(std::nullopt); }
void mk_none_default(void* o) { new (o) O; }
void mk_some(void* o, int x) { new (o) O(std::in_place, x); }
void del(O& o) { o.~O(); }
'''), "Result": ("support/rs_std/result.h", "using O = rs_std::Result<OK, ERR>;", PAY("OK") + PAY("ERR"), '''
bool q_has(const O& o) { return o.has_value(); }
bool q_bool(const O& o) { return bool(o); }
''' + "".join(f'''
void* {v}_{n}(O& o) {{ auto& r = {e("o")}; return (void*)&r; }}
const void* {v}_{n}_const(const O& o) {{ auto& r = {e("o")}; return &r; }}
void* {v}_{n}_move(O& o) {{ auto&& r = {e("std::move(o)")}; return (void*)&r; }}
const void* {v}_{n}_const_move(const O& o) {{ auto&& r = {e("std::move(o)")}; return (const void*)&r; }}
bool is_{n}() {{ return std::is_same_v<decltype({e("std::declval<O&>()")}), {T}&>; }}
bool is_{n}_const() {{ return std::is_same_v<decltype({e("std::declval<const O&>()")}), const {T}&>; }}
bool is_{n}_move() {{ return std::is_same_v<decltype({e("std::declval<O>()")}), {T}&&>; }}
bool is_{n}_const_move() {{ return std::is_same_v<decltype({e("std::declval<const O>()")}), const {T}&&>; }}
''' for v, T, n, e in (("ok", "OK", "value", lambda o: o + ".value()"), ("ok", "OK", "star", lambda o: "*" + o), ("err", "ERR", "error", lambda o: o + ".error()"), ("err", "ERR", "err", lambda o: o + ".err()"))) + '''
void* ok_arrow(O& o) { return o.operator->(); }
const void* ok_arrow_const(const O& o) { return o.operator->(); }
void mk_ok(void* o, int x) { new (o) O(std::in_place, x); }
void mk_err(void* o, int x) { new (o) O(rs_std::unexpect, x); }
void del(O& o) { o.~O(); }
''')}
VEC = '''
using O = rs_std::Vec<ITEM>;
extern "C" {
void* data(O& o) { return o.data(); }
const void* data_const(const O& o) { return o.data(); }
void* begin(O& o) { return o.begin(); }
const void* begin_const(const O& o) { return o.begin(); }
void* end(O& o) { return o.end(); }
const void* end_const(const O& o) { return o.end(); }
size_t size(const O& o) { return o.size(); }
void* at(O& o, size_t i) { return &o[i]; }
const void* at_const(const O& o, size_t i) { return &o[i]; }
}
'''
class Index:
    """how an index compares with the length"""
    def __init__(s, idx, ln, rel=frozenset("<=>")): s.idx, s.ln, s.rel = idx, ln, rel
    def load(s, t, seg): pass
    def assume(s, t, want):
        if t[0] == "not": return s.assume(t[1], not want)
        if t[0] == "cmp":
            p, a, b = t[1], bits.as_lin(t[2]), bits.as_lin(t[3])
            if (a, b) == (s.ln, s.idx): a, b, p = b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            if (a, b) == (s.idx, s.ln):
                m = {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "eq": "=", "ne": "<>"}.get(p)
                if m:
                    r = s.rel & (frozenset(m) if want else frozenset("<=>") - frozenset(m))
                    return [Index(s.idx, s.ln, r)] if r else []
        return [s]        # not a condition on index and length: both ways
class Tag(bits.Range):
    def assume(s, t, want):
        try: iv = s.truth(t, s.iv)
        except Unsupported: raise
        iv = iv if want else bits.bits_minus(s.iv, iv, bits.width(s.var))
        return [type(s)(s.var, iv)] if iv else []
def written(seg, base):
    """{offset: (term, byte of it)} of what a segment leaves in the object"""
    out = {}
    for p, t, x in seg.stores:
        d = ladd(p, A(base), -1)
        if d[1]: raise Unsupported("store to another place")
        for i in range(bits.width(x) // 8 or 1): out[d[2] + i] = (x, i)
    return out
def calls(seg): return [(n, a) for n, a in seg.calls if re.match(r"(ctor|move|dtor)_", n)]

def enum(ctx, what, kind, main, det, lits, offs, tagoff, tagged, report, flags=()):
    """lits: {'some': tag value,..}; offs: {'some': payload offset}; tagged: {'some': bool}. report(class, key, msg)"""
    h, use, pay, body = ENUM[kind]
    src = PRE(["support/internal/slot.h", h]) + "using TAG = unsigned int;\n" + pay + cpp(main) + "\n" + cpp(det) + "\n" + use + '\nextern "C" {' + body + "}\n"
    ir, err = compile(ctx, "c_" + re.sub(r"\W", "", what), src, *flags)
    if ir is None: return err
    mod = Walk(ir); var = ("ld", 32, ladd(A("o"), bits.c(64, tagoff)))
    Tag.W = mod
    full = ((0, 0xFFFFFFFF),)
    byte = {}
    for v in lits: byte[v] = ((lits[v], lits[v]),) if tagged[v] else None
    for v in lits:
        if byte[v] is None:
            # a niche-encoded payload holds any value that is no other variant's niche
            others = bits.norm(x for u in lits if u != v for x in byte[u])
            byte[v] = bits.bits_minus(full, others, 32)
    pos = "some" if kind == "Option" else "ok"
    n = 0
    def place(v): return [ladd(A("o"), bits.c(64, k)) for k in (offs[v],) + (() if tagged[v] else (0,))]       # an untagged variant fills the object from its start
    def segs(fn, args, dom):
        entry, heads = mod.headers(fn)
        if heads: raise Unsupported(f"{what}: {fn} has a loop")
        return mod.segments(fn, entry, {nm: a for (t, nm), a in zip(mod.fns[fn][0], args)}, dom, set())
    for fn in re.findall(r"is_(\w+)\(\)", body):
        ctx.obligation(1)
        for sg in segs("is_" + fn, [], Tag(var, full)):
            if const(sg.ret) != 1: report("layout", f"type:{fn}", f"{fn.replace('_', ' ')} does not give a reference to its payload's type")
    fns = re.findall(r"(\w+)\((?:const )?(?:O&|void\*) o(, int x)?\) ", body)
    for fn, x in fns:
        ctx.obligation(1); n += 1
        obj = [A("o")] + ([V("x", 32)] if x else [])
        if fn.startswith("mk_"):
            v = fn.split("_")[1]
            for sg in segs(fn, obj, Tag(var, full)):
                if sg.end != "ret": report("access", f"{fn}", f"making {v} may abort"); continue
                w = written(sg, "o"); got = {o: (const(t) >> (8 * i) & 255 if const(t) is not None else None) for o, (t, i) in w.items()}
                want = {tagoff + i: lits[v] >> (8 * i) & 255 for i in range(4)} if tagged[v] else {}
                if got != want:
                    miss = [o for o in want if o not in got]
                    report("layout", f"set:{v}", f"making {v} does not write the tag" if miss and not got else f"making {v} writes over the payload, whose niche tells the variant" if not tagged[v] and got else f"making {v} does not write the tag of that variant, alone and at the tag's offset")
                cs = calls(sg); T = v.upper()
                if v in offs:
                    if [c for c, _ in cs] != ["ctor_" + T]: report("layout", f"payload:{v}", f"making {v} does not construct one payload of its type")
                    elif cs[0][1] not in [(q, V("x", 32)) for q in place(v)]: report("layout", f"payload:{v}", f"making {v} does not construct the payload at its offset from the given value")
                elif cs: report("layout", f"payload:{v}", f"making {v} constructs a payload")
            continue
        for sg in segs(fn, obj, Tag(var, full)):
            for v in lits:
                iv = bits.meet(sg.dom.iv, byte[v])
                if not iv: continue
                if fn.startswith("q_"):
                    for d, want in (((sg.dom, bool(const(sg.ret) & 1)),) if const(sg.ret) is not None else [(d, w) for w in (True, False) for d in sg.dom.assume(sg.ret, w)]):
                        if bits.meet(d.iv, byte[v]) and want != (v == pos): report("access" if fn == "q_conv" else "layout", f"{fn}:{v}", f"{dict(q_has='has_value', q_bool='operator bool', q_conv='the engagement of the std::optional it is converted to')[fn]} is {str(want).lower()} for {v}" + ("" if tagged[v] else f" with some payloads"))
                elif fn == "del":
                    cs = calls(sg); T = v.upper()
                    if cs not in ([[("dtor_" + T, (q,))] for q in place(v)] if v in offs else [[]]) or sg.end != "ret": report("layout", f"del:{v}", f"destroying {v} does not destroy exactly its payload")
                    if sg.stores: report("layout", f"del:{v}:writes", f"destroying {v} writes to the object")
                else:
                    who = fn.split("_")[0]; nice = fn.split("_", 1)[1]
                    if v == who:
                        if sg.end != "ret": report("access", f"{fn}:refuses", f"{nice} of {v} aborts although it is there")
                        elif sg.ret not in place(v): report("layout", f"{fn}:at", f"{nice} of {v} is not the payload at its offset")
                    elif sg.end == "ret": report("access", f"{fn}:absent", f"{nice} of {v} gives access to a {who} that is not there")
                    if sg.stores or calls(sg): report("layout", f"{fn}:effect", f"{nice} changes the object")
    ctx.count("operations analysed", n)
    return None

def vec(ctx, main, det, ptr, ln, report, flags=()):
    src = PRE(["support/internal/check.h", "support/internal/slot.h", "support/rs_std/vec.h"]) + 'struct ITEM { short v[7]; };\n' + cpp(main) + "\n" + cpp(det) + "\n" + VEC
    ir, err = compile(ctx, "c_Vec", src, *flags)
    if ir is None: return err
    mod = Walk(ir); P, N = [bits.as_lin(("ld", 64, ladd(A("o"), bits.c(64, k)))) for k in (ptr, ln)]
    for fn in re.findall(r"(\w+)\((?:const )?O& o", VEC):
        entry, heads = mod.headers(fn)
        if heads: raise Unsupported(f"Vec: {fn} has a loop")
        idx = A("i"); ctx.obligation(1)
        for sg in mod.segments(fn, entry, {nm: a for (t, nm), a in zip(mod.fns[fn][0], [A("o"), idx])}, Index(idx, N), set()):
            b = fn.split("_")[0]; nm = {"at": "operator[]"}.get(b, b + "()")
            if b == "at":
                if sg.end != "ret":
                    if "<" in sg.dom.rel: report("access", f"{fn}:refuses", "operator[] aborts for an element that is there")
                    continue
                if sg.dom.rel - {"<"}: report("access", f"{fn}:range", "operator[] reads an element that is not there"); continue
            elif sg.end != "ret": report("access", f"{fn}:refuses", f"{nm} may abort"); continue
            want = {"data": P, "begin": P, "end": ladd(P, bits.lscale(N, 14)), "size": N, "at": ladd(P, bits.lscale(idx, 14))}[b]
            got = bits.as_lin(sg.ret)
            if got != want:
                # a wrong field is a matter of layout, a wrong element of access
                report("layout" if b in ("data", "size") else "access", f"{fn}:value", f"{nm} is not " + {"data": "the Vec's pointer", "begin": "the first element", "end": "one past the last element", "size": "the Vec's length", "at": "the element of that index"}[b])
            if sg.stores: report("access", f"{fn}:effect", f"{nm} changes the Vec")
    return None
