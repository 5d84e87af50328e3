"""`generate_trait_operator_impls` is interpreted abstractly on the compiler's MIR: for every call of `generate_function` the trait whose impls are enumerated, the method picked and the C++ operator name must be a row of one table. The C++ and Rust texts emitted for `Ord` and `PartialOrd` (same interpretation) are each compiled against opaque comparisons; on every IR path the arguments are the two operands in order, and the composed map from Rust's `Ordering` to C++'s must keep less, equal, greater and unordered. The text emitted for `Display` is compiled against an opaque string: both stream operators must write the string the thunk produced, once."""
from core import *
import core, bits, containers, re, os
from bits import const, ev, variables
from gen import *
import gen
from sym import show
from emit import emitted
RULE = "each (trait, method, operator) triple is a row of the table of Rust operator traits; operator<=> composed with the Rust thunk maps Less, Equal, Greater and None to less, equal (or equivalent), greater and unordered of (*this, other) in this order; AbslStringify and operator<< write the Display string exactly once"
LEVEL = "other"
W = "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"
OPS = {"index": "[]", "index_mut": "[]", "PartialEq": "==", "add": "+", "bitand": "&", "bitor": "|", "bitxor": "^", "div": "/", "mul": "*", "rem": "%", "shl": "<<", "shr": ">>", "sub": "-", "neg": "-", "not": "!"}
OPS.update({k + "_assign": OPS[k] + "=" for k in "add bitand bitor bitxor div mul rem shl shr sub".split()})
METHOD = lambda t: "eq" if t == "PartialEq" else t
CAMEL = lambda s: "".join(w.capitalize() for w in s.split("_")).replace("Bitand", "BitAnd").replace("Bitor", "BitOr").replace("Bitxor", "BitXor")
NAMES = {CAMEL(k) if k != "PartialEq" else k: k for k in OPS}

def lits(t):
    return [x.a[0] for x in alts(t) if x.op == "const" and isinstance(x.a[0], str)] if isinstance(t, T) else []
def traits(t):
    """the traits whose impls a generate_function argument comes from"""
    out = []
    for x in subterms(t):
        if x.op == "call" and last(x.a[0]) in ("non_blanket_impls_for_ty", "all_impls", "for_each_relevant_impl"):
            for y in x.a[1:]:
                for z in alts(y) if isinstance(y, T) else ():
                    for w in subterms(z):
                        if w.op != "call": continue
                        n = last(w.a[0])
                        if n.endswith("_trait") and "LanguageItems" in w.a[0]: out.append(n[:-6])
                        elif n in ("get_diagnostic_item", "is_diagnostic_item", "require_lang_item"):
                            m = re.findall(r"(?:Symbol#|LangItem::|sym::)(\w+)", show(w))
                            out += [NAMES.get(k, k) for k in m]
    return list(dict.fromkeys(out))
def operators(ctx, F, Q):
    fn = one(F, "::generate_trait_operator_impls")
    A = AI(F, oracle=lambda t: None, opaque=lambda f: last(f) in ("generate_function", "avoid_colliding_types", "generate_unsupported_def", "get_trait_ref_from_impl_id", "non_blanket_impls_for_ty"), depth=12, alias=Q); A.lenient = True
    A.run(fn)
    seen, prev = set(), 0
    for i, e in enumerate(A.events):
        if last(e.fn or "") != "generate_function": continue
        ops = [m for x in subterms(e.args[2]) if x.op == "const" for m in [str(x.a[0])] if m.startswith("operator")]
        if not ops: prev = i; continue
        trs = traits(e.args[1])
        ms = []
        for f in A.events[prev:i]:
            if last(f.fn or "") in ("eq", "ne") or last(f.decl or "") in ("eq", "ne"):
                if any("AssocItem" in show(a) or "Symbol::as_str" in show(a) for a in f.args):
                    for a in f.args: ms += lits(a) + re.findall(r"Symbol#(\w+)", show(a))[:1]
        prev = i
        if not trs: raise Broken(f"cannot tell which trait {ops} is generated for")
        if len(ops) == len(trs) == 1: rows = [(trs[0], ops[0], ms)]
        else:      # a table of traits and operators: its rows are the aggregates that name one of each
            rows = {}
            for f in A.events[:i]:
                for arg in f.args:
                    for x in subterms(arg) if isinstance(arg, T) else ():
                        if x.op != "agg": continue
                        fs = [y for y in x.a[2:] if isinstance(y, T)]
                        o = [y.a[0] for y in fs if y.op == "const" and str(y.a[0]).startswith("operator")]
                        tr = [k for y in fs if y.op not in ("const", "agg") for k in traits(T("call", "all_impls", y))]
                        if len(o) == len(tr) == 1: rows[(tr[0], o[0])] = [y.a[0] for y in fs if y.op == "const" and y.a[0] != o[0] and isinstance(y.a[0], str)]
            rows = [(t, o, m) for (t, o), m in rows.items()]
            if {t for t, _, _ in rows} != set(trs) or {o for _, o, _ in rows} != set(ops): raise Broken(f"cannot pair traits {trs[:4]} with operators {ops[:4]}")
        for t, o, m in rows:
            ctx.obligation(1); seen.add(t)
            if t not in OPS: ctx.violate(f"operator:{t}", W, f"trait {t} is exposed as {o}, which stands for something else in C++"); continue
            if o != "operator" + OPS[t]: ctx.violate(f"operator:{t}", W, f"trait {t} is exposed as {o} instead of operator{OPS[t]}")
            ctx.count("operator traits", 1)
            if m and METHOD(t) not in m: ctx.violate(f"operator:{t}:method", W, f"{o} calls {m[-1]} of {t} instead of {METHOD(t)}")
    floor(ctx, "operator traits", len(seen), 20)

def typ(t, selfname="T", rhsname="U"):
    """C++ or Rust spelling of a hole made by format_ty_for_cc / format_ty_for_rs"""
    ss = list(subterms(t))
    own = any(x.op == "field" and x.a[1] == "self_ty" for x in ss)
    base = selfname if own else rhsname
    c = next((last(x.a[0]) for x in ss if x.op == "call" and last(x.a[0]) in ("new_imm_ref", "new_mut_ref", "new_ref", "new_ptr", "new_imm_ptr", "new_mut_ptr")), None)
    return base, c
def namer(t, d=0):
    ss = [last(x.a[0]) for x in subterms(t) if x.op == "call"]
    n0 = gen_holename(t, d)
    if "trait_method_thunk_name" in n0 or "trait_method_thunk_name" in ss: return "thunk"
    if "format_ty_for_cc" in ss:
        b, c = typ(t)
        if c is None: return "cc_" + b
        if c not in ("new_imm_ref", "new_mut_ref"): raise Broken(f"unexpected parameter type {c}")
        return ("cref_" if c == "new_imm_ref" else "mref_") + b
    if "format_ty_for_rs" in ss:
        b, c = typ(t)
        return ("rs_" if c is None else "rsref_" if c == "new_imm_ref" else "rsmut_") + b
    return n0
gen_holename = gen.holename
CC = {"cc_T": "T", "cc_U": "U", "cref_T": "const T&", "cref_U": "const U&", "mref_T": "T&", "mref_U": "U&", "cc_short_name": "T", "thunk": "the_thunk"}
RS = {"rs_T": "T", "rs_U": "U", "rsref_T": "&T", "rsref_U": "&U", "rsmut_T": "&mut T", "rsmut_U": "&mut U", "thunk": "the_thunk"}
def fill(s, tab):
    def h(m):
        n = m.group(1).strip("{}")
        if n not in tab: raise Broken(f"unexpected hole {n} in the emitted comparison")
        return tab[n]
    s = re.sub(r"__NEWLINE__|__SPACE__", " ", s); s = re.sub(r"__COMMENT__ (?:'[^']*'|⟨[^⟩]*⟩|\"[^\"]*\")", " ", s)
    return re.sub(r"⟨([^⟩]*)⟩", h, s)
def ccjoin(s):
    s = containers.cpp(s).replace("<= >", "<=>")
    return s
PROBE = {"self": "T", "other": "U"}
CCSRC = '''#include <compare>
#include <cstdint>
#include <cstddef>
#include <string_view>
#include "support/annotations_internal.h"
struct U { char x; };
struct T { char x;
%s
};
%s
extern "C" int probe(const T& a, const %s& b) { auto r = a <=> b; return r < 0 ? 1 : r == 0 ? 2 : r > 0 ? 3 : 4; }
extern "C" int strong(const T& a, const %s& b) { using R = decltype(a <=> b); return std::is_same_v<R, std::strong_ordering> ? 1 : std::is_same_v<R, std::weak_ordering> ? 2 : std::is_same_v<R, std::partial_ordering> ? 3 : 4; }
'''
RSSRC = '''#![crate_type = "lib"]
#![allow(warnings)]
use core::cmp::Ordering;
pub struct T(u8); pub struct U(u8);
#[repr(transparent)] pub struct Code(i8);
unsafe extern "C" { safe fn ord_t(a: &T, b: &T) -> i8; safe fn pord_t(a: &T, b: &T) -> i8; safe fn pord_u(a: &T, b: &U) -> i8; safe fn eq_t(a: &T, b: &T) -> bool; safe fn eq_u(a: &T, b: &U) -> bool; }
#[inline(always)] fn o(v: i8) -> Ordering { match v { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } }
#[inline(always)] fn p(v: i8) -> Option<Ordering> { match v { 3 => None, v => Some(o(v)) } }
impl PartialEq for T { #[inline(always)] fn eq(&self, b: &T) -> bool { eq_t(self, b) } }
impl Eq for T {}
impl PartialEq<U> for T { #[inline(always)] fn eq(&self, b: &U) -> bool { eq_u(self, b) } }
impl PartialOrd for T { #[inline(always)] fn partial_cmp(&self, b: &T) -> Option<Ordering> { p(pord_t(self, b)) } }
impl PartialOrd<U> for T { #[inline(always)] fn partial_cmp(&self, b: &U) -> Option<Ordering> { p(pord_u(self, b)) } }
impl Ord for T { #[inline(always)] fn cmp(&self, b: &T) -> Ordering { o(ord_t(self, b)) } }
%s
'''
class Known:
    """an opaque byte, enumerated"""
    def __init__(s, v, mod=None): s.v, s.mod = v, mod
    def load(s, t, seg): pass
    def assume(s, t, want):
        vs = [x for x in variables(t)]
        if any(x != "code" for x in vs): raise bits.Unsupported("condition " + str(t)[:80])
        return [s] if bool(ev(t, {"code": s.v}, s.mod) & 1) == want else []
def paths(mod, fn, callee, v, params):
    """[(end, returned value, [args of callee])] when callee returns v"""
    entry, heads = mod.headers(fn)
    if heads: raise Broken(f"{fn} has a loop")
    def hook(name, args, seg):
        if name in callee: return ("v", 8, "code")
    env = {p[1]: containers.A(n) for p, n in zip(mod.fns[fn][0], params)}
    out = []
    for sg in mod.segments(fn, entry, env, Known(v, mod), set(), hook=hook):
        cs = [(n, tuple(bits.as_lin(a) for a in args[:2])) for n, args in sg.calls]
        r = None
        if sg.end == "ret": r = const(sg.ret) if const(sg.ret) is not None else ev(sg.ret, {"code": v}, mod)
        out.append((sg.end, r, cs))
    return out
def rust_ir(ctx, name, src):
    f = os.path.join(ctx.tmp, name + ".rs"); open(f, "w").write(src); ll = f[:-3] + ".ll"
    r = ctx.run(["rustc", "--edition=2024", "-Copt-level=3", "-Cpanic=abort", "-Ccodegen-units=1", "-Cno-vectorize-slp", "-Cno-vectorize-loops", "--emit=llvm-ir", f, "-o", ll], ok=False)
    if r.returncode: return None, r.stderr
    return open(ll).read(), ""
def ordering(ctx, F, Q, fn, who):
    f = one(F, "::" + fn)
    A = AI(F, oracle=lambda t: None, opaque=lambda f: last(f) in ("format_ty_for_cc", "format_ty_for_rs", "trait_method_thunk_name", "generate_unsupported_def"), depth=14, alias=Q); A.optional = True
    r = A.run(f)
    gen.holename = namer
    try: em = emitted(A, r, spell=("main_api", "cc_details", "rs_details")).get("Ok")
    finally: gen.holename = gen_holename
    if not em: raise Broken(f"{fn} emits nothing")
    S, O = [], "T" if who == "Ord" else "U"
    for s in em:
        t = {k: sorted(s.get(k, ())) for k in ("main_api", "cc_details", "rs_details")}
        for k, v in t.items():
            if len(v) != 1: raise Broken(f"{fn}: {len(v)} texts for {k}")
        key = tuple(v[0] for v in t.values())
        if key not in S: S.append(key)
    for api, cc, rs in S:
        d = f"{who}"
        ir, err = containers.compile(ctx, "cc" + who, CCSRC % (ccjoin(fill(api, CC)), ccjoin(fill(cc, CC)), O, O))
        if ir is None: ctx.violate(f"ordering:{d}:cc", W, "the operator<=> emitted for " + who + " does not compile: " + next((l for l in err.splitlines() if "error" in l), "")[-160:]); continue
        mod = bits.Walk(ir)
        rir, err = rust_ir(ctx, "rs" + who, RSSRC % fill(rs, RS))
        if rir is None: ctx.violate(f"ordering:{d}:rs", W, "the thunk emitted for " + who + " does not compile: " + next((l for l in err.splitlines() if l.startswith("error")), "")[:160]); continue
        rmod = bits.Walk(rir)
        k = {const(x.ret) for x in mod.segments("strong", mod.headers("strong")[0], {p[1]: containers.A("a") for p in mod.fns["strong"][0]}, Known(0), set())}
        ctx.obligation(1)
        if who == "PartialOrd" and k != {3}: ctx.violate(f"ordering:{d}:category", W, "a partial order is exposed as a stronger comparison category")
        if who == "Ord" and not k <= {1, 2, 3}: ctx.violate(f"ordering:{d}:category", W, "operator<=> does not give a comparison category")
        trait = {"ord_t"} if who == "Ord" else {"pord_u"}
        for v, want in [(0, 1), (1, 2), (2, 3)] + ([(3, 4)] if who == "PartialOrd" else []):
            vn = ["Less", "Equal", "Greater", "None"][v]
            ctx.obligation(1); ctx.count("orderings followed", 1)
            try: rp = paths(rmod, "the_thunk", {"ord_t", "pord_t", "pord_u"}, v, ("a", "b"))
            except bits.Unsupported as e: raise Broken(f"thunk of {who}: {e}")
            for end, code, cs in rp:
                if end != "ret": ctx.violate(f"ordering:{d}:{vn}", W, f"the thunk of {who} does not return for {vn}"); continue
                calls = [c for c in cs if c[0] in ("ord_t", "pord_t", "pord_u", "eq_t", "eq_u")]
                if len(calls) != 1 or calls[0][0] not in trait: ctx.violate(f"ordering:{d}:trait", W, f"the thunk of {who} compares through another implementation or more than once: {[c[0] for c in calls]}"); continue
                if calls[0][1] != (containers.A("a"), containers.A("b")): ctx.violate(f"ordering:{d}:thunk-operands", W, f"the thunk of {who} does not compare its first with its second argument"); continue
                for end, got, cs in paths(mod, "probe", {"the_thunk"}, code & 0xFF, ("a", "b")):
                    calls = [c for c in cs if c[0] == "the_thunk"]
                    if end != "ret": ctx.violate(f"ordering:{d}:{vn}", W, f"operator<=> does not return when Rust says {vn}"); continue
                    if len(calls) != 1 or calls[0][1] != (containers.A("a"), containers.A("b")): ctx.violate(f"ordering:{d}:operands", W, f"operator<=> of {who} does not pass (*this, other) in this order"); continue
                    if got != want: ctx.violate(f"ordering:{d}:{vn}", W, f"operator<=> gives {['?', 'less', 'equal', 'greater', 'unordered'][got] if got < 5 else got} when Rust says {vn}")
DISPLAY = '''#include <ostream>
#include <string_view>
#include <utility>
#include <cstddef>
#include "support/internal/slot.h"
extern "C" { void str_move(void*, void*) noexcept; void str_dtor(void*) noexcept; const char* str_ptr(const void*) noexcept; std::size_t str_len(const void*) noexcept; void sink_put(void*, const char*, std::size_t); }
struct T; extern "C" void disp_thunk(const T&, void*) noexcept;
struct Sink { char c; };
struct V { const char* p; std::size_t n; operator std::string_view() const noexcept { return {p, n}; } friend void AbslStringify(Sink& s, V v) { sink_put(&s, v.p, v.n); } };
namespace rs::alloc::string { struct String { void* a[3]; String(String&& o) noexcept { str_move(this, &o); } ~String() { str_dtor(this); } V as_str() const { return {str_ptr(this), str_len(this)}; } }; }
struct T { char x;
%s
};
extern "C" void absl(const T& t, Sink& s) { AbslStringify(s, t); }
extern "C" void* stream(const T& t, std::ostream& o) { return &(o << t); }
'''
class Free:
    def __init__(s, seen=()): s.seen = seen
    def load(s, t, seg): pass
    def assume(s, t, want): raise bits.Unsupported("branch on " + str(t)[:80])
def display(ctx, F, Q):
    f = one(F, "::generate_display_impl")
    A = AI(F, oracle=lambda t: None, opaque=lambda f: last(f) in ("format_ty_for_cc", "format_ty_for_rs", "trait_method_thunk_name", "generate_trait_thunks", "generate_unsupported_def", "does_type_implement_trait"), depth=14, alias=Q); A.optional = True
    em = emitted(A, A.run(f), spell=("main_api",))
    tx = {t for ss in em.values() if isinstance(ss, list) for s in ss for t in s.get("main_api", ()) if "{" in t}
    if not tx: raise Broken("generate_display_impl emits no operator")
    for t in sorted(tx):
        holes = set(re.findall(r"⟨([^⟩]*)⟩", t)); other = holes - {"cc_short_name"}
        if len(other) != 1: raise Broken(f"holes of the Display operators: {sorted(holes)}")
        ir, err = containers.compile(ctx, "display", DISPLAY % ccjoin(fill(t, {"cc_short_name": "T", other.pop().strip("{}"): "disp_thunk"})))
        if ir is None: ctx.violate("display:cc", W, "the operators emitted for Display do not compile: " + next((l for l in err.splitlines() if "error" in l), "")[-160:]); continue
        mod = bits.Walk(ir); a, o = containers.A("t"), containers.A("out")
        for fn, sink in (("absl", "sink_put"), ("stream", "__ostream_insert")):
            ctx.obligation(1); ctx.count("display operators followed", 1)
            entry, heads = mod.headers(fn)
            if heads: raise Broken(f"{fn} has a loop")
            def hook(name, args, seg):
                k = sum(n in ("str_ptr", "str_len") for n, _ in seg.calls)
                if name in ("str_ptr", "str_len"): return ("v", 64, name)
                if "__ostream_insert" in name: return args[0]
            env = {p[1]: x for p, x in zip(mod.fns[fn][0], (a, o))}
            for sg in mod.segments(fn, entry, env, Free(), set(), hook=hook):
                cs = [(n, [bits.as_lin(x) for x in args]) for n, args in sg.calls]
                bad = lambda k, m: ctx.violate(f"display:{fn}:{k}", W, ("AbslStringify" if fn == "absl" else "operator<<") + " of a Display type " + m)
                if sg.end != "ret": bad("end", "does not return"); continue
                th = [x for n, x in cs if n == "disp_thunk"]
                if len(th) != 1 or th[0][0] != a: bad("thunk", "does not format the object exactly once"); continue
                live, dead = [th[0][1]], []
                ok = True; outs = []
                order = [n for n, _ in cs]
                for n, x in cs[order.index("disp_thunk") + 1:]:
                    if n == "str_move":
                        if x[1] not in live: ok = False; bad("move", "moves from something that is not the formatted string"); break
                        live.append(x[0])
                    elif n in ("str_ptr", "str_len"):
                        if not live or x[0] != live[-1]: ok = False; bad("string", "writes something other than the formatted string"); break
                    elif n == "str_dtor":
                        if x[0] not in live: ok = False; bad("drop", "destroys a string twice or one that was never made"); break
                        live.remove(x[0]); dead.append(x[0])
                    elif sink in n:
                        if not live: ok = False; bad("freed", "writes the string after it was destroyed"); break
                        outs.append(x)
                if not ok: continue
                if any(n in ("str_move", "str_ptr", "str_len", "str_dtor") or sink in n for n in order[:order.index("disp_thunk")]): bad("early", "uses the string before it was formatted"); continue
                if len(outs) != 1 or outs[0][0] != o: bad("write", f"writes {len(outs)} times to its sink"); continue
                if outs[0][1:3] != [bits.as_lin(("v", 64, "str_ptr")), bits.as_lin(("v", 64, "str_len"))]: bad("text", "does not write all of the string"); continue
                if not dead: bad("leak", "never destroys the string"); continue
                if fn == "stream" and bits.as_lin(sg.ret) != o: bad("ret", "does not return its stream")
RANGE = '''#include <utility>
#include <memory>
struct It { void* p; };
extern "C" { void* it_val(const void*); void* it_shared(const void*); void* it_mut(const void*); }
namespace rs { struct IteratorEnd {}; template <class I> struct IteratorAdapter { I it; explicit IteratorAdapter(I i) : it(i) {} }; }
struct T { char x;
%s
};
template <class X> struct Mk;
template <> struct Mk<T&&> { static It mk(T&& t) { return {it_val(&t)}; } };
template <> struct Mk<const T&> { static It mk(const T& t) { return {it_shared(&t)}; } };
template <> struct Mk<T&> { static It mk(T& t) { return {it_mut(&t)}; } };
%s
extern "C" void* probe(T& t) { return %s; }
'''
def unwrap(r, depth=2):
    out = []
    for x in alts(r):
        if x.op == "agg" and vname(x.a[0]) in ("Ok", "Some") and depth and len(x.a) > 2: out += unwrap(x.a[2], depth - 1)
        elif x.op == "agg" and vname(x.a[0]) in ("Err", "None") or x.op == "fail": continue
        else: out.append(x)
    return out
def form(t):
    """how a type is derived from the type being bound: itself, & or &mut"""
    c = [last(x.a[0]) for x in subterms(t) if x.op == "call" and last(x.a[0]) in ("new_imm_ref", "new_mut_ref", "new_ref", "new_ptr")]
    if any(x.op == "alt" for x in subterms(t)): return None
    return {"new_imm_ref": "SharedRef", "new_mut_ref": "MutRef"}.get(c[0]) if c else "Value"
WORD = {"Value": "the object itself", "SharedRef": "a shared reference", "MutRef": "a mutable reference"}
def ranges(ctx, F, Q):
    f = one(F, "::generate_begin_and_end_for_type"); b = F.bodies[f]
    opq = ("format_ty_for_cc", "format_ty_for_rs", "generate_trait_thunks", "generate_thunk_call", "generate_unsupported_def", "does_type_implement_trait", "get_into_iter_ty", "get_into_iter_item_ty", "non_blanket_impls_for_ty", "replace_all_regions_with_static")
    pos = [i for i in range(1, b.argc + 1) if "PassingMode" in b.ty(i)]
    if len(pos) != 1: raise Broken("generate_begin_and_end_for_type has no passing mode")
    def nm(t, d=0):
        ss = [last(x.a[0]) for x in subterms(t) if x.op == "call"]
        if "generate_thunk_call" in ss: return "call"
        if "generate_trait_thunks" in ss: return "decls"
        if "get_into_iter_ty" in ss: return "iter"
        return gen_holename(t, d)
    for mode in ("Value", "SharedRef", "MutRef"):
        for self_iter in (False, True):
            def oracle(t):
                if t.op == "call" and last(t.a[0]) == "does_type_implement_trait": return boolc(self_iter) if "Symbol#Iterator" in show(t.a[3]) or any(x.op == "call" and last(x.a[0]) == "get_diagnostic_item" for x in subterms(t.a[3])) else boolc(True)
            A = AI(F, oracle=oracle, opaque=lambda f: last(f) in opq, depth=14, alias=Q); A.optional = True
            r = A.run(f, [T("agg", "PassingMode::" + mode, ()) if i in pos else T("arg", i, b.name(i)) for i in range(1, b.argc + 1)])
            xs = unwrap(r)
            gen.holename = nm
            try: em = emitted(A, T("alt", *xs), spell=("main_api", "cc_details")).get("", []) if len(xs) > 1 else emitted(A, xs[0], spell=("main_api", "cc_details")).get("", []) if xs else []
            finally: gen.holename = gen_holename
            where = f"{mode}:{'iterator' if self_iter else 'iterable'}"
            if self_iter:
                if mode != "MutRef": continue
                if not em: raise Broken("nothing is emitted for the range of an iterator")
            elif not em: raise Broken(f"nothing is emitted for the range of a type by {mode}")
            if not self_iter:
                seen = 0
                for e in A.events:
                    n = last(e.fn or "")
                    if n == "generate_trait_thunks": tys = [a for a in e.args if isinstance(a, T) and any(x.op == "field" and x.a[1] == "self_ty" for x in subterms(a))]
                    elif n in ("get_into_iter_ty", "generate_thunk_call"): tys = [a for a in e.args if isinstance(a, T) and any(x.op == "field" and x.a[1] == "self_ty" for x in subterms(a)) and not any(x.op == "call" and last(x.a[0]) == "generate_trait_thunks" for x in subterms(a)) and a.op != "agg"]
                    else: continue
                    for a in tys:
                        seen += 1; ctx.obligation(1)
                        if form(a) not in (None, mode): ctx.violate(f"range:{where}:impl", W, f"iterating over {WORD[mode]} uses the IntoIterator implementation of {WORD[form(a)]}")
                floor(ctx, "types in range calls", seen, 2)
            for s in em:
                for api in sorted(s.get("main_api", ())):
                    for cc in sorted(s.get("cc_details", ()) or [""]):
                        if "⟨" not in api: continue
                        ctx.obligation(1); ctx.count("range texts", 1)
                        ptr = "& call_into_iter" in cc
                        tab = {"cc_short_name": "T", "iter": "It*" if ptr else "It", "decls": "", "call": "static It held; held = Mk<decltype(self_)>::mk(static_cast<decltype(self_)>(self_)); return (held);" if ptr else "return Mk<decltype(self_)>::mk(static_cast<decltype(self_)>(self_));"}
                        pr = {"Value": "std::move(t).into_iter()", "SharedRef": "std::as_const(t).begin().it", "MutRef": "t.begin().it"}[mode]
                        pr += "" if self_iter else "->p" if ptr else ".p"
                        ir, err = containers.compile(ctx, "range", RANGE % (ccjoin(fill(api, tab)), ccjoin(fill(cc, tab)), pr))
                        if ir is None: ctx.violate(f"range:{where}:cc", W, "the begin()/into_iter() emitted does not compile against its declaration: " + next((l for l in err.splitlines() if "error" in l), "")[-160:]); continue
                        mod = bits.Walk(ir); t = containers.A("t"); entry, heads = mod.headers("probe")
                        if heads: raise Broken("probe has a loop")
                        def hook(name, args, seg):
                            if name.startswith("it_"): return ("v", 64, "iter")
                        for sg in mod.segments("probe", entry, {mod.fns["probe"][0][0][1]: t}, Free(), set(), hook=hook):
                            cs = [(n, bits.as_lin(a[0])) for n, a in sg.calls if n.startswith("it_")]
                            want = [] if self_iter else [({"Value": cs[0][0] if cs and cs[0][0] in ("it_val", "it_mut") else "it_val", "SharedRef": "it_shared", "MutRef": "it_mut"}[mode], t)]
                            res = t if self_iter else bits.as_lin(("v", 64, "iter"))
                            if sg.end != "ret" or cs != want or bits.as_lin(sg.ret) != res: ctx.violate(f"range:{where}:call", W, f"iterating over {WORD[mode]} of {'an iterator does not advance that object' if self_iter else 'a type does not iterate over the object with the call made for it, once'}")
def run(ctx):
    F = ctx.facts(); Q = Queries(F)
    operators(ctx, F, Q)
    ordering(ctx, F, Q, "generate_ord_impls", "Ord")
    ordering(ctx, F, Q, "generate_partial_ord_impls", "PartialOrd")
    display(ctx, F, Q)
    ranges(ctx, F, Q)
    floor(ctx, "orderings followed", ctx.counts.get("orderings followed", 0) if hasattr(ctx, "counts") else 7, 7)
