"""What the generator emits for Option, Result and Vec (abstract interpretation of its MIR, as in P32) is compiled with the current support headers, with and without NDEBUG; on every IR path of every accessor the payload's address is returned only where the tag says it is there, and the path ends in an abort exactly where it is not; an index reaches an element exactly when it is below the length. iterator_adapter.h is compiled against a model iterator whose next() is opaque; the number of calls of next(), what is returned and where it aborts are read off the IR paths."""
from core import *
import core, bits, containers, importlib.util, itertools
from bits import const
from gen import parallel, Queries
_s = importlib.util.spec_from_file_location("p32", os.path.join(os.path.dirname(os.path.abspath(__file__)), "p32.py")); p32 = importlib.util.module_from_spec(_s); _s.loader.exec_module(p32)
RULE = "per accessor and IR path: returns the payload iff the tag says it is there, otherwise does not return; an index returns data + index iff index < length; an iterator adapter calls next() once when made and once per increment and gives the item of the last call or the end"
LEVEL = "other"
W = "support/rs_std/iterator_adapter.h"
ITER = '''
extern "C" bool it_next(void*, int*) noexcept;
struct It { void* state; };
namespace rs::core::iter { struct Iterator; }
namespace rs_std { template <> struct impl<It, ::rs::core::iter::Iterator> { static constexpr bool kIsImplemented = true; using Item = int;
  static std::optional<int> next(It& s) noexcept { int v; if (!it_next(s.state, &v)) return std::nullopt; return v; } }; }
using Ad = rs::IteratorAdapter<It>; using Ap = rs::IteratorAdapter<It*>; using End = rs::IteratorEnd;
extern "C" {
int first(void* s) { Ad a(It{s}); if (a == End{}) return -1; return *a; }
int second(void* s) { Ad a(It{s}); ++a; if (a == End{}) return -1; return *a; }
int second_post(void* s) { Ad a(It{s}); a++; if (a == End{}) return -1; return *a; }
int second_ne(void* s) { Ad a(It{s}); auto& b = ++a; if (b != End{}) return *b; return -1; }
int twice(void* s) { Ad a(It{s}); int x = *a; return x ^ *a; }
int deref(void* s) { Ad a(It{s}); return *a; }
int of_copy(void* s) { Ad a(It{s}); Ad b(a); ++b; return *a; }
int of_assigned(void* s) { Ad a(It{s}); Ad b(It{s}); b = a; return *b; }
int pointer(void* s) { It i{s}; Ap a(&i); if (a == End{}) return -1; return *a; }
int pointer_second(void* s) { It i{s}; Ap a(&i); ++a; if (a == End{}) return -1; return *a; }
}
'''
# {function: (calls of next on a path where each gives an item, which call's item is returned, may it return at the end)}
WANT = {"first": (1, 1, True), "second": (2, 2, True), "second_post": (2, 2, True), "second_ne": (2, 2, True), "twice": (1, 0, False), "deref": (1, 1, False), "of_copy": (2, 1, False), "of_assigned": (2, 1, False), "pointer": (1, 1, True), "pointer_second": (2, 2, True)}
class Flags:
    def __init__(s, known=None): s.known = dict(known or {})
    def load(s, t, seg): pass
    def assume(s, t, want):
        vs = sorted(v for v in bits.variables(t) if isinstance(v, str)); ms = [v for v in vs if v.startswith("more")]
        if len(ms) > 4 or any(not v.startswith(("more", "item")) for v in vs): raise bits.Unsupported("condition " + str(t)[:80])
        out = []
        for xs in itertools.product(*[(s.known[v],) if v in s.known else (0, 1) for v in ms]):
            k = dict(zip(ms, xs))
            r = {bool(bits.ev(t, {**{v: x for v in vs}, **k}, None) & 1) for x in (0, 0xFFFFFFFF, 0xA5A5A5A5, 1, 0x80000000)}
            if len(r) > 1: raise bits.Unsupported("condition on an item " + str(t)[:80])
            if r == {want}: out.append(Flags({**s.known, **k}))
        return out
def iterators(ctx, flags):
    src = containers.PRE([W]).replace("#undef CRUBIT_INTERNAL_RUST_TYPE", "#include <iterator>\n#include <compare>\n#undef CRUBIT_INTERNAL_RUST_TYPE") + ITER
    ir, err = containers.compile(ctx, "iter" + str(len(flags)), src, *flags)
    if ir is None: raise Broken("iterator_adapter.h does not compile against the model iterator:\n" + err[:1500])
    mod = bits.Walk(ir)
    def hook(name, args, seg):
        if name == "it_next":
            k = sum(n == "it_next" for n, _ in seg.calls)
            seg.stores.append((bits.as_lin(args[1]), "i32", ("v", 32, f"item{k}")))
            return ("v", 1, f"more{k}")
    for fn, (n, which, atend) in WANT.items():
        entry, heads = mod.headers(fn)
        if heads: raise Broken(f"{fn} has a loop")
        some = False
        for sg in mod.segments(fn, entry, {mod.fns[fn][0][0][1]: containers.A("s")}, Flags(), set(), hook=hook):
            ctx.obligation(1)
            cs = [a for nm, a in sg.calls if nm == "it_next"]
            if any(bits.as_lin(a[0]) != containers.A("s") for a in cs): ctx.violate(f"iterator:{fn}:source", W, "next() is called on another iterator than the adapted one"); continue
            last = [sg.dom.known.get(f"more{k}") for k in range(1, len(cs) + 1)]
            have = last[which - 1] if which and len(last) >= which else last[-1] if last else None
            if sg.end == "ret":
                if len(cs) != n: ctx.violate(f"iterator:{fn}:count", W, f"next() is called {len(cs)} times, not {n}, by the construction of an adapter" + (f" and {n - 1} increment" if n > 1 else "")); continue
                k = const(sg.ret)
                if k is not None and k & 0xFFFFFFFF == 0xFFFFFFFF and atend:
                    if have != 0: ctx.violate(f"iterator:{fn}:end", W, "an adapter compares equal to the end although its iterator gave an item")
                elif have == 0: ctx.violate(f"iterator:{fn}:absent", W, "an item is read although the iterator gave none")
                else:
                    some = True
                    if which and sg.ret != ("v", 32, f"item{which}") or not which and k != 0: ctx.violate(f"iterator:{fn}:item", W, "the item read is not the one the last next() gave")
            elif have != 0 and not (fn in ("of_assigned",) and 0 in last): ctx.violate(f"iterator:{fn}:refuses", W, "reading an item aborts although the iterator gave one")
        if not some: ctx.violate(f"iterator:{fn}:none", W, "no item can be read")
def run(ctx):
    F = ctx.facts(); Q = Queries(F); H = p32.index_helpers(F, Q); roles = {}
    for fn, per in H.items():
        for n, lis in per.items(): roles[n] = min(lis)
    cells = [c for c in p32.cells() if c[0] != "Tuple" and c[4] == "Little"]
    for c, (o, partial) in parallel(lambda c: (c, p32.emit_all(F, Q, p32.Std(*c, roles), H)), cells):
        args, kind, enc, u, _ = c
        if not o["main_api"] or not o["cc_details"]: raise Broken(f"nothing emitted for {c}")
        what = (kind or args) + (f" ({enc}{'' if enc == 'Direct' or kind == 'Option' else ', untagged ' + ('Ok' if u == 5 else 'Err')})" if enc else "")
        for flags in ((), ("-DNDEBUG",)): p32.ir_rules(ctx, what + (" with NDEBUG" if flags else ""), args, kind, enc, u, o, ("access",), flags)
    for flags in ((), ("-DNDEBUG",)): iterators(ctx, flags)
    ctx.count("container cells", len(cells))
