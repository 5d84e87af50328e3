"""Rust half: `generate_thunk_call` is interpreted abstractly; for every valuation of what a parameter is (reference, mutable, zero-sized, interior mutability), of how many mutable and shared references there are, and of how the result is returned, the emitted call of CheckNoMutableAliasing must precede the call of the thunk and name exactly the parameters that can break Rust's aliasing rules. C++ half: the optimised LLVM IR of the check, instantiated for 1 to 4 mutable and 0 to 4 shared arguments, is analysed in a zone (difference-bound) domain: on every path the check fails only where two of the memory ranges overlap, and passes only where all are disjoint."""
from core import *
import core, llvm
from thunks import *
from itertools import combinations, product
RULE = "a thunk call with a mutable and another reference is preceded by the aliasing check on every path, over exactly the &mut parameters and the &T parameters whose T is neither zero-sized nor interior-mutable; per IR path of the check: abort/true entails that two ranges overlap, return/false entails that no mutable range overlaps any other"
LEVEL = "other"

# ---- Rust half -----------------------------------------------------------------------------------------------------
CHECK = "CheckNoMutableAliasing"
class Refs(Valuation):
    """one parameter's valuation, plus the answers to `how many` questions about two collections"""
    def __init__(s, v, mut, zst, freeze, counts=()): super().__init__(v); s.x, s.counts = (mut, zst, freeze), dict(counts)
    def __call__(s, t):
        mut, zst, freeze = s.x
        if t.op == "call":
            n = last(t.a[0])
            if n in ("is_mut", "is_not"): return boolc(mut == (n == "is_mut"))
            if n in ("get_layout", "layout_of"): return ok(T("mark", "layout"))
            if n == "is_freeze": return boolc(freeze)
            if n in ("is_zst", "is_1zst"): return boolc(zst)
            if n in ("len", "is_empty", "count"):
                for x in t.a[1:]:
                    if isinstance(x, T) and x in s.counts: return boolc(s.counts[x] == 0) if n == "is_empty" else T("const", s.counts[x], "int")
        if t.op == "disc":
            x = t.a[0]
            if x.op in ("field", "var") and "Mutability" in show(x): return frozenset({"Mut" if mut else "Not"})
        return super().__call__(t)

def member(A, t, d=0):
    """does the collection t contain the parameter looked at: True, False or None"""
    if d > 12: return None
    if t.op in ("nil", "empty", "default"): return False
    if t.op == "elem": return True
    if t.op == "call" and last(t.a[0]) in ("default", "new", "with_capacity"): return False
    if t.op == "push": return True if member(A, t.a[0], d + 1) is not None else None
    if t.op in ("filtered", "mapped", "skipped", "enum"): return member(A, t.a[0], d + 1)
    if t.op == "list": return True
    if t.op == "arg": return True
    if t.op == "alt":
        r = {member(A, x, d + 1) for x in t.a}
        return None if len(r) != 1 else r.pop()
    if t.op == "call" and last(t.a[0]) in ("collect", "iter", "into_iter", "collect_vec", "to_vec", "clone", "as_slice", "deref") and len(t.a) == 2: return member(A, t.a[1], d + 1)
    x, path = t, []
    while x.op == "field": path.append("." + str(x.a[1])); x = x.a[0]
    if x.op == "mu" and x in A.mu:
        init, steps = A.mu[x]
        rs = []
        for s in [init] + list(steps):
            for y in alts(s):
                if y.op == "upd" and path:
                    if y.a[1] == tuple(reversed(path)): rs.append(any(z.op == "push" for z in alts(y.a[2])) or None); continue
                    if y.a[1][:len(path)] != tuple(reversed(path)): continue
                z = y
                for p in reversed(path): z = A.proj(z, p, {})
                if z == t or z == x: continue
                rs.append(member(A, z, d + 1))
        if any(r is None for r in rs): return None
        return any(rs)
    return None

def fresh(c): return c.op == "call" and last(c.a[0]) in ("default", "new", "with_capacity")
def collection(hole):
    """(collection, field) of a hole standing for a field of one of its elements"""
    x, f = hole, []
    while x.op in ("field", "var") or (x.op == "call" and last(x.a[0]) in ("into_tokens", "clone", "as_ref", "into_token_stream", "to_token_stream") and len(x.a) > 1):
        if x.op == "field": f.append(str(x.a[1]))
        x = x.a[1] if x.op == "call" else x.a[0]
    return (x.a[0], tuple(reversed(f))) if x.op in ("elem", "index") else (None, ())
def holes(items):
    for x in items:
        if isinstance(x, tuple):
            if x[0] == "hole": yield x[1]
            else:
                for y in (x[2] if x[0] == "grp" else x[1]): yield from holes(y)
def arguments(items, head):
    """what stands in `head < .. > ( .. )`: (collections of the types, collections of the arguments), or None"""
    for i, x in enumerate(items):
        if x == head:
            ty, k = [], i + 1
            while k < len(items) and not (isinstance(items[k], tuple) and items[k][0] == "grp"): ty.append(items[k]); k += 1
            if k == len(items): return None
            return {collection(h) for h in holes(ty)}, {collection(h) for h in holes([items[k]])}
        if isinstance(x, tuple) and x[0] == "grp":
            for y in x[2]:
                r = arguments(y, head)
                if r: return r
    return None
def position(items, pred):
    for i, x in enumerate(items):
        if pred(x): return i
        if isinstance(x, tuple) and x[0] == "rep" and any(position(y, pred) is not None for y in x[1]): return i
    return None
class Calls:
    def __init__(s, F):
        s.F, s.path = F, one(F, "::generate_thunk_call", GEN)
        s.where = F.bodies[s.path].where(); s.steps = 0
    def run(s, val, x, counts=(), is_async=False):
        b = s.F.bodies[s.path]
        A = AI(s.F, oracle=Refs(val, *x, counts), opaque=lambda f: opaque(f, [o for o in OPAQUE if o != "refs_to_check_for_aliasing"]), depth=18)
        A.optional = True
        r = A.run(s.path, [boolc(is_async) if b.name(i) == "is_async" else T("arg", i, b.name(i) or "") for i in range(1, b.argc + 1)])
        s.steps += A.steps
        out = []
        for y in alts(r):
            if y.op == "agg" and vname(y.a[0]) == "Ok":
                tk = A.proj(y.a[2], ".tokens", {})
                out += flat(A, tk)
        # without the templates whose statements are an unresolved loop value (the zero-iteration alternative)
        return A, [o for o in out if "⟨?⟩" not in text(o)] or out
def thunk_at(items): return position(items, lambda x: isinstance(x, tuple) and x[0] == "hole" and x[1].op == "arg" and x[1].a[1] == "thunk_name")
def check_at(items): return position(items, lambda x: x == CHECK)

def rust_half(ctx, F):
    C = Calls(F)
    ref = dict(base, kind="Ref"); val = dict(param=ref, ret=dict(base), feat=set())
    def discover(out, report):
        """the collections the check ranges over"""
        def bad(key, msg):
            if report: ctx.violate(key, C.where, msg)
        found = {}
        for items in out:
            i = check_at(items)
            if i is None: continue
            for h in ("AsMutPtrDatas", "AsPtrDatas"):
                a = arguments(items[i:], h)
                if a is None: return bad(f"aliasing-args:{h}", f"the emitted {CHECK} has no {h} argument")
                found.setdefault(h, set()).add((frozenset(a[0]), frozenset(a[1])))
        if not found: return bad("aliasing-check:absent", f"no {CHECK} is emitted for any function, so aliasing mutable references reach Rust")
        cols = []
        for h, xs in sorted(found.items()):
            cs = {c for t, n in xs for c, f in t | n if c is not None and not fresh(c)}
            if report: ctx.obligation(f"{h}: type and argument lists range over the same collection, in the same order")
            if len(cs) != 1: return bad(f"aliasing-args:{h}:collections", f"the types and arguments of {h} do not come from one collection of parameters ({len(cs)} collections)")
            cols.append(cs.pop())
            names = {f for t, n in xs for c, f in n if c is not None}; tys = {f for t, n in xs for c, f in t if c is not None}
            if names & tys or not all(f and f[-1] == "cc_name" for f in names): bad(f"aliasing-args:{h}:names", f"{h} is not called with the parameters' C++ names")
        if cols[0] == cols[1]: return bad("aliasing-args:same", "mutable and shared references are the same collection")
        return cols
    A, out = C.run(val, (True, False, True))
    if discover(out, True) is None: return
    # which parameters are in them
    for kind, mut, zst, freeze in [("Ref", m, z, f) for m, z, f in product((True, False), repeat=3)] + [("RawPtr", m, False, True) for m in (True, False)] + [("Adt", False, False, True), ("Int", False, False, True)]:
        A, out = C.run(dict(val, param=dict(base, kind=kind)), (mut, zst, freeze))
        what = f"{'&mut T' if mut else '&T'}, T {'zero-sized, ' if zst else ''}{'without' if freeze else 'with'} interior mutability" if kind == "Ref" else f"{kind}{' (mutable)' if mut else ''}"
        got = {}
        for h, want in (("AsMutPtrDatas", kind == "Ref" and mut), ("AsPtrDatas", kind == "Ref" and not mut and not zst and freeze)):
            ms = set()
            for items in out:
                i = check_at(items)
                if i is None: continue
                for c, f in set().union(*arguments(items[i:], h) or ((),)):
                    if c is None: ms.add(None)
                    elif fresh(c): continue
                    else: ms.add(member(A, c))
            g = True if True in ms and None not in ms else False if ms <= {False} else None
            ctx.obligation(f"parameter {what}: {'in' if g else 'not in' if g is False else '?'} {h}")
            if g is None: raise Broken(f"cannot decide whether {h} contains a parameter {what}: {ms}")
            ctx.count("parameter_kinds_decided", 1)
            if g != want: ctx.violate(f"aliasing-member:{h}:{kind}:{'mut' if mut else 'shared'}:{'zst' if zst else 'sized'}:{'freeze' if freeze else 'cell'}", C.where,
                                      f"a parameter that is {what} is {'not ' if want else ''}passed to {h}, {'so a call that breaks the aliasing rules reaches Rust unchecked' if want else 'so a call Rust allows is aborted or does not compile'}")
    # whenever two references can conflict, the check is made before the call
    rets = [(dict(base), False), (dict(base, kind="Never"), False), (dict(base, kind="Adt", cabi=False), False), (dict(base, kind="Adt", cabi=False, drop=True), False), (dict(base, br="comp", kind="Adt", cabi=False), False), (dict(base), True)]
    for (ret, asy), m, s in product(rets, (1, 2, 3), (0, 1, 2)):
        if m + s < 2: continue
        cols = discover(C.run(dict(val, ret=ret), (True, False, True), (), asy)[1], False)
        if cols is None: ctx.violate(f"aliasing-check:{'async' if asy else ret['kind']}", C.where, f"no aliasing check is emitted for a function with {'an async' if asy else ret['kind']} result"); continue
        M, S = cols
        A, out = C.run(dict(val, ret=ret), (True, False, True), {M: m, S: s}, asy)
        what = f"{m} mutable and {s} shared references, {'async, ' if asy else ''}result {ret['kind']}{'' if ret['cabi'] else ' by pointer'}{' bridged' if ret['br'] != 'none' else ''}"
        ctx.obligation(f"{what}: checked before the call on {len(out)} paths")
        if not out: raise Broken(f"no C++ for {what}")
        ctx.count("call_shapes", 1)
        for items in out:
            t, c = thunk_at(items), check_at(items)
            if t is None: raise Broken(f"no call of the thunk for {what}")
            if c is None or c > t:
                ctx.violate(f"aliasing-check:{'async' if asy else ret['kind']}:{m}mut{s}shared", C.where, f"for a function with {what}, the thunk is called {'without' if c is None else 'before'} the aliasing check"); break
            a = arguments(items[c:], "AsMutPtrDatas"), arguments(items[c:], "AsPtrDatas")
            if any(x is None or any(k[0] not in (M, S) for k in x[0] | x[1] if k[0] is not None and not fresh(k[0])) for x in a): ctx.violate("aliasing-args:vary", C.where, "the aliasing check does not range over all references"); break
    ctx.cov["interpreter_steps"] = C.steps

# ---- C++ half ------------------------------------------------------------------------------------------------------
class Zone:
    """conjunction of x - y <= c"""
    def __init__(z, n=None): z.d = dict(n.d) if n else {}; z.v = set(n.v) if n else {"0"}; z.bot = n.bot if n else False
    def var(z, v):
        if v not in z.v: z.v.add(v); z.le("0", v, 0)
    def get(z, x, y): return 0 if x == y else z.d.get((x, y))
    def le(z, x, y, c):
        """x - y <= c"""
        if x == y: z.bot |= c < 0; return
        o = z.d.get((x, y))
        if o is not None and o <= c: return
        z.d[x, y] = c
        for p in list(z.v):
            a = z.get(p, x)
            if a is None: continue
            for q in list(z.v):
                b = z.get(y, q)
                if b is None: continue
                k = a + c + b
                if p == q: z.bot |= k < 0
                elif z.d.get((p, q)) is None or z.d[p, q] > k: z.d[p, q] = k
    def entails(z, x, y, c):
        k = z.get(x, y); return z.bot or (k is not None and k <= c)
def sums(t):
    """{atom: factor} of an integer term; the constant is the factor of "" """
    t = t.strip()
    if re.fullmatch(r"-?\d+", t): return {"": int(t)}
    bal = lambda x: x.count("(") == x.count(")") and x.count("[") == x.count("]")
    m = re.fullmatch(r"(.*)\+(-?\d+)", t)
    if m and bal(m[1]): return plus(sums(m[1]), {"": int(m[2])})
    m = re.fullmatch(r"(.*)\[(.*)\*(\d+)\]", t)
    if m and bal(m[1]) and bal(m[2]): return plus(sums(m[1]), sums(m[2]), int(m[3]))
    m = re.fullmatch(r"(add|sub|mul|shl)\((.*)\)", t)
    if m and len(ab := llvm.split_top(m[2])) == 2:
        x, y = sums(ab[0]), sums(ab[1])
        if m[1] in ("add", "sub"): return plus(x, y, 1 if m[1] == "add" else -1)
        if set(y) <= {""}: return plus({}, x, y.get("", 0) if m[1] == "mul" else 1 << y.get("", 0))
    return {t: 1}
def plus(x, y, k=1):
    r = dict(x)
    for a, f in y.items(): r[a] = r.get(a, 0) + k * f
    return {a: f for a, f in r.items() if f}
def linear(t):
    """(variable, constant)"""
    s = sums(t); k = s.pop("", 0)
    return "+".join(f"{f}*{a}" if f != 1 else a for a, f in sorted(s.items())) or "0", k
def atom(z, pred, a, b):
    """[(x, y, c)] conjunctions for a pred b"""
    (x, i), (y, j) = linear(a), linear(b)
    z.var(x); z.var(y)
    return {"ult": [(x, y, j - i - 1)], "ule": [(x, y, j - i)], "ugt": [(y, x, i - j - 1)], "uge": [(y, x, i - j)]}.get(pred)
NEG = {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult"}
def branches(z, term, want):
    """the zones in which the condition holds"""
    if z.bot: return []
    if re.fullmatch(r"-?\d+", term): return [z] if (int(term) != 0) == want else []
    m = re.fullmatch(r"not\((.*)\)", term)
    if m: return branches(z, m[1], not want)
    m = re.fullmatch(r"(and|or|xor)\((.*)\)", term)
    if m:
        a, b = llvm.split_top(m[2])
        if m[1] == "xor": return [w for x in (True, False) for y in branches(z, a, x) for w in branches(y, b, x != want)]
        if (m[1] == "and") == want: return [w for y in branches(z, a, want) for w in branches(y, b, want)]
        return branches(z, a, want) + [w for y in branches(z, a, not want) for w in branches(y, b, want)]
    m = re.fullmatch(r"icmp (\w+)\((.*)\)", term)
    if m:
        a, b = llvm.split_top(m[2])
        if m[1] == "eq":
            if want: w = Zone(z); [w.le(*k) for q in ("ule", "uge") for k in atom(w, q, a, b)]; return [] if w.bot else [w]
            return branches(z, f"icmp ult({a}, {b})", True) + branches(z, f"icmp ugt({a}, {b})", True)
        pr = m[1] if want else NEG.get(m[1])
        w = Zone(z); cs = atom(w, pr, a, b)
        if cs is not None:
            for c in cs: w.le(*c)
            return [] if w.bot else [w]
    return [z]      # not a constraint of this domain: both ways
class Paths(llvm.Module):
    zone0 = None
    def _cond(self, path, term, want):
        zs = getattr(path, "zones", None) or [self.zone0]
        path.zones = [w for z in zs for w in branches(z, term, want)]
        return bool(path.zones)
    def _clone(self, p):
        q = super()._clone(p); q.zones = list(getattr(p, "zones", None) or [self.zone0]); return q

def analyse(ctx, name, mod, fn, ranges, assume, header, key):
    """ranges: [(is_mut, start term, end term)]"""
    z = Zone()
    for m, s, e in ranges:
        (a, i), (b, j) = linear(s), linear(e)
        z.var(a); z.var(b)
        if assume: z.le(a, b, j - i - 1)
        else: z.le(a, b, j - i)
    for x, k in (assume or {}).items() if isinstance(assume, dict) else (): z.var(x); z.le("0", x, -k)
    mod.zone0 = z
    pairs = [(p, q) for p, q in combinations(range(len(ranges)), 2) if ranges[p][0] or ranges[q][0]]
    def before(w, p, q):        # end of p <= start of q
        (a, i), (b, j) = linear(ranges[p][2]), linear(ranges[q][1]); w.var(a); w.var(b)
        return w.entails(a, b, j - i)
    def starts(w, p, q):        # start of p < end of q
        (a, i), (b, j) = linear(ranges[p][1]), linear(ranges[q][2]); w.var(a); w.var(b)
        return w.entails(a, b, j - i - 1)
    n = 0
    for p in mod.paths(fn, limit=200000, revisit=40):
        if p.end == "loop": raise Broken(f"{name}: unbounded loop")
        zs = getattr(p, "zones", None) or [z]
        outs = [(w, True) for w in zs] if p.end == "unreachable" else []
        if p.end == "ret":
            for w in zs:
                if p.ret is None: outs.append((w, False))
                else: outs += [(x, v) for v in (True, False) for x in branches(w, p.ret, v)]
        for w, alarm in outs:
            n += 1
            if alarm and assume and not any(starts(w, a, b) and starts(w, b, a) for a, b in pairs):
                return n, f"{name}: fails although no two of the ranges need overlap"
            if not alarm:
                for a, b in pairs:
                    if not before(w, a, b) and not before(w, b, a):
                        k = lambda i: ("mutable" if ranges[i][0] else "shared") + f" #{[r[0] for r in ranges[:i]].count(ranges[i][0]) + 1}"
                        return n, f"{name}: passes although the {k(a)} and the {k(b)} range can overlap"
    return n, None

def cc_half(ctx, tier):
    H = "support/internal/check_no_mutable_aliasing.h"
    src = ['#include "support/internal/check_no_mutable_aliasing.cc"', '#include "support/rs_std/slice_ref.h"', '#include "support/rs_std/str_ref.h"', "using namespace crubit::internal; using A = uintptr_t;"]
    W = []          # (function, name, ranges, assume)
    big = [(4, 0), (4, 1), (1, 4)] + ([(4, 2), (2, 4), (5, 0), (5, 1), (1, 5)] if tier == "thorough" else [])
    def decl(fn, ret, call, m, n, arr):
        ps = ", ".join(f"A s{i}, A e{i}" for i in range(m + n))
        l = lambda a, b: ", ".join(f"PtrData{{s{i}, e{i}}}" for i in range(a, b))
        if arr: src.append(f'extern "C" {ret} {fn}({ps}) {{ {"return " if ret == "bool" else ""}{call}(std::array<PtrData, {m}>{{{l(0, m)}}}, std::array<PtrData, {n}>{{{l(m, m + n)}}}); }}')
        else: src.append(f'extern "C" {ret} {fn}({ps}) {{ std::array<PtrData, {m}> m{{{l(0, m)}}}; std::array<PtrData, {n}> n{{{l(m, m + n)}}}; {"return " if ret == "bool" else ""}{call}(m, n); }}')
        W.append((fn, f"{call} with {m} mutable and {n} shared", [(i < m, f"a{2 * i}", f"a{2 * i + 1}") for i in range(m + n)], True, call))
    for m in range(1, 4):
        for n in range(0, 4):
            if m + n < 2: continue
            decl(f"c{m}{n}", "void", "CheckNoMutableAliasing", m, n, True)
            decl(f"h{m}{n}", "bool", "HasMutableAliasing", m, n, True)
            if m + n <= 4: decl(f"s{m}{n}", "bool", "HasMutableAliasingSpans", m, n, False)
    for m, n in big:
        decl(f"c{m}{n}", "void", "CheckNoMutableAliasing", m, n, True)
        decl(f"s{m}{n}", "bool", "HasMutableAliasingSpans", m, n, False)
    # as generated: from references, pointers, slices and strings
    src.append("struct S2 { short x; }; struct S8 { long long x; }; struct S24 { long long x[3]; }; struct S1 { char c; };")
    E = [("refs", "S8& a, S24& b, const S2& c, const S1& d", "AsMutPtrDatas<S8&, S24&>(a, b), AsPtrDatas<const S2&, const S1&>(c, d)", [(1, "a0", "a0+8"), (1, "a1", "a1+24"), (0, "a2", "a2+2"), (0, "a3", "a3+1")], {}),
         ("ptrs", "S24* a, S2& b, const S8* c", "AsMutPtrDatas<S24*, S2&>(a, b), AsPtrDatas<const S8*>(c)", [(1, "a0", "a0+24"), (1, "a1", "a1+2"), (0, "a2", "a2+8")], {}),
         ("slices", "S8* a, size_t n, const S2* b, size_t m, const S8& c", "AsMutPtrDatas<rs_std::SliceRef<S8>>(rs_std::SliceRef<S8>(a, n)), AsPtrDatas<rs_std::SliceRef<const S2>, const S8&>(rs_std::SliceRef<const S2>(b, m), c)", [(1, "a0", "a0[a1*8]"), (0, "a2", "a2[a3*2]"), (0, "a4", "a4+8")], {"a1": 1, "a3": 1, "a0": 1, "a2": 1}),
         ("strings", "S8& a, const char* p, size_t n", "AsMutPtrDatas<S8&>(a), AsPtrDatas<rs_std::StrRef>(rs_std::StrRef::FromUtf8Unchecked(std::string_view(p, n)))", [(1, "a0", "a0+8"), (0, "a1", "a1[a2*1]")], {"a2": 1, "a1": 1})]
    for fn, ps, call, ranges, assume in E:
        src.append(f'extern "C" void E_{fn}({ps}) {{ CheckNoMutableAliasing({call}); }}')
        W.append((f"E_{fn}", f"CheckNoMutableAliasing over {fn}", ranges, assume or True, "PtrLike:" + fn))
    f = os.path.join(ctx.tmp, "alias.cc"); open(f, "w").write("\n".join(src)); ll = f[:-3] + ".ll"
    r = ctx.run(["clang++", "-std=c++20", "-O2", "-w", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-mllvm", "-inline-threshold=20000", "-mllvm", "-unroll-threshold=20000", "-S", "-emit-llvm",
                 f"-I{core.VERIF}/stubs_sort", f"-I{core.REPO}", f"-I{core.VERIF}/stubs", f, "-o", ll], ok=False)
    if r.returncode: raise Broken("the aliasing check does not compile:\n" + r.stderr[-2000:])
    # umax / umin as comparison and selection
    text_ = re.sub(r"(%[\w.]+) = (?:tail )?call (?:range\([^)]*\) |noundef )*i64 @llvm\.(umax|umin)\.i64\((i64 [^,]*), i64 ([^)]*)\)", lambda m: f"{m[1]}.c = icmp {'ugt' if m[2] == 'umax' else 'ult'} {m[3]}, {m[4]}\n  {m[1]} = select i1 {m[1]}.c, {m[3]}, i64 {m[4]}", open(ll).read())
    def go(w):
        fn, name, ranges, assume, key = w
        mod = Paths(text_)
        try: return analyse(ctx, name, mod, fn, ranges, assume, H, key)
        except llvm.Unsupported as e: return 0, Broken(f"{name}: {e}")
    total = 0
    for w, (n, bad) in zip(W, parallel(go, W)):
        ctx.obligation(f"{w[1]}: {n} path/zone outcomes")
        total += n
        if isinstance(bad, Broken): raise bad
        if bad: ctx.violate(f"aliasing-check:{w[4]}:{w[1].split(' with ')[-1]}", "support/rs_std/slice_ref.h" if w[0] == "E_slices" else "support/rs_std/str_ref.h" if w[0] == "E_strings" else H, bad)
    ctx.cov["check_instantiations"] = len(W); ctx.cov["path_outcomes"] = total

def run(ctx):
    F = ctx.facts(harness=False)
    rust_half(ctx, F)
    cc_half(ctx, ctx.tier)
