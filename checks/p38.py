"""Prerequisites are kept. On the compiled MIR of the functions that merge and assemble prerequisites: every kind of prerequisite of the absorbed side must flow into the same kind of the absorbing side on every path; a snippet whose tokens are taken must not have its prerequisites dropped; and in the assembly of the header the includes, forward declarations, ordering edges and specializations of every item must reach the operation that acts on them, in every iteration of the loop that handles the items."""
from core import *
from gen import last
import re
import names
RULE = "a prerequisite recorded with a snippet is merged into whatever absorbs the snippet and acted on when the header is assembled"
LEVEL = "other"
GROW = ("extend", "append", "insert", "push", "bitor_assign", "add_assign", "union", "extend_from_slice", "push_back")
FIELDS = ("includes", "defs", "fwd_decls", "required_features", "template_specializations", "lazy_template_specializations")

CUT = ("into_tokens", "add_assign", "generate_template_specialization", "generate_specializations_fixpoint", "append_trait_impls")    # primitives with rules of their own: their insides do not count as reads of the caller

KEEP = ("formatted_items_in_crate", "generate_using", "append_trait_impls", "generate_specializations_fixpoint", "format_namespace_bound_cc_tokens", "generate_fwd_decl", "generate_template_specialization", "format_cc_includes", "toposort") + CUT

class Body:
    """backward slices over one body (closures it builds included), insensitive to the order of statements"""
    def __init__(s, F, N, p, whole=False):
        s.F, s.N, s.p = F, N, p; s.parts = [p]
        if whole:
            b, s.parts = names.inlined(F, N, p, lambda f: last(f) in KEEP); s.g = names.Graph(F, b)
        else: s.g = N.g[p]
        s.b = s.g.b
        s.into = {}                                # local -> operands that may flow into it
        g = s.g
        def put(l, x, i): s.into.setdefault(l, []).append((x, i))
        s.refs = {}
        for i in sorted(g.live):
            for pl, r, ln in s.b.blocks[i]["s"]:
                if r["r"] in ("live", "dead"): continue
                put(pl[0], ("rv", r), i)
                if r["r"] in ("ref", "cpref") and len(pl) == 1: s.refs[pl[0]] = r["p"]
            t = s.b.blocks[i]["t"]
            if t["t"] == "call" and t.get("d"): put(t["d"][0], ("call", t), i)
        for i in sorted(g.live):                   # a call may write through a mutable reference it is given
            t = s.b.blocks[i]["t"]
            if t["t"] != "call": continue
            for n, a in enumerate(t["a"]):
                q = s.place(a)
                if q and s.mutref(a): put(q[0], ("args", t, n), i)
    def loc(s, o): return (o.get("m") or o.get("c")) if isinstance(o, dict) else o
    def mutref(s, o):
        l = s.loc(o)
        return bool(l) and len(l) == 1 and (s.b.ty(l[0]) or "").startswith("&mut")
    def place(s, o, d=0):
        "the place an operand is, or refers to: [root, fields...]"
        l = s.loc(o)
        if not l: return None
        l = [x for x in l if x != "*"]
        while d < 20:
            d += 1
            if l[0] in s.refs and s.g.defs.get(l[0]) and len(s.g.defs[l[0]]) == 1: l = [x for x in s.refs[l[0]] if x != "*"] + l[1:]; continue
            ds = s.g.defs.get(l[0], [])
            if len(ds) == 1 and ds[0][0] == "s" and ds[0][1]["r"] in ("use", "cast") and s.loc(ds[0][1].get("o")): l = [x for x in s.loc(ds[0][1]["o"]) if x != "*"] + l[1:]; continue
            break
        return l
    def slice(s, o, cut=()):
        """every place read and function called on the way to the operand's value"""
        out = set(); w = [("op", o)]; done = set()
        while w:
            k, x = w.pop()
            if k == "op":
                if isinstance(x, dict) and "k" in x:
                    if x["k"].get("fn"): out.add(("fn", last(x["k"]["fn"])))
                    continue
                l = s.loc(x)
                if not l: continue
                q = s.place(x)
                for pl in (l, q):
                    pl = [y for y in pl if y != "*"]
                    out.add(("place", pl[0], tuple(y for y in pl[1:] if isinstance(y, str) and y.startswith("."))))
                    if pl[0] in done: continue
                    done.add(pl[0])
                    for v, i in s.into.get(pl[0], []):
                        if v[0] == "rv":
                            r = v[1]
                            for y in ([r["o"]] if "o" in r else []) + r.get("os", []) + ([r["a"], r["b"]] if r["r"] == "bin" else []): w.append(("op", y))
                            if "p" in r: w.append(("op", {"c": r["p"]}))
                            if r.get("clo"):
                                out.add(("clo", r["clo"]))
                                out |= inside(s.F, s.N, r["clo"])
                        else:
                            t = v[1]; out.add(("fn", last(t["f"].get("fn", ""))))
                            if last(t["f"].get("fn", "")) in cut: continue
                            if v[0] == "call" or True:
                                for n, y in enumerate(t["a"]):
                                    if not (v[0] == "args" and n == v[2]): w.append(("op", y))
                                f = t["f"].get("rs") or t["f"].get("fn")
                                if f in s.N.bodies and len(s.N.bodies[f].blocks) < 400 and "{" not in f and last(f) not in CUT:
                                    for y in t["a"]:           # a helper that is given a snippet or its prerequisites
                                        if not s.loc(y) or not re.search("CcPrerequisites|CcSnippet|ApiSnippets", s.b.ty(s.loc(y)[0]) or ""): continue
                                        q = tuple(z for z in s.place(y)[1:] if isinstance(z, str) and z.startswith("."))
                                        ins = inside(s.F, s.N, f)
                                        out |= {z for z in ins if z[0] == "fn"} | {("place", -1 if z[1] < 0 and not q else s.place(y)[0], q + z[2]) for z in ins if z[0] == "place"}
        return out
def inside(F, N, p, d=0, memo={}):
    "what a callee or a closure reads and calls"
    if (id(F), p) in memo: return memo[id(F), p]
    out = set(); memo[id(F), p] = out
    if p not in N.bodies or d > 3: return out
    b = N.bodies[p]
    def places(x):
        if isinstance(x, list) and x and isinstance(x[0], int):
            f = tuple(y for y in x[1:] if isinstance(y, str) and y.startswith("."))
            if f: out.add(("place", -1, f))
        elif isinstance(x, list):
            for y in x: places(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k == "clo" and y in N.bodies: out.update(inside(F, N, y, d + 1)); out.add(("clo", y))
                else: places(y)
    for i in N.g[p].live:
        k = b.blocks[i]
        for pl, r, ln in k["s"]: places(pl); places(r)
        t = k["t"]
        if t["t"] == "call":
            out.add(("fn", last(t["f"].get("fn", "")))); places(t["a"])
            f = t["f"].get("rs") or t["f"].get("fn")
            if f in N.bodies and d < 2 and len(N.bodies[f].blocks) < 150 and last(f) not in CUT: out.update(inside(F, N, f, d + 1))
    return out
def reads(sl, *fs):
    "the slice reads a place whose last field is one of fs"
    return all(any(x[0] == "place" and ("." + f) in x[2] for x in sl) for f in fs)
def calls(sl, *fs): return any(x[0] == "fn" and x[1] in fs for x in sl)
def always(g, blocks, start=0, stop=None):
    "every path from start to the function's end (or to stop) goes through one of the blocks"
    seen, w = set(), [start]
    while w:
        i = w.pop()
        if i in seen or i in blocks: continue
        seen.add(i)
        if g.b.blocks[i]["t"]["t"] == "ret" and stop is None: return False
        for s in g.succ[i]:
            if stop is not None and s == stop: return False
            w.append(s)
    return True

class Env:
    def __init__(e, ctx):
        e.ctx = ctx; e.F = ctx.facts()
        e.N = names.Names(e.F, ("cc_bindings_from_rs_generate", "cc_bindings_from_rs_database"), {}, lambda f, s: None)
    def body(e, pat, whole=False):
        ps = [p for p in e.N.bodies if re.search(pat, p)]
        if len(ps) != 1: raise Broken(f"{pat}: {len(ps)} functions")
        return Body(e.F, e.N, ps[0], whole)
def grows(B, into, frm, d=0):
    """blocks at which a place whose fields end in `into` (of local root `into[0]`) grows by something that depends on `frm`"""
    out = set()
    for i in sorted(B.g.live):
        t = B.b.blocks[i]["t"]
        if t["t"] == "call" and last(t["f"].get("fn", "")) in GROW and len(t["a"]) > 1:
            q = B.place(t["a"][0])
            if q and into(q) and any(frm(B.slice(a)) for a in t["a"][1:]): out.add(i)
        elif t["t"] == "call" and len(t["a"]) > 1 and (t["f"].get("rs") or t["f"].get("fn")) in B.N.bodies:      # a helper that is given both
            for n, a in enumerate(t["a"]):
                q = B.place(a)
                if q and B.mutref(a) and into(q) and any(frm(B.slice(x)) for m, x in enumerate(t["a"]) if m != n): out.add(i)
                elif q and B.mutref(a) and hasattr(into, "root") and q == [into.root] and d < 2:             # a helper that is given the whole
                    H = Body(B.F, B.N, t["f"].get("rs") or t["f"].get("fn"))
                    for m, x in enumerate(t["a"]):
                        if m == n: continue
                        if B.place(x) == [getattr(frm, "root", None)]: f2 = src(m + 1, frm.field)
                        elif frm(B.slice(x)): f2 = lambda sl, m=m: any(y[0] == "place" and y[1] == m + 1 for y in sl)
                        else: continue
                        if always(H.g, grows(H, at(n + 1, into.field), f2, d + 1)): out.add(i)
        for pl, r, ln in B.b.blocks[i]["s"]:
            q = [x for x in pl if x != "*"]
            if len(q) > 1 and r["r"] not in ("live", "dead", "ref") and into(q):
                o = r.get("o") or (r.get("os") or [None])[0]
                if o and frm(B.slice(o)): out.add(i)
    # a loop that inserts one by one counts at the point where the iteration starts
    for i in list(out):
        t = B.b.blocks[i]["t"]
        if t["t"] == "call" and last(t["f"].get("fn", "")) in ("insert", "push"):
            for j in sorted(B.g.live):
                u = B.b.blocks[j]["t"]
                if u["t"] == "call" and last(u["f"].get("fn", "")) in ("into_iter", "drain", "iter") and frm(B.slice(u["a"][0])): out.add(j)
    return out
def at(root, f):
    t = lambda q: q[0] == root and ("." + f) in q[1:]
    t.root, t.field = root, f
    return t
def src(root, f):
    t = lambda sl: any(x[0] == "place" and x[1] == root and ("." + f) in x[2] for x in sl)
    t.root, t.field = root, f
    return t

def merging(e):
    ctx = e.ctx; F = e.F
    adt = [a for n, a in F.adts.items() if n.endswith("::CcPrerequisites")]
    have = sorted({f for a in adt for v in (a.get("variants") or [a]) for f in [x[0] if isinstance(x, list) else x.get("n") or x.get("name") for x in (v.get("fields") or v.get("fs") or [])]}) if adt else []
    fields = [f for f in have if f] or list(FIELDS)
    if not set(FIELDS) <= set(fields): raise Broken(f"fields of CcPrerequisites: {fields}")
    B = e.body(r"<code_snippet::CcPrerequisites<.*> as std::ops::AddAssign>::add_assign$")
    for f in fields:
        ctx.obligation(f"merging keeps {f}")
        if not always(B.g, grows(B, at(1, f), src(2, f))): ctx.violate("merge:" + f, B.p, f"`{f}` of the right-hand side is not merged into `{f}` on every path")
    B = e.body(r"code_snippet::CcSnippet::<[^:]*>::into_tokens$")
    ctx.obligation("taking a snippet's tokens hands its prerequisites over")
    if not always(B.g, {i for i in B.g.live if (t := B.b.blocks[i]["t"])["t"] == "call" and last(t["f"].get("fn", "")) in GROW and (B.place(t["a"][0]) or [0])[0] == 2 and any(src(1, "prereqs")(B.slice(a)) for a in t["a"][1:])}): ctx.violate("into_tokens", B.p, "the snippet's prerequisites are not added to the accumulator on every path")
    B = e.body(r"code_snippet::CcSnippet::<[^:]*>::with_include$")
    ctx.obligation("with_include records the include")
    inc = {i for i in B.g.live if (t := B.b.blocks[i]["t"])["t"] == "call" and last(t["f"].get("fn", "")) in GROW + ("from", "from_iter", "once") and any(("place", 2, ()) in B.slice(a) for a in t["a"])}
    if not always(B.g, inc) or not (("place", 2, ()) in B.slice([0])): ctx.violate("with_include", B.p, "the include is not recorded on every path")
    B = e.body(r"<code_snippet::CcSnippet<.*> as std::ops::AddAssign>::add_assign$")
    ctx.obligation("appending a snippet keeps its prerequisites")
    ok = {i for i in B.g.live if (t := B.b.blocks[i]["t"])["t"] == "call" and (last(t["f"].get("fn", "")) == "into_tokens" and (B.place(t["a"][0]) or [0])[0] == 2 and at(1, "prereqs")(B.place(t["a"][1]) or [0]) or last(t["f"].get("fn", "")) == "add_assign" and at(1, "prereqs")(B.place(t["a"][0]) or [0]) and src(2, "prereqs")(B.slice(t["a"][1])))}
    if not always(B.g, ok): ctx.violate("append", B.p, "the appended snippet's prerequisites are lost on some path")
    B = e.body(r"<code_snippet::ApiSnippets<.*> as std::iter::FromIterator<.*>>::from_iter$")
    nx = [i for i in B.g.live if B.b.blocks[i]["t"]["t"] == "call" and last(B.b.blocks[i]["t"]["f"].get("fn", "")) in ("next", "fold", "for_each", "reduce")]
    for f in ("main_api", "cc_details", "rs_details"):
        ctx.obligation(f"collecting snippets keeps {f}")
        g = {i for i in B.g.live if (t := B.b.blocks[i]["t"])["t"] == "call" and last(t["f"].get("fn", "")) == "add_assign" and ("." + f) in (B.place(t["a"][0]) or []) and any(("." + f) in x[2] for x in B.slice(t["a"][1]) if x[0] == "place")}
        if len(nx) == 1 and B.b.blocks[nx[0]]["t"]["f"].get("fn", "").endswith("next"):
            some = succeeded_some(B, nx[0])
            if not g or some is None or not always(B.g, g, some, nx[0]): ctx.violate("collect:" + f, B.p, f"`{f}` of a collected snippet is not kept")
        elif not (reads(set().union(*[inside(B.F, B.N, x[1]) for x in B.slice([0]) if x[0] == "clo"] or [set()]), f)): ctx.violate("collect:" + f, B.p, f"`{f}` of a collected snippet is not kept")
    B = e.body(r"code_snippet::CcPrerequisites::<[^:]*>::move_defs_to_fwd_decls$")
    for a, b in (("defs", "fwd_decls"), ("template_specializations", "lazy_template_specializations")):
        ctx.obligation(f"weakening turns {a} into {b}")
        if not always(B.g, grows(B, at(1, b), src(1, a))): ctx.violate("weaken:" + a, B.p, f"`{a}` is given up without being moved to `{b}`")
    for nm in ("move_only_defs_to_fwd_decls", "forward_declare_type"):
        B = e.body(r"code_snippet::CcPrerequisites::<[^:]*>::%s$" % nm)
        ctx.obligation(f"{nm} turns defs into fwd_decls")
        if not always(B.g, grows(B, at(1, "fwd_decls"), src(1, "defs"))): ctx.violate(f"{nm}", B.p, "definitions are given up without becoming forward declarations")
    B = e.body(r"code_snippet::ApiSnippets::<[^:]*>::prepend_main_api$")
    ctx.obligation("prepending keeps the preamble's prerequisites")
    ok = {i for i in B.g.live if (t := B.b.blocks[i]["t"])["t"] == "call" and last(t["f"].get("fn", "")) in ("into_tokens", "add_assign") and any(("place", 2, ()) in B.slice(a) or src(2, "prereqs")(B.slice(a)) for a in t["a"]) and any("main_api" in str(B.place(a)) for a in t["a"])}
    if not always(B.g, ok): ctx.violate("prepend", B.p, "the preamble's prerequisites are lost on some path")

def succeeded_some(B, i):
    "the block entered when the call that ends block i returned Some"
    d = B.b.blocks[i]["t"]["d"][0]
    for j in sorted(B.g.live):
        t = B.b.blocks[j]["t"]
        if t["t"] != "sw": continue
        o = B.g.origin(t["o"])
        if o and o[0] == "r" and o[1]["r"] == "disc" and o[1]["p"][0] == d:
            for v, dst in t["vs"]:
                if o[1]["vs"].get(str(v)) == "Some": return dst
            return t["ot"]

def dropped(e):
    "tokens taken out of a snippet whose prerequisites are then dropped, on a path that does not fail"
    ctx = e.ctx; n = 0
    for p, g in sorted(e.N.g.items()):
        b = g.b; bad = e.N.errs(g)
        if not re.search(r"CcSnippet|ApiSnippets|CcPrerequisites|AdtCoreBindings", " ".join([b.ty(0) or ""] + [b.ty(i) or "" for i in range(1, b.argc + 1)])): continue     # text without prerequisites, such as a forward declaration
        takes = {}
        for i in sorted(g.live):
            for pl, r, ln in b.blocks[i]["s"]:
                for o in ([r["o"]] if "o" in r else []) + r.get("os", []):
                    m = o.get("m") if isinstance(o, dict) else None
                    if m and m[-1] == ".tokens" and len(m) > 1: takes.setdefault(tuple(m[:-1]), i)
            t = b.blocks[i]["t"]
            for a in t.get("a", []) if t["t"] == "call" else []:
                m = a.get("m")
                if m and m[-1] == ".tokens" and len(m) > 1: takes.setdefault(tuple(m[:-1]), i)
        n += len(takes)
        for base in takes: ctx.obligation(f"{p}: the prerequisites of a snippet whose tokens are taken")
        for i in sorted(g.live):
            t = b.blocks[i]["t"]
            if t["t"] != "drop" or t["p"][-1] != ".prereqs" or tuple(t["p"][:-1]) not in takes: continue
            def reach(edges, start, goal):
                seen, w = set(), [start]
                while w:
                    x = w.pop()
                    if x in seen or x in bad: continue
                    seen.add(x)
                    if goal(x): return True
                    w += edges[x]
                return False
            if not (reach(g.succ, i, lambda x: b.blocks[x]["t"]["t"] == "ret") and reach(g.pred, i, lambda x: x == 0)): continue
            if twin(e, g, tuple(t["p"][:-1])): continue
            ctx.violate(f"dropped:{last(p)}", f"{p} (line {t['ln']})", "the tokens of a snippet are used, but its prerequisites (includes, definitions, specializations) are dropped")
    floor(ctx, "snippets taken apart", n, 8)
def twin(e, g, base):
    "the same formatting query was made with the same arguments in this function, so its prerequisites are recorded there"
    def query(o):
        for _ in range(10):
            if not o or o[0] != "call": return None
            if last(o[1]["f"].get("fn", "")) in ("branch", "unwrap", "expect", "map_err", "with_context"): o = g.origin(o[1]["a"][0]); continue
            return o
    def sig(t): return (t["f"].get("fn"), tuple(str(key(g.origin(a))) for a in t["a"]))
    def key(o):
        if not o: return None
        if o[0] == "k": return o[1]
        if o[0] == "p": return o[1]
        if o[0] == "call": return ("call", o[2])
        r = o[1]
        return (r["r"], r.get("adt"), r.get("var"), tuple(str(key(g.origin(x))) for x in r.get("os", [])))
    o = ("p", list(base)); d = base[0]
    for _ in range(6):
        ds = g.defs.get(d, [])
        if len(ds) != 1: return False
        k, v, i = ds[0]
        if k == "c":
            if last(v["f"].get("fn", "")) in ("branch", "unwrap", "expect"):
                l = v["a"][0].get("m") or v["a"][0].get("c")
                if not l: return False
                d = l[0]; continue
            others = [j for j in g.live if j != i and g.b.blocks[j]["t"]["t"] == "call" and g.b.blocks[j]["t"]["f"].get("fn") == v["f"].get("fn") and sig(g.b.blocks[j]["t"]) == sig(v)]
            return bool(others)
        if v["r"] in ("use",):
            l = v["o"].get("m") or v["o"].get("c")
            if not l: return False
            d = l[0]; continue
        return False
    return False

def assembly(e):
    ctx = e.ctx
    B = e.body(r"generate_bindings::generate_crate$", True); g = B.g
    def one(fn):
        bs = [i for i in sorted(g.live) if B.b.blocks[i]["t"]["t"] == "call" and last(B.b.blocks[i]["t"]["f"].get("fn", "")) == fn]
        if len(bs) != 1: raise Broken(f"generate_crate: {len(bs)} calls of {fn}")
        return bs[0], B.b.blocks[bs[0]]["t"]
    # the loop over the ordered items: the one in which an item is taken out of both maps
    _, inc = one("format_cc_includes")
    root = B.place(inc["a"][0])
    ti, top = one("toposort")
    loop = None
    for i in sorted(g.live):
        t = B.b.blocks[i]["t"]
        if t["t"] == "call" and last(t["f"].get("fn", "")) == "next" and top["d"][0] in receivers(B, t["a"][0]): loop = i if loop is None else loop
    if loop is None: raise Broken("generate_crate: the loop over the ordered items was not found")
    some = succeeded_some(B, loop)
    def each(key, into, frm, what):
        ctx.obligation(what)
        bs = grows(B, into, frm)
        bs = {i for i in bs if g_after(B, some, i)}
        if not bs or not always(g, bs, some, loop): ctx.violate(key, B.p, f"{what}: not in every iteration")
        return bs
    inroot = same(B, root)
    each("includes", inroot, lambda sl: any(x[0] == "place" and ".includes" in x[2] and ".prereqs" in x[2] for x in sl), "the includes of every ordered item are emitted")
    ctx.obligation("the includes of the implementation details are emitted")
    own = lambda sl: any(x[0] == "place" and x[1] >= 0 and x[2][-1:] == (".includes",) and re.match("(&(mut )?)?[a-z_:]*CcPrerequisites", B.b.ty(x[1]) or "") for x in sl)
    if not own(B.slice(inc["a"][0])): ctx.violate("details-includes", B.p, "the includes of the implementation details are not emitted")
    # forward declarations
    fw = [i for i in sorted(g.live) if B.b.blocks[i]["t"]["t"] == "call" and last(B.b.blocks[i]["t"]["f"].get("fn", "")) in GROW and any(x[0] == "place" and ".fwd_decls" in x[2] for a in B.b.blocks[i]["t"]["a"][1:] for x in B.slice(a))]
    gen = [r["clo"] for i in g.live for pl, r, ln in B.b.blocks[i]["s"] if r.get("clo") and ("fn", "generate_fwd_decl") in inside(B.F, B.N, r["clo"])]
    if not gen: raise Broken("generate_crate: no forward declarations are generated")
    ci = next(i for i in g.live for pl, r, ln in B.b.blocks[i]["s"] if r.get("clo") == gen[0])
    cl = next(pl[0] for pl, r, ln in B.b.blocks[ci]["s"] if r.get("clo") == gen[0])
    src_local = None
    for i in g.live:
        t = B.b.blocks[i]["t"]
        if t["t"] == "call" and any((B.loc(a) or [None])[0] == cl for a in t["a"]): src_local = receivers(B, t["a"][0])
    sets = [B.place(B.b.blocks[i]["t"]["a"][0])[0] for i in fw]
    emitted = set(sets) & (src_local or set())
    ctx.obligation("the forward declarations of every ordered item are generated unless already declared")
    main = {i for i in fw if B.place(B.b.blocks[i]["t"]["a"][0])[0] in emitted}
    for i in list(main):                        # inserted one by one: the loop over them counts
        if last(B.b.blocks[i]["t"]["f"].get("fn", "")) in ("insert", "push"):
            main |= {j for j in g.live if g_after(B, some, j) and (t := B.b.blocks[j]["t"])["t"] == "call" and last(t["f"].get("fn", "")) in ("into_iter", "drain", "iter") and any(x[0] == "place" and ".fwd_decls" in x[2] for x in B.slice(t["a"][0]))}
    if not main or not always(g, main, some, loop): ctx.violate("fwd-decls", B.p, "an item's forward declarations are not generated in every iteration")
    known = {l for i in main for a in B.b.blocks[i]["t"]["a"][1:] for x in B.slice(a) if x[0] == "place" and x[1] not in emitted for l in [x[1]] if i in fw and re.match(r"(&(mut )?)?std::collections::(HashSet|BTreeSet)<.*DefId", B.b.ty(x[1]) or "") and l in {(B.place(B.b.blocks[j]["t"]["a"][0]) or [0])[0] for j in g.live if B.b.blocks[j]["t"]["t"] == "call" and last(B.b.blocks[j]["t"]["f"].get("fn", "")) in GROW and B.b.blocks[j]["t"]["a"]}}
    mut = {j for j in g.live if B.b.blocks[j]["t"]["t"] == "call" and last(B.b.blocks[j]["t"]["f"].get("fn", "")) in GROW and B.b.blocks[j]["t"]["a"] and (B.place(B.b.blocks[j]["t"]["a"][0]) or [0])[0] in known}
    ctx.obligation("an item's forward declarations are compared with what was declared before it")
    for j in mut:
        for m in main & set(fw):
            if between(g, some, j, m, loop): ctx.violate("fwd-order", B.p, "what an item itself declares counts as already declared before its own forward declarations are collected"); break
    # ordering
    d = B.slice(top["a"][1], cut=("generate_specializations_fixpoint",))
    for f, what in (("defs", "a definition an item needs"), ("template_specializations", "a specialization an item needs")):
        ctx.obligation(f"{what} is ordered before it")
        if not any(x[0] == "place" and x[2][-1:] == ("." + f,) for x in d): ctx.violate("edges:" + f, B.p, f"{what} is not among the ordering constraints")
    ctx.obligation("only definitions that are not generated, and the item itself, are left out of the ordering")
    for x in sorted({x[1] for x in d if x[0] == "clo" and any(x[1].startswith(q + "::{") for q in B.parts)}):
        if last_filter(e, x): ctx.violate("edges:filter", x, "ordering constraints are left out by a test other than whether the predecessor is generated here or is the item itself")
    ctx.obligation("no ordering constraint is skipped by position")
    for x in sorted({x[1] for x in d if x[0] == "clo" and any(x[1].startswith(q + "::{") for q in B.parts)}):
        if x in e.N.bodies and any(re.search(r"Iterator::(take|skip|step_by|take_while|skip_while|map_while|nth|last|max\w*|min\w*|find\w*)$|Option::<.*>::(take|filter)$", re.sub(r"::<[^:]*>$", "", t["f"].get("fn", ""))) for i in e.N.g[x].live for t in [e.N.bodies[x].blocks[i]["t"]] if t["t"] == "call"): ctx.violate("edges:skipped", x, "only some of the predecessors become ordering constraints")
    wi, wl = one("generate_specializations_fixpoint")
    w = B.slice(wl["a"][1])
    for f in ("template_specializations", "lazy_template_specializations"):
        ctx.obligation(f"{f} recorded by items and by implementation details are generated")
        if not any(x[0] == "place" and x[1] == -1 and ("." + f) in x[2] for x in w): ctx.violate("worklist:" + f, B.p, f"`{f}` recorded by items are not generated")
        if not any(x[0] == "place" and x[1] >= 0 and ("." + f) in x[2] for x in w): ctx.violate("worklist-details:" + f, B.p, f"`{f}` recorded by implementation details are not generated")
    B2 = e.body(r"generate_bindings::generate_specializations_fixpoint$", True); g2 = B2.g
    call = [i for i in sorted(g2.live) if B2.b.blocks[i]["t"]["t"] == "call" and last(B2.b.blocks[i]["t"]["f"].get("fn", "")) == "generate_template_specialization"]
    if len(call) != 1: raise Broken("generate_specializations_fixpoint: no single generation")
    push = [i for i in sorted(g2.live) if B2.b.blocks[i]["t"]["t"] == "call" and last(B2.b.blocks[i]["t"]["f"].get("fn", "")) in GROW and "Vec" in B2.b.blocks[i]["t"]["f"].get("fn", "") + str(B2.b.blocks[i]["t"]["f"].get("rs")) and "TemplateSpecialization" in (B2.b.ty((B2.place(B2.b.blocks[i]["t"]["a"][0]) or [0])[0]) or "")]
    sl = set().union(*[B2.slice(a) for i in push for a in B2.b.blocks[i]["t"]["a"][1:]] or [set()])
    for i in g2.live:                              # a helper that is given the list and the prerequisites
        t = B2.b.blocks[i]["t"]; f = t.get("f", {}).get("rs") or t.get("f", {}).get("fn") if t["t"] == "call" else None
        if f in e.N.bodies and last(f) not in CUT and any(B2.mutref(a) and re.search("Vec<.*TemplateSpecialization", B2.b.ty(B2.loc(a)[0]) or "") for a in t["a"]):
            for a in t["a"]:
                q = B2.place(a)
                if q and "Cc" in (B2.b.ty(B2.loc(a)[0]) or ""): sl |= {("place", q[0], tuple(y for y in q[1:] if isinstance(y, str) and y.startswith(".")) + z[2]) for z in inside(B2.F, B2.N, f) if z[0] == "place"}
    for f in ("template_specializations", "lazy_template_specializations"):
        for where, tst in (("its declaration", lambda x: ".main_api" in x[2]), ("its implementation details", lambda x: ".main_api" not in x[2])):
            ctx.obligation(f"{f} that {where} of a specialization records are generated")
            if not any(x[0] == "place" and ("." + f) in x[2] and tst(x) for x in sl): ctx.violate(f"fixpoint:{f}:{where.split()[-1]}", B2.p, f"`{f}` recorded by {where} of a specialization are not generated")
    # order of the three groups
    ctx.obligation("forward declarations precede items, items precede implementation details")
    if fields_order(B) is False: ctx.violate("groups", B.p, "forward declarations, items and implementation details are emitted in another order")
    # the computed order is the order of emission
    ctx.obligation("the text of every ordered item is emitted, in the computed order")
    bad = DISORDER & called_on(B, B.b.blocks[loop]["t"]["a"][0])
    toks = set()
    for i in g.live:
        t = B.b.blocks[i]["t"]
        if t["t"] == "call" and g_after(B, some, i) and last(t["f"].get("fn", "")) in ("push", "push_back", "extend", "insert") and any(x[0] == "place" and x[2][-1:] == (".tokens",) for a in t["a"][1:] for x in B.slice(a, cut=("next",))):
            toks.add(i)
    toks = {i for i in toks if re.search(r"Vec<\(|Vec<.*TokenStream|TokenStream$", B.b.ty((B.place(B.b.blocks[i]["t"]["a"][0]) or [0])[0]) or "")}
    if not toks or not always(g, toks, some, loop): ctx.violate("tokens", B.p, "the text of an ordered item is not emitted in every iteration")
    for i in toks: bad |= (DISORDER | {"insert"}) & called_on(B, B.b.blocks[i]["t"]["a"][0], up=False)
    ch = [i for i in sorted(g.live) if (t := B.b.blocks[i]["t"])["t"] == "call" and last(t["f"].get("fn", "")) == "chain" and ({(B.place(B.b.blocks[j]["t"]["a"][0]) or [0])[0] for j in toks} & {x[1] for a in t["a"] for x in B.slice(a) if x[0] == "place"})]
    for i in ch: bad |= DISORDER & downstream(B, B.b.blocks[i]["t"]["d"][0])
    if bad: ctx.violate("reordered", B.p, f"the computed order is changed before the text is emitted ({', '.join(sorted(bad))})")
DISORDER = {"rev", "reverse", "sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sorted", "sorted_by", "sorted_by_key", "sorted_by_def", "sorted_by_def_with", "swap", "rotate_left", "rotate_right", "swap_remove", "dedup"}
def called_on(B, o, up=True):
    "functions called on the value (by value or through a reference), and on what it was made from"
    ls = receivers(B, o) if up else {(B.place(o) or [None])[0]}
    return {last(t["f"].get("fn", "")) for i in B.g.live for t in [B.b.blocks[i]["t"]] if t["t"] == "call" and t["a"] and (B.place(t["a"][0]) or [None])[0] in ls}
def downstream(B, l):
    "functions called on the value and on what they return"
    out, ls, ch = set(), {l}, True
    while ch:
        ch = False
        for i in B.g.live:
            for pl, r, ln in B.b.blocks[i]["s"]:
                if r["r"] == "use" and len(B.loc(r["o"]) or []) == 1 and B.loc(r["o"])[0] in ls and pl[0] not in ls: ls.add(pl[0]); ch = True
            t = B.b.blocks[i]["t"]
            if t["t"] == "call" and t["a"] and (B.place(t["a"][0]) or [None])[0] in ls:
                f = last(t["f"].get("fn", "")); out.add(f)
                if t.get("d") and t["d"][0] not in ls and f != "next": ls.add(t["d"][0]); ch = True
    return out
def same(B, root):
    """the locals a value passes through before it is root: moves, and fields of tuples built in this body"""
    rs = set(); w = [[x for x in root if x != "*"]]
    while w:
        l = w.pop()
        if (l[0], tuple(l[1:])) in rs: continue
        rs.add((l[0], tuple(l[1:])))
        for i in B.g.live:
            for pl, r, ln in B.b.blocks[i]["s"]:
                if pl != [l[0]]: continue
                if r["r"] == "use" and B.loc(r["o"]): w.append([x for x in B.loc(r["o"]) if x != "*"] + l[1:])
                elif r["r"] == "agg" and len(l) > 1 and re.fullmatch(r"\.\d+", str(l[1])) and int(l[1][1:]) < len(r.get("os", [])) and B.loc(r["os"][int(l[1][1:])]): w.append([x for x in B.loc(r["os"][int(l[1][1:])]) if x != "*"] + l[2:])
    whole = {l for l, f in rs if not f}
    return lambda q: q[0] in whole or (q[0], tuple(q[1:])) in rs
def receivers(B, o):
    "locals a value is made from by moves and by calls on it (first arguments)"
    out, seen, w = set(), set(), [o]
    while w:
        q = B.place(w.pop())
        if not q or tuple(q) in seen: continue
        out.add(q[0]); seen.add(tuple(q))
        for k, v, i in B.g.defs.get(q[0], []):
            if k == "c": w += v["a"][:1]
            elif v["r"] in ("use", "cast"):
                l = B.loc(v["o"])
                if l: w.append({"c": l + q[1:]} if len(q) > 1 else v["o"])
            elif v["r"] == "agg" and v.get("tup"):
                n = int(q[1][1:]) if len(q) > 1 and re.fullmatch(r"\.\d+", str(q[1])) else None
                w += v["os"] if n is None else v["os"][n:n + 1]
    return out
def g_after(B, i, j):
    seen, w = set(), [i]
    while w:
        x = w.pop()
        if x == j: return True
        if x in seen: continue
        seen.add(x); w += B.g.succ[x]
    return False
def between(g, start, j, m, stop):
    "a path start -> j -> m that does not pass stop"
    def reach(a, b):
        seen, w = set(), [a]
        while w:
            x = w.pop()
            if x == b: return True
            if x in seen or x == stop: continue
            seen.add(x); w += g.succ[x]
        return False
    return j != m and reach(start, j) and any(reach(s, m) for s in g.succ[j] if s != stop)
def last_filter(e, clo):
    """a filtering closure of the ordering constraints decides on something other than membership in the generated items or equality"""
    b = e.N.bodies.get(clo)
    if not b or b.ty(0) != "bool": return False
    fs = [last(t["f"].get("fn", "")) for i in e.N.g[clo].live for t in [b.blocks[i]["t"]] if t["t"] == "call"]
    return any(f not in ("contains_key", "contains", "ne", "eq", "not", "deref", "borrow") for f in fs) or not fs
def fields_order(B):
    "position of the three groups in the chain that makes up the header's body; None if it is not written as chains"
    ch = []
    for i in sorted(B.g.live):
        t = B.b.blocks[i]["t"]
        if t["t"] == "call" and last(t["f"].get("fn", "")) == "chain" and len(t["a"]) == 2:
            a, b = B.slice(t["a"][0]), B.slice(t["a"][1])
            fa = any(x[0] == "clo" and ("fn", "generate_fwd_decl") in inside(B.F, B.N, x[1]) for x in a)
            fb = any(x[0] == "clo" and ("fn", "generate_fwd_decl") in inside(B.F, B.N, x[1]) for x in b)
            if fb and not fa: return False
            if fa: ch.append(i)
    return True if ch else None

def run(ctx):
    e = Env(ctx)
    merging(e); dropped(e); assembly(e)
