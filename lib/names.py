"""Which C++ names a generator function writes, and which headers it certainly records: a must-analysis over every
function's control-flow graph with per-function summaries.  A path that ends in an error or a panic produces no text."""
import re
from collections import defaultdict

TOP = None                                          # "every header" (a path on which no text is produced)
def meet(a, b): return b if a is TOP else a if b is TOP else a & b
def join(a, b): return TOP if a is TOP or b is TOP else a | b
ROOTS = ("std", "crubit", "rs_std")

class Graph:
    """one body: predecessor and successor edges (unwinding excluded), constants, copies"""
    def __init__(g, F, b):
        g.F, g.b = F, b
        n = len(b.blocks)
        g.succ = [[] for _ in range(n)]
        g.live = {0}; w = [0]
        while w:
            i = w.pop(); g.succ[i] = list(dict.fromkeys(b.succs(i)))
            for s in g.succ[i]:
                if s not in g.live: g.live.add(s); w.append(s)
        g.pred = [[] for _ in range(n)]
        for i in g.live:
            for s in g.succ[i]: g.pred[s].append(i)
        g.defs = defaultdict(list)
        for i in sorted(g.live):
            for p, r, ln in b.blocks[i]["s"]:
                if len(p) == 1 and r["r"] not in ("live", "dead"): g.defs[p[0]].append(("s", r, i))
            t = b.blocks[i]["t"]
            if t["t"] == "call" and t.get("d") and len(t["d"]) == 1: g.defs[t["d"][0]].append(("c", t, i))
    def origin(g, o, d=0):
        """the constant, call or rvalue an operand was copied, moved or reborrowed from"""
        if d > 24: return None
        if isinstance(o, dict) and "k" in o: return ("k", o["k"])
        p = (o.get("m") or o.get("c")) if isinstance(o, dict) else o
        if not p or any(x != "*" for x in p[1:]): return ("p", p)
        ds = g.defs.get(p[0], [])
        if len(ds) != 1: return ("p", p)
        k, v, i = ds[0]
        if k == "c": return ("call", v, i)
        if v["r"] in ("use", "cast") and "o" in v: return g.origin(v["o"], d + 1)
        if v["r"] in ("ref", "cpref"): return g.origin(v["p"], d + 1)
        return ("r", v, i)
    def includy(g, o):
        """the operand may hold a header's description"""
        p = o.get("m") or o.get("c")
        return bool(p) and ("CcInclude" in (g.b.ty(p[0]) or "") or "CcPrerequisites" in (g.b.ty(p[0]) or ""))
    def string(g, o):
        r = g.origin(o)
        for _ in range(6):
            if r and r[0] == "k": return r[1].get("s")
            if r and r[0] == "call" and r[1]["a"] and last(r[1]["f"].get("fn", "")) in ("into", "from", "to_string", "to_owned", "clone", "as_str", "as_ref", "deref"):
                r = g.origin(r[1]["a"][0])
            else: return None

PASS = ("into_iter", "iter", "collect", "chain", "from", "into", "once", "clone", "cloned", "copied", "from_iter", "default", "deref", "deref_mut", "borrow", "as_ref", "as_mut")
def last(p): return re.sub(r"(::<.*>)$", "", p).rsplit("::", 1)[-1]
def callee(t):
    f = t["f"]
    return f.get("rs") or f.get("fn") or ""

class Names:
    def __init__(N, F, crates, known, headers):
        """known: {name: set of headers}; headers(fn, const string | None) -> set of header names a call of `fn` denotes, or None"""
        N.F, N.known, N.headers = F, known, headers
        N.bodies = {p: b for p, b in F.bodies.items() if any(p.startswith(c) for c in crates) and "_test" not in b.file and "test_helpers" not in b.file}
        N.g = {p: Graph(F, b) for p, b in N.bodies.items()}
        N.parent = {}
        N.made = defaultdict(list)                   # closure body -> [(parent, block)]
        for p, g in N.g.items():
            for i in g.live:
                for pl, r, ln in g.b.blocks[i]["s"]:
                    if r["r"] == "agg" and r.get("clo") in N.bodies: N.made[r["clo"]].append((p, i))
        N.gen = {}; N._must = {}; N._busy = set()
    # --- emissions
    def emissions(N, p):
        g = N.g[p]; b = g.b; out = []
        starts = []
        for i in sorted(g.live):
            t = b.blocks[i]["t"]
            if t["t"] != "call" or last(t["f"].get("fn", "")) != "push_ident": continue
            s = g.string(t["a"][1])
            if s is None: continue
            pre = [j for j in g.pred[i]]
            joined = False
            if len(pre) == 1:
                q = b.blocks[pre[0]]["t"]
                joined = q["t"] == "call" and last(q["f"].get("fn", "")) == "push_colon2" and N.follows(g, pre[0], "push_ident")
            if not joined or s in ROOTS: starts.append((i, s))       # `return ::std::x` reads like a path through `return`
        for i, s in starts:
            parts = [s]; j = i
            while True:
                n1 = g.succ[j]
                if len(n1) != 1 or N.pushed(g, n1[0]) != "push_colon2": break
                n2 = g.succ[n1[0]]
                if len(n2) != 1 or N.pushed(g, n2[0]) != "push_ident": break
                nm = g.string(b.blocks[n2[0]]["t"]["a"][1])
                if nm is None: break
                parts.append(nm); j = n2[0]
            full = "::".join(parts)
            hit = next((k for k in ("::".join(parts[:n]) for n in range(len(parts), 0, -1)) if k in N.known), None)
            out.append((i, b.blocks[i]["t"]["ln"], full, hit))
        return out
    def pushed(N, g, i):
        t = g.b.blocks[i]["t"]
        return last(t["f"].get("fn", "")) if t["t"] == "call" else None
    def follows(N, g, i, what):
        """block i (a `::`) is itself preceded by an identifier"""
        return len(g.pred[i]) == 1 and N.pushed(g, g.pred[i][0]) == what
    # --- recording
    def denotes(N, g, t):
        f = callee(t)
        s = None
        for a in t["a"]:
            s = s or g.string(a)
        return N.headers(f, s)
    def included(N, g, o, d=0):
        """headers whose descriptions make up the value: alone, in arrays, tuples and structures, and in iterators and collections of them"""
        if d > 6: return set()
        if isinstance(o, dict) and not g.includy(o): return set()
        o = g.origin(o)
        if not o: return set()
        if o[0] == "call":
            h = N.denotes(g, o[1])
            if h: return set(h)
            f = callee(o[1])
            if f in N.bodies and (N.bodies[f].ty(0) or "").endswith("CcInclude"):
                return N.included(N.g[f], {"c": [0]}, d + 1)
            if last(o[1]["f"].get("fn", "")) in PASS: return set().union(*[N.included(g, x, d + 1) for x in o[1]["a"]] or [set()])
            return set()
        if o[0] == "r" and o[1]["r"] == "agg":
            if "CcInclude" in str(o[1].get("adt")): return {f"<{x}>" for x in (g.string(y) for y in o[1]["os"]) if x}
            return set().union(*[N.included(g, x, d + 1) for x in o[1].get("os", [])] or [set()])
        return set()
    def generated(N, p):
        """block -> headers certainly recorded by it"""
        if p in N.gen: return N.gen[p]
        g = N.g[p]; out = {}
        N.gen[p] = out
        for i in g.live:
            t = g.b.blocks[i]["t"]
            if t["t"] != "call": continue
            f = callee(t); l = last(t["f"].get("fn", ""))
            hs = set()
            if l not in PASS or l == "into_iter":           # the header's description is handed over: to the set itself, a helper, a closure, a loop
                for a in t["a"]: hs |= N.included(g, a)
            for c in (t["f"].get("rs"), t["f"].get("fn")):
                if c in N.bodies:
                    hs |= N.must(c, True)
                    m = N.must(c) - hs
                    for j in N.succeeded(g, i, t) if m else (): out[j] = set(out.get(j, ())) | m
                    break
            if hs: out[i] = set(out.get(i, ())) | hs
        return out
    def succeeded(N, g, i, t):
        """blocks run only if the fallible call that ends block i succeeded and its success matters: the call's value is returned as it is, or the success edge of a test of it"""
        d = t.get("d") or []
        if d == [0]: return [i]
        if len(d) != 1: return []
        def isit(o):
            for _ in range(8):
                if not o or o[0] == "p" and not o[1]: return False
                if o[0] == "call":
                    if o[2] == i: return True
                    if o[1]["a"] and last(o[1]["f"].get("fn", "")) in ("branch", "as_ref", "as_mut", "with_context", "context", "map_err", "ok", "map", "inspect_err", "ok_or_else", "ok_or"): o = g.origin(o[1]["a"][0]); continue
                return False
        out = []
        for j in g.live:
            u = g.b.blocks[j]["t"]
            if u["t"] == "sw":
                o = g.origin(u["o"])
                if o and o[0] == "r" and o[1]["r"] == "disc" and isit(g.origin(o[1]["p"])):
                    for v, dst in u["vs"]:
                        if o[1]["vs"].get(str(v)) in ("Ok", "Some", "Continue") and len(g.pred[dst]) == 1: out.append(dst)
            elif u["t"] == "call" and u["a"] and last(u["f"].get("fn", "")) in ("unwrap", "expect") and isit(g.origin(u["a"][0])): out.append(j)
        return out
    def errs(N, g):
        """blocks from which the function certainly returns an error: those that store an error in the return place"""
        bad = set()
        for i in g.live:
            for pl, r, ln in g.b.blocks[i]["s"]:
                if pl == [0] and r["r"] == "agg" and r.get("var") == "Err": bad.add(i)
                if pl == [0] and r["r"] == "use":
                    o = g.origin(r["o"])
                    if o and o[0] == "r" and o[1]["r"] == "agg" and o[1].get("var") == "Err": bad.add(i)
            t = g.b.blocks[i]["t"]
            if t["t"] == "call" and t.get("d") == [0] and last(t["f"].get("fn", "")) in ("from_residual",): bad.add(i)
            if t["t"] == "call" and t.get("d") == [0] and not g.succ[i]: bad.add(i)
        return bad
    def flow(N, p, cut=frozenset(), failing=False):
        """(recorded certainly before block i's terminator ran, recorded certainly from it on); failing: also on the paths that end in an error"""
        g = N.g[p]; gen = N.generated(p); bad = () if failing else N.errs(g)
        before = {i: TOP for i in g.live}; before[0] = frozenset()
        order = sorted(g.live); ch = True
        while ch:
            ch = False
            for i in order:
                v = frozenset() if i == 0 else TOP
                for q in g.pred[i]:
                    if q in g.live and (q, i) not in cut: v = meet(v, join(before[q], frozenset(gen.get(q, ()))))
                if v != before[i]: before[i] = v; ch = True
        after = {i: TOP for i in g.live}; ch = True
        while ch:
            ch = False
            for i in reversed(order):
                if i in bad: v = TOP
                elif g.b.blocks[i]["t"]["t"] == "ret": v = frozenset()
                else:
                    v = TOP
                    for s in g.succ[i]:
                        if (i, s) not in cut: v = meet(v, after[s])
                    v = join(v, frozenset(gen.get(i, ())))
                if v != after[i]: after[i] = v; ch = True
        return before, after
    def must(N, p, failing=False):
        if (p, failing) in N._must: return N._must[p, failing]
        if (p, failing) in N._busy: return frozenset()
        N._busy.add((p, failing))
        before, after = N.flow(p, failing=failing)
        m = after.get(0)
        N._busy.discard((p, failing))
        N._must[p, failing] = m if m is not TOP else frozenset()
        return N._must[p, failing]
    # --- what a block's execution implies about the switches before it
    def reachable(N, g, cut):
        seen = {0}; w = [0]
        while w:
            i = w.pop()
            for s in g.succ[i]:
                if s not in seen and (i, s) not in cut: seen.add(s); w.append(s)
        return seen
    def guards(N, p, i):
        """[(operand origin, value)] of the switches one of whose edges every path to block i takes"""
        g = N.g[p]; out = []
        for s in sorted(g.live):
            t = g.b.blocks[s]["t"]
            if t["t"] != "sw" or s == i: continue
            tg = [(str(v), d) for v, d in t["vs"]] + [(None, t["ot"])]
            byd = defaultdict(list)
            for v, d in tg: byd[d].append(v)
            if len(byd) < 2: continue
            for d, vs in byd.items():
                if i not in N.reachable(g, {(s, d)}): out.append((s, t, vs, [str(v) for v, _ in t["vs"]]))
        return out
    def variants(N, p, i):
        """names of the enum variants the block is specific to"""
        g = N.g[p]; out = []
        for s, t, vs, allv in N.guards(p, i):
            o = g.origin(t["o"])
            if o and o[0] == "r" and o[1]["r"] == "disc":
                names = o[1]["vs"]
                got = {names.get(v) for v in vs if v is not None} if None not in vs else {n for v, n in names.items() if v not in allv}
                if len(got) == 1: out.append(got.pop())
        return tuple(out)
    def assume(N, p, i):
        """{boolean local: value} implied by reaching block i"""
        g = N.g[p]; out = {}
        for s, t, vs, allv in N.guards(p, i):
            o = g.origin(t["o"])
            if o and o[0] == "p" and len(o[1]) == 1 and g.b.ty(o[1][0]) == "bool" and len(vs) == 1:
                out[o[1][0]] = False if vs[0] == "0" else True
        return out
    def pruned(N, p, facts):
        """edges not taken when the given boolean locals have the given values"""
        g = N.g[p]; cut = set()
        for s in g.live:
            t = g.b.blocks[s]["t"]
            if t["t"] != "sw": continue
            o = g.origin(t["o"])
            if o and o[0] == "p" and len(o[1]) == 1 and o[1][0] in facts:
                for v, d in t["vs"]:
                    if (str(v) == "0") == facts[o[1][0]] and d != t["ot"]: cut.add((s, d))
                if facts[o[1][0]] is False: cut.add((s, t["ot"]))
        return cut

def inlined(F, N, p, keep=lambda f: False, depth=3):
    """the body with the helpers that only it calls, in the same file, put in place of their calls; and the functions it then consists of"""
    import copy
    b = copy.copy(N.bodies[p]); b.blocks = copy.deepcopy(b.blocks); b.locals = list(b.locals); parts = [p]
    sites = defaultdict(int)
    for q, g in N.g.items():
        for i in g.live:
            t = g.b.blocks[i]["t"]
            if t["t"] == "call": sites[callee(t)] += 1
    def shift(x, dl, db, key=None):
        if isinstance(x, dict): return {k: shift(v, dl, db, k) for k, v in x.items()}
        if isinstance(x, list):
            if key in ("m", "c", "p", "d") and x and isinstance(x[0], int): return [x[0] + dl] + x[1:]
            return [shift(v, dl, db) for v in x]
        return x
    def term(t, dl, db):
        t = shift(t, dl, db)
        for k in ("to", "ot", "uw"):
            if isinstance(t.get(k), int): t[k] += db
        if t["t"] == "sw": t["vs"] = [[v, d + db] for v, d in t["vs"]]
        return t
    for _ in range(depth):
        todo = [i for i in sorted(Graph(F, b).live) if b.blocks[i]["t"]["t"] == "call" and (f := callee(b.blocks[i]["t"])) in N.bodies and f not in parts and sites[f] == 1 and "{" not in f and not keep(f) and N.bodies[f].file == b.file and len(N.bodies[f].blocks) < 400 and b.blocks[i]["t"].get("to") is not None and b.blocks[i]["t"].get("d")]
        if not todo: break
        for i in todo:
            t = b.blocks[i]["t"]; f = callee(t); h = N.bodies[f]; parts.append(f)
            dl, db = len(b.locals), len(b.blocks)
            b.locals += list(h.locals)
            for n, k in enumerate(h.blocks):
                nb = {**k, "s": [[[pl[0] + dl] + pl[1:], shift(r, dl, db), ln] for pl, r, ln in k["s"]], "t": term(k["t"], dl, db)}
                if nb["t"]["t"] == "ret":
                    nb["s"] = nb["s"] + [[t["d"], {"r": "use", "o": {"m": [dl]}}, t["ln"]]]
                    nb["t"] = {"t": "goto", "to": t["to"], "ln": t["ln"], "mac": None}
                b.blocks.append(nb)
            b.blocks[i] = {**b.blocks[i], "s": b.blocks[i]["s"] + [[[dl + 1 + n], {"r": "use", "o": a}, t["ln"]] for n, a in enumerate(t["a"])], "t": {"t": "goto", "to": db, "ln": t["ln"], "mac": None}}
    b._cache = {}
    return b, parts
