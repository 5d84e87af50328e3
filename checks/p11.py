"""Order taint over MIR: every traversal of a hash table in the generator is followed - through iterator adapters, collections,
closures, loops, calls and memoised queries - until its order is erased (collected into an ordered or unordered container,
sorted, or consumed by an order-independent fold).  An order that reaches emitted text, or that selects one of several
elements, is a violation; so is any other run-dependent input (clock, random state, addresses, process ids)."""
import os, re
import core

RULE = "hash iteration order is erased (sorted, or collected into a set or map) before it reaches emitted tokens or text, or picks an element; no clock, random state, address or process id is consulted"
LEVEL = "other"

CRATES = r"cc_bindings_from_rs|toposort|code_gen_utils|token_stream_printer|error_report|kythe_metadata|crubit_abi_type|crubit_attr|crubit_feature|cpp_api_from_rust|database|query_compiler|run_compiler|generate_bindings"
UNORD = re.compile(r"^(?:std::collections::|hashbrown::|rustc_hash::|rustc_data_structures::)?(?:hash_map::|hash_set::|hash::map::|hash::set::|unord::|fx::|sharded::)*(?:HashMap|HashSet|UnordMap|UnordSet|UnordBag|FxHashMap|FxHashSet|DefIdMap|DefIdSet|LocalDefIdMap)<")
ORDERLESS = re.compile(r"(?:^|::)(?:HashMap|HashSet|UnordMap|UnordSet|BTreeMap|BTreeSet|BinaryHeap)<")
SRC = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values", "difference", "union", "intersection", "symmetric_difference", "items", "into_items", "extract_if"}
ERASE = {"any", "all", "count", "sum", "product", "len", "is_empty", "contains", "contains_key", "min", "max", "eq", "exactly_one", "get_only", "at_most_one", "sorted", "into_sorted", "to_sorted", "sorted_unstable", "all_unique", "capacity", "size_hint", "all_equal", "get", "unord_iter"}
ERASE_RE = re.compile(r"^(sorted_|into_sorted|to_sorted|k_smallest|counts)")
SORT = re.compile(r"^sort(_|$)")
SELECT = {"find", "find_map", "nth", "position", "first", "last", "pop", "reduce", "min_by_key", "max_by_key", "min_by", "max_by", "next_back", "find_or_first", "find_or_last", "first_mut", "last_mut", "split_first", "split_last", "swap_remove", "rfind", "find_position", "try_fold", "try_for_each", "dedup", "truncate", "take", "skip", "step_by", "take_while", "skip_while", "windows", "chunks", "tuple_windows", "is_sorted", "group_by", "chunk_by", "get_mut"}
NONCE = re.compile(r"^std::(?:time::(?:SystemTime|Instant)::now|hash::random::RandomState::new|hash::RandomState::new|process::id|thread::(?:current|Thread::id)|env::temp_dir)|DefaultHasher|random::random|rand::|^std::hash::BuildHasher::hash_one|^std::ptr::.*::(?:addr|expose_provenance)$|^std::fmt::rt::.*new_pointer$|Pointer")
MUTATE = {"push", "push_str", "extend", "append", "insert", "extend_from_slice", "push_back", "push_front", "write_str", "write_fmt", "to_tokens", "append_all", "append_separated", "append_terminated", "write_char", "prepend", "push_punct", "add_assign", "swap", "resize", "get_or_insert_with", "bitor_assign", "extend_one", "insert_str"}
TEXT = re.compile(r"(?:^|::)(?:TokenStream|String|Formatter)(?:<|$|\b)")

def strip(t):
    while True:
        m = re.match(r"^&(?:'\S+ )?(?:mut )?(.*)$", t) or re.match(r"^(?:std::(?:rc|sync|boxed|option|borrow|cell)::)?(?:Rc|Arc|Box|Option|Ref|RefMut|Cow)<(.*)>$", t)
        if not m: return t
        t = m[1]
def unord(t): return bool(UNORD.search(strip(t)))
def orderless(t):
    t = strip(t)
    return bool(UNORD.search(t) or re.match(r"^(?:[\w:]*::)?(?:HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|UnordMap|UnordSet)<", t))
SCALAR = re.compile(r"^(?:bool|[iu](?:8|16|32|64|128|size)|\(\)|!|char|std::cmp::Ordering)$")

class Order:
    def __init__(self, ctx, F):
        self.ctx, self.F, self.memo, self.stack, self.sites = ctx, F, {}, [], 0
        self.bodies = {p: b for p, b in F.bodies.items() if re.search(CRATES, b.crate)}
        self.byname = {}
        for p in self.bodies: self.byname.setdefault(p.split("::")[-1], []).append(p)
        self.viol = {}
    def say(self, b, ln, what):
        fn = re.sub(r"::\{closure#\d+\}", "", b.path)
        self.viol.setdefault(f"{fn}: {what}", b.where(ln))
    # ---- one function, given which parameters carry an order --------------------------------------------
    def summary(self, path, tainted):
        key = (path, tainted)
        if key in self.memo: return self.memo[key]
        if key in self.stack or len(self.stack) > 12: return (False, frozenset(), frozenset())
        self.stack.append(key)
        r = self._analyse(self.bodies[path], tainted)
        self.stack.pop()
        self.memo[key] = r
        return r
    def bases(self, b):
        """temporaries that are references into, or projections of, another local: local -> set of root locals"""
        if "roots" in b._cache: return b._cache["roots"]
        par = {}
        for bb in b.blocks:
            for p, r, _ in bb["s"]:
                if len(p) != 1: continue
                if r["r"] in ("ref", "ptr"): par.setdefault(p[0], set()).add(r["p"][0])
                elif r["r"] in ("use", "cast") and ("c" in r["o"] or "m" in r["o"]):
                    q = r["o"].get("c") or r["o"].get("m")
                    if b.ty(p[0]).startswith("&"): par.setdefault(p[0], set()).add(q[0])
            t = bb["t"]
            if t["t"] == "call" and len(t["d"]) == 1 and t["a"]:
                last = (t["f"].get("fn") or "").split("::")[-1]
                q = t["a"][0].get("c") or t["a"][0].get("m")
                if q and (b.ty(t["d"][0]).startswith("&mut ") or last in ("deref_mut", "by_ref", "entry", "borrow_mut", "as_mut", "or_default", "or_insert_with", "or_insert", "get_mut", "iter_mut", "unwrap", "expect", "unwrap_or_else")) and (b.ty(q[0]).startswith("&mut") or "Entry" in b.ty(q[0]) or "RefMut" in b.ty(q[0]) or "Option<&mut" in b.ty(q[0])): par.setdefault(t["d"][0], set()).add(q[0])
        def root(l, seen=()):
            if l in seen or l not in par: return {l}
            return set().union(*[root(x, seen + (l,)) for x in par[l]]) or {l}
        b._cache["roots"] = {l: root(l) for l in range(len(b.locals))}
        return b._cache["roots"]
    def closure_effects(self, path):
        """captures of a closure that its body appends to, and captures whose order it forwards"""
        if path not in self.bodies: return []
        b = self.bodies[path]
        roots = self.bases(b); out = []
        for bb in b.blocks:
            if bb["c"]: continue
            t = bb["t"]
            if t["t"] != "call": continue
            last = (t["f"].get("fn") or "").split("::")[-1]
            if last in MUTATE and t["a"]:
                q = t["a"][0].get("c") or t["a"][0].get("m")
                if not q: continue
                ty = b.ty(q[0])
                if orderless(ty) or not ty.startswith("&mut"): continue
                if 1 in roots[q[0]]:
                    # which capture: the projections of _1 that this reference went through
                    out.append((self.capture(b, q[0]), ty, t.get("ln")))
        return out
    def capture(self, b, l):
        for bb in b.blocks:
            for p, r, _ in bb["s"]:
                if len(p) == 1 and p[0] == l:
                    q = r.get("p") or (r.get("o") or {}).get("c") or (r.get("o") or {}).get("m")
                    if q:
                        if q[0] == 1:
                            for e in q[1:]:
                                m = re.match(r"^\.(\d+)", e) if isinstance(e, str) else None
                                if m: return int(m[1])
                            return None
                        return self.capture(b, q[0])
            t = bb["t"]
            if t["t"] == "call" and t["d"] == [l] and t["a"]:
                q = t["a"][0].get("c") or t["a"][0].get("m")
                if q: return self.capture(b, q[0])
        return None
    def loops(self, b):
        """{block with Iterator::next: (blocks of its loop, exits other than exhaustion)}"""
        if "loops" in b._cache: return b._cache["loops"]
        n = len(b.blocks); succ = [b.succs(i) for i in range(n)]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss: pred[s].append(i)
        out = {}
        for i, bb in enumerate(b.blocks):
            t = bb["t"]
            if bb["c"] or t["t"] != "call" or (t["f"].get("fn") or "").split("::")[-1] not in ("next", "pop", "pop_front"): continue
            heads = [(h, lp) for h, lp in self.natural(b, succ, pred).items() if i in lp]
            if not heads: continue
            body = min((lp for _, lp in heads), key=len)
            # the switch on the result of next
            sw, x = None, i
            for _ in range(6):
                tt = b.blocks[x]["t"]
                if tt["t"] == "sw": sw = x; break
                ss = [s for s in succ[x] if not b.blocks[s]["c"]]
                if len(ss) != 1: break
                x = ss[0]
            none = {s for s in (succ[sw] if sw is not None else []) if s not in body}
            exits = {(x, s) for x in body for s in succ[x] if s not in body and not b.blocks[s]["c"] and s not in none and b.blocks[s]["t"]["t"] != "unreachable"}
            out[i] = (body, none, exits)
        b._cache["loops"] = out
        return out
    def natural(self, b, succ, pred):
        """natural loops: header -> blocks"""
        if "natural" in b._cache: return b._cache["natural"]
        n = len(b.blocks); live = [i for i in range(n) if not b.blocks[i]["c"]]
        order, seen, st = [], set(), [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen and not b.blocks[y]["c"]: seen.add(y); st.append((y, iter(succ[y]))); break
            else: order.append(x); st.pop()
        rpo = order[::-1]; num = {x: k for k, x in enumerate(rpo)}; idom = {0: 0}; ch = True
        def inter(a, c):
            while a != c:
                while num[a] > num[c]: a = idom[a]
                while num[c] > num[a]: c = idom[c]
            return a
        while ch:
            ch = False
            for x in rpo[1:]:
                ps = [p for p in pred[x] if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]: d = inter(p, d)
                if idom.get(x) != d: idom[x] = d; ch = True
        def dom(h, x):
            while x != h and x != 0: x = idom[x]
            return x == h
        out = {}
        for u in rpo:
            for h in succ[u]:
                if h in num and dom(h, u):
                    lp = out.setdefault(h, {h}); st = [u]
                    while st:
                        x = st.pop()
                        if x in lp or x not in num: continue
                        lp.add(x); st += pred[x]
        b._cache["natural"] = out
        return out
    def _analyse(self, b, tainted):
        roots = self.bases(b)
        T = set(tainted)             # locals (flow-insensitive union, refined by kills in block order below)
        states = {0: frozenset(tainted)}
        work = [0]; ret = False; steps = 0
        after = {}
        loops = self.loops(b)
        hashloops = set()
        while work:
            i = work.pop(0); steps += 1
            if steps > 6000: raise core.Broken(f"order analysis of {b.path} does not converge")
            s = set(states[i])
            self.block(b, i, s, roots, loops, hashloops)
            t = b.blocks[i]["t"]
            if t["t"] == "ret" or t["t"] == "return":
                if 0 in s: ret = True
                after[i] = frozenset(s)
            for j in b.succs(i):
                if b.blocks[j]["c"]: continue
                new = states.get(j, frozenset()) | s
                if j not in states or new != states[j]:
                    states[j] = frozenset(new)
                    if j not in work: work.append(j)
        outp = frozenset(l for st in after.values() for l in st if 1 <= l <= b.argc)
        return ret, outp, frozenset()
    def block(self, b, i, s, roots, loops, hashloops):
        bb = b.blocks[i]
        def opl(o): return (o.get("c") or o.get("m") or [None])[0]
        for p, r, ln in bb["s"]:
            k = r["r"]
            if k == "dead": s.discard(p[0]); continue
            if k == "live": continue
            src = []
            if k in ("use", "cast"): src = [opl(r["o"])]
            elif k in ("ref", "ptr"): src = [r["p"][0]]
            elif k == "agg": src = [opl(o) for o in r["os"]]
            elif k == "disc": src = []
            hot = any(x is not None and x in s for x in src)
            if hot and len(p) == 1 and SCALAR.match(b.ty(p[0])): hot = False
            if hot: s.add(p[0])
            elif len(p) == 1 and not (k in ("ref", "ptr") or False): s.discard(p[0])
        t = bb["t"]
        if t["t"] != "call": return
        f = t["f"]; fn = f.get("fn") or f.get("clo") or ""; last = fn.split("::")[-1]
        args = t["a"]; ls = [opl(a) for a in args]
        ln = t.get("ln"); d = t["d"][0]
        def hotl(l): return l is not None and (l in s or any(x in s for x in roots[l]))
        hots = [hotl(l) for l in ls]
        dty = b.ty(d) if len(t["d"]) == 1 else "?"
        a0 = b.ty(ls[0]) if ls and ls[0] is not None else ""
        if NONCE.search(fn) and not fn.startswith("std::fmt::rt::Argument::<'_>::new_display"): self.say(b, ln, f"consults {fn}")
        def setd(v):
            if v and not orderless(dty) and not SCALAR.match(dty): s.add(d)
            elif len(t["d"]) == 1: s.discard(d)
        # hash containers printed or hashed as they are
        if last == "fmt" and unord(a0) or re.search(r"Argument::<[^>]*>::new_debug", fn) and unord(a0): self.say(b, ln, "formats a hash table"); return
        if last in SRC and unord(a0): self.sites += 1; s.add(d); return
        if last in ("extend", "chain", "zip", "from_iter") and any(l is not None and unord(b.ty(l)) for l in ls[1:]): hots = [hots[0]] + [h or (l is not None and unord(b.ty(l))) for h, l in zip(hots[1:], ls[1:])]; self.sites += 1
        if last == "from_iter" and unord(a0): hots[0] = True; self.sites += 1
        if last == "from" and unord(a0) and not orderless(dty): hots[0] = True; self.sites += 1
        # loops
        if last in ("next", "pop", "pop_front") and i in loops and hots and hots[0] and not orderless(b.ty(min(roots[ls[0]]))):
            self.loop(b, i, loops[i], s, roots, ln)
            s.discard(d); return
        if not any(hots): setd(False); self.indirect(b, t, s, roots, ln); return
        if last in ERASE or ERASE_RE.match(last):
            setd(False)
            return
        if SORT.match(last):
            for x in roots[ls[0]] | {ls[0]}: s.discard(x)
            setd(False); return
        if last in ("next",) and hots[0] or last in SELECT and hots[0] and not orderless(a0) and not unord(a0):
            if SCALAR.match(dty) and last in ("position",): return
            self.say(b, ln, f"{last} picks an element by hash order"); setd(False); return
        if last == "index" and hots[0] and not orderless(a0) and SCALAR.match(b.ty(ls[1]) if ls[1:] and ls[1] is not None else "usize"): self.say(b, ln, "index picks an element by hash order"); setd(False); return
        if last in ("fold",) and hots[0] and not orderless(dty) and not SCALAR.match(dty): setd(True)
        # closures run once per element, in this order
        for a, l in zip(args, ls): self.closures(b, l, a, s, roots, ln, hots[0])
        if last in MUTATE and len(ls) > 1 and any(hots[1:]):
            ty = a0
            if orderless(ty): setd(False); return
            if TEXT.search(strip(ty)): self.say(b, ln, f"emits text in hash order ({last})"); return
            for x in roots[ls[0]] | {ls[0]}: s.add(x)
            setd(False); return
        if last == "to_tokens" or any(l is not None and b.ty(l).startswith("&mut") and TEXT.search(strip(b.ty(l))) for l in ls) and last in ("to_tokens", "quote_into_iter", "append_all", "write_fmt", "fmt"):
            self.say(b, ln, "emits tokens in hash order"); return
        if last in ("join", "concat", "format") and TEXT.search(strip(dty)) or TEXT.search(strip(dty)) and last in ("collect", "from_iter", "collect_vec"):
            self.say(b, ln, f"builds text in hash order ({last})"); setd(False); return
        if last == "for_each": setd(False); return
        # calls into the workspace
        tgt = self.target(f, fn)
        if tgt:
            ti = frozenset(k + 1 for k, h in enumerate(hots) if h)
            r, outp, _ = self.summary(tgt, ti)
            for k, l in enumerate(ls):
                if l is None or not b.ty(l).startswith("&mut"): continue
                if k + 1 in outp: s.update(roots[l] | {l})
                else: s.difference_update(roots[l] | {l})
            setd(r); return
        setd(True)
    def target(self, f, fn):
        p = f.get("rs") or fn
        if p in self.bodies: return p
        return None
    def queries(self, f, fn):
        """implementations of a memoised database query, by the query's name"""
        last = fn.split("::")[-1]
        if "BindingsGenerator" not in fn: return []
        return [p for p in self.byname.get(last, []) if "BindingsGenerator" not in p and "{closure" not in p]
    def indirect(self, b, t, s, roots, ln):
        """untainted call: the callee may itself produce an order, or write one into an argument"""
        f = t["f"]; fn = f.get("fn") or f.get("clo") or ""
        tgt = self.target(f, fn)
        for p in ([tgt] if tgt else []) + (self.queries(f, fn) if not tgt or "BindingsGenerator" in fn else []):
            r, outp, _ = self.summary(p, frozenset())
            if r and not orderless(b.ty(t["d"][0])): s.add(t["d"][0])
            for k, a in enumerate(t["a"]):
                l = (a.get("c") or a.get("m") or [None])[0]
                if l is not None and k + 1 in outp and b.ty(l).startswith("&mut"): s.update(roots[l] | {l})
    def closures(self, b, l, a, s, roots, ln, hot):
        if not hot: return
        clo = None; caps = []
        if l is not None:
            for bb in b.blocks:
                for p, r, _ in bb["s"]:
                    if p == [l] and r["r"] == "agg" and r.get("clo"): clo, caps = r["clo"], r["os"]
        elif a.get("k", {}).get("clo"): clo = a["k"]["clo"]
        if not clo: return
        for cap, ty, cl in self.closure_effects(clo):
            if cap is None or cap >= len(caps): continue
            cl_ = (caps[cap].get("c") or caps[cap].get("m") or [None])[0]
            if cl_ is None: continue
            if TEXT.search(strip(ty)): self.say(b, cl, "emits text in hash order (in a closure)"); continue
            s.update(roots[cl_] | {cl_})
    def loop(self, b, i, lp, s, roots, ln):
        """effects, in hash order, of the body of a loop"""
        body, none, exits = lp
        inside = lambda l: all(p != [l] and (not p or p[0] != l) for j, bb in enumerate(b.blocks) if j not in body for p, r, _ in bb["s"] if r["r"] not in ("live", "dead"))
        read_out = self.reads(b, body)
        defs_in = set()
        for j in body:
            for p, r, l2 in b.blocks[j]["s"]:
                if r["r"] in ("live", "dead", "disc", "bin", "un"): continue
                if r["r"] == "use" and "k" in r["o"]: continue
                if p[0] in read_out and len(p) == 1 and b.ty(p[0]) != "bool" and not b.ty(p[0]).startswith("()") and b.name(p[0]) and not orderless(b.ty(p[0])): s.add(p[0]); 
            t = b.blocks[j]["t"]
            if t["t"] != "call" or j == i: continue
            last = (t["f"].get("fn") or "").split("::")[-1]
            ls = [(a.get("c") or a.get("m") or [None])[0] for a in t["a"]]
            outer = lambda l: [x for x in roots[l] if self.outer(b, x, body)]
            if last in MUTATE and ls and ls[0] is not None:
                ty = b.ty(ls[0])
                if not orderless(ty) and ty.startswith("&mut") and outer(ls[0]):
                    if TEXT.search(strip(ty)): self.say(b, t.get("ln"), f"emits text in hash order ({last})")
                    else: s.update(outer(ls[0]))
            else:
                tgt = self.target(t["f"], t["f"].get("fn") or "")
                for k, l in enumerate(ls):
                    if l is None or not b.ty(l).startswith("&mut") or orderless(b.ty(l)) or last in ("next", "entry", "get_mut", "deref_mut", "by_ref") : continue
                    o = outer(l)
                    if o and tgt and self.appends(tgt, k + 1):
                        if TEXT.search(strip(b.ty(l))): self.say(b, t.get("ln"), f"emits text in hash order ({last})")
                        else: s.update(o)
        # leaving early with something that depends on the element reached
        if exits:
            normal = self.reach(b, none)
            for x, y in exits:
                for z in self.reach(b, {y}) - normal | {y}:
                    if z in normal and z != y: continue
                    for p, r, l2 in b.blocks[z]["s"] if z not in normal else []:
                        if r["r"] in ("live", "dead", "disc"): continue
                        if r["r"] == "use" and "k" in r["o"]: continue
                        if r["r"] == "agg" and not r["os"]: continue
                        if p[0] == 0 or p[0] in self.reads(b, None, normal): self.say(b, l2, "a loop in hash order ends with the element it reached"); break
                    t = b.blocks[z]["t"]
                    if z not in normal and t["t"] == "call" and t["d"][0] == 0 and not all("k" in a for a in t["a"]): self.say(b, t.get("ln"), "a loop in hash order ends with the element it reached")
    def outer(self, b, l, body):
        """is the local alive before the loop body starts (a parameter, or defined outside)"""
        if l <= b.argc: return True
        for j, bb in enumerate(b.blocks):
            if j in body or bb["c"]: continue
            if any(p[0] == l and r["r"] not in ("live", "dead") for p, r, _ in bb["s"]): return True
            t = bb["t"]
            if t["t"] == "call" and t["d"][0] == l: return True
        return False
    def appends(self, path, param):
        """does a function append, in call order, to the sequence behind a parameter"""
        key = ("appends", path, param)
        if key in self.memo: return self.memo[key]
        self.memo[key] = False
        b = self.bodies[path]; roots = self.bases(b); res = False
        for bb in b.blocks:
            t = bb["t"]
            if bb["c"] or t["t"] != "call": continue
            last = (t["f"].get("fn") or "").split("::")[-1]
            for k, a in enumerate(t["a"]):
                l = (a.get("c") or a.get("m") or [None])[0]
                if l is None or param not in roots[l] or not b.ty(l).startswith("&mut") or orderless(b.ty(l)): continue
                if last in MUTATE and k == 0: res = True
                tgt = self.target(t["f"], t["f"].get("fn") or "")
                if tgt and self.appends(tgt, k + 1): res = True
        self.memo[key] = res
        return res
    def reach(self, b, start):
        out, st = set(), list(start)
        while st:
            x = st.pop()
            if x in out or b.blocks[x]["c"]: continue
            out.add(x); st += b.succs(x)
        return out
    def reads(self, b, body, only=None):
        key = ("reads", frozenset(body or ()), frozenset(only or ()))
        if key in b._cache: return b._cache[key]
        out = set()
        def opl(o):
            q = o.get("c") or o.get("m")
            if q: out.add(q[0])
        for j, bb in enumerate(b.blocks):
            if bb["c"] or body is not None and j in body or only is not None and j not in only: continue
            for p, r, _ in bb["s"]:
                for k in ("o", "a", "b"):
                    if isinstance(r.get(k), dict): opl(r[k])
                for o in r.get("os") or []: opl(o)
                if r["r"] in ("ref", "ptr", "disc"): out.add(r["p"][0])
            t = bb["t"]
            if t["t"] == "call":
                for a in t["a"]: opl(a)
            elif t["t"] == "sw": opl(t["o"])
        b._cache[key] = out
        return out

def fields_read(F, path, arg, seen=None):
    """fields of the object behind parameter `arg` that a body looks at, following calls it hands the whole object to; None = everything"""
    seen = seen if seen is not None else set()
    if (path, arg) in seen: return set()
    seen.add((path, arg))
    b = F.bodies.get(path)
    if b is None: return None
    alias, out, caps = set(), set(), set()
    if isinstance(arg, int): alias.add(arg)
    def names(p): return [m[1] for e in p[1:] for m in [re.match(r"\.\^?(\w+)$", e)] if m]
    def rest(p):
        """fields selected from the object if the place is rooted in it (an empty list: the object itself), else None"""
        if not p: return None
        n = names(p)
        if p[0] in alias: return n
        if not isinstance(arg, int) and p[0] == 1 and n and n[0] == arg: return n[1:]
        return None
    pl = lambda o: (o.get("c") or o.get("m")) if isinstance(o, dict) else None
    same = ("deref", "as_ref", "borrow", "clone")
    changed = True
    while changed:
        changed = False
        for bb in b.blocks:
            if bb["c"]: continue
            for d, r, _ in bb["s"]:
                src = pl(r["o"]) if r["r"] in ("use", "cast") else r["p"] if r["r"] in ("ref", "ptr") else None
                if rest(src) == [] and len(d) == 1 and d[0] not in alias: alias.add(d[0]); changed = True
            t = bb["t"]
            if t["t"] == "call" and len(t["d"]) == 1 and t["d"][0] not in alias and t["a"] and (t["f"].get("fn") or "").split("::")[-1] in same and rest(pl(t["a"][0])) == []:
                alias.add(t["d"][0]); changed = True
    def use(p):
        n = rest(p)
        if n: out.add(n[0])
    for bb in b.blocks:
        if bb["c"]: continue
        for d, r, _ in bb["s"]:
            for k in ("o", "a", "b"): use(pl(r.get(k)))
            if r["r"] == "agg":
                for name, o in zip(r.get("fs") or [None] * len(r["os"]), r["os"]):
                    if rest(pl(o)) == []:
                        if not r.get("clo"): return None
                        sub = fields_read(F, r["clo"], name, seen)
                        if sub is None: return None
                        out |= sub
                    use(pl(o))
            if r["r"] in ("ref", "ptr"): use(r["p"])
            if r["r"] == "disc":
                if rest(r["p"]) == []: out.add("#variant")
                use(r["p"])
        t = bb["t"]
        if t["t"] == "sw": use(pl(t["o"]))
        if t["t"] == "call":
            f = t["f"]; fn = f.get("rs") or f.get("fn") or f.get("clo") or ""
            for i, a in enumerate(t["a"]):
                n = rest(pl(a))
                if n: out.add(n[0])
                elif n == [] and fn.split("::")[-1] not in same:
                    sub = fields_read(F, fn, i + 1, seen) if fn in F.bodies else None
                    if sub is None: return None
                    out |= sub
    return out

# Values ordered together always agree on these fields: all paths of one item are found from one crate's root.
CONSTANT = {("ExportedPath", "krate")}

def sort_keys(ctx, F):
    """A total order used to place things must tell apart everything equality tells apart, else equal-ranking elements keep hash order."""
    impl = {}
    for i in F.impls:
        if not i.get("trait") or not re.search(CRATES, i["crate"]): continue
        tr = re.sub(r"<.*", "", i["trait"]).split("::")[-1]
        if tr in ("Ord", "PartialEq"): impl[(i["crate"], i["self"], tr)] = i
    n = 0
    for (cr, ty, tr), i in sorted(impl.items()):
        if tr != "Ord" or (cr, ty, "PartialEq") not in impl: continue
        n += 1
        def reads(i, name):
            p = next((x for x in i["items"] if x.endswith("::" + name)), None)
            if p is None or p not in F.bodies: return None
            l, r = fields_read(F, p, 1), fields_read(F, p, 2)
            return None if l is None or r is None else (l, r)
        o, e = reads(i, "cmp"), reads(impl[(cr, ty, "PartialEq")], "eq")
        if o is None or e is None:
            ctx.obligation(f"{ty}: the order or equality looks at the whole value")
            continue
        for side, a, b in (("left", o[0], e[0]), ("right", o[1], e[1])):
            miss = {x for x in b - a if not x.startswith("#") and (ty.split("::")[-1], x) not in CONSTANT}
            if miss and not (len(a) == 0 and len(b) == 0):
                ctx.violate(f"{cr}:{ty}: Ord does not compare {', '.join(sorted(miss))} of its {side} operand", f"{i['file']}:{i['lo']}", f"{ty}: Eq distinguishes values by {', '.join(sorted(miss))}, Ord does not")
        ctx.obligation(f"{ty}: Ord compares {', '.join(sorted(o[0])) or 'the discriminant'}; Eq compares {', '.join(sorted(e[0])) or 'the discriminant'}")
    ctx.count("sort keys", n)
    core.floor(ctx, "sort-key types", n, 4)

def run(ctx):
    F = ctx.facts(harness=False)
    sort_keys(ctx, F)
    O = Order(ctx, F)
    escaping = []
    for p in sorted(O.bodies):
        b = O.bodies[p]
        r, outp, _ = O.summary(p, frozenset())
        ctx.count("functions")
        if r: escaping.append(p)
    called = set()
    for p, b in O.bodies.items():
        for bb in b.blocks:
            t = bb["t"]
            if t["t"] != "call": continue
            f = t["f"]; fn = f.get("fn") or f.get("clo") or ""
            if O.target(f, fn): called.add(O.target(f, fn))
            called.update(O.queries(f, fn))
    for p in escaping:
        if "{closure" in p: continue
        if p not in called: O.say(O.bodies[p], None, "returns a sequence in hash order to callers outside the generator")
    ctx.count("hash-order traversals", O.sites)
    for k, w in sorted(O.viol.items()): ctx.violate(k, w, k)
    ctx.obligation(f"functions returning a hash-ordered sequence to callers that are analysed: {', '.join(sorted(escaping)) or 'none'}")
    ctx.obligation(f"{O.sites} traversals")
    core.floor(ctx, "hash-order traversals", O.sites, 10)
