"""Abstract interpretation of small LLVM-IR functions over typed terms.

`Walk(text)` enumerates the acyclic path segments of a function between cut points (entry, loop headers, returns). Terms:
("c", w, k) constant | ("lin", ((atom, factor)...), k) 64-bit linear term, pointers included | ("v", w, name) input |
("op", w, name, a, b) | ("cmp", pred, a, b) | ("not", a) | ("and"/"or", a, b) on i1 | ("tbl", w, global, index) | ("ld", w, address).
A domain decides conditions: dom.assume(term, want) -> [dom].
"""
import re, llvm
from llvm import split_top, Unsupported

def c(w, k): return ("c", w, k & ((1 << w) - 1)) if w < 64 else lin({}, k)
def lin(d, k):
    k &= (1 << 64) - 1
    if k >= 1 << 63: k -= 1 << 64
    return ("lin", tuple(sorted(((a, f) for a, f in d.items() if f), key=repr)), k)
def islin(t): return t[0] == "lin"
def const(t):
    if t[0] == "c": return t[2]
    if islin(t) and not t[1]: return t[2]
def width(t):
    return {"lin": lambda: 64, "cmp": lambda: 1, "not": lambda: 1, "and": lambda: 1, "or": lambda: 1}.get(t[0], lambda: t[1])()
def as_lin(t):
    if islin(t): return t
    return lin({t: 1}, 0)
def ladd(a, b, k=1):
    a, b = as_lin(a), as_lin(b); d = dict(a[1])
    for x, f in b[1]: d[x] = d.get(x, 0) + k * f
    return lin(d, a[2] + k * b[2])
def lscale(a, n):
    a = as_lin(a); return lin({x: f * n for x, f in a[1]}, a[2] * n)
def subst(t, m):
    """replace atoms of linear terms"""
    if not isinstance(t, tuple): return t
    if islin(t):
        r = lin({}, t[2])
        for x, f in t[1]:
            r = ladd(r, lscale(m[x] if x in m else subst(x, m), f))
        return r
    if t in m: return m[t]
    return tuple(subst(x, m) for x in t) if t[0] not in ("c", "v") else t
def variables(t, out=None):
    out = set() if out is None else out
    if t[0] == "v": out.add(t[2])
    elif islin(t):
        for x, _ in t[1]: variables(x, out)
    elif t[0] == "ld": out.add(t)
    elif t[0] == "tbl": variables(t[3], out)
    elif t[0] == "op": variables(t[3], out); variables(t[4], out) if isinstance(t[4], tuple) else None
    elif t[0] in ("cmp",): variables(t[2], out); variables(t[3], out)
    elif t[0] in ("not",): variables(t[1], out)
    elif t[0] in ("and", "or"): variables(t[1], out); variables(t[2], out)
    elif t[0] == "ite": [variables(x, out) for x in t[2:]]
    elif t[0] != "c": raise Unsupported("term " + t[0])
    return out
def sgn(x, w): return x - (1 << w) if x >> (w - 1) else x
def apply(op, w, a, b):
    M = (1 << w) - 1
    if op in ("shl", "lshr", "ashr") and b >= w: return 0
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
            "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sgn(a, w) >> b, "udiv": lambda: a // b if b else 0, "urem": lambda: a % b if b else 0,
            "umin": lambda: min(a, b), "umax": lambda: max(a, b), "smin": lambda: min(sgn(a, w), sgn(b, w)), "smax": lambda: max(sgn(a, w), sgn(b, w))}[op]() & M
def compare(p, a, b, w):
    if p[0] == "s": a, b = sgn(a, w), sgn(b, w)
    return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]
def ev(t, env, W):
    """value of a term under {variable: value}; the width masks it"""
    k = t[0]
    if k == "c": return t[2]
    if k == "v": return env[t[2]]
    if k == "ld":
        if t in env: return env[t]
        for o in range(8):      # part of a wider value
            q = ("ld", 64, ladd(t[2], c(64, -o)))
            if q in env and o * 8 + t[1] <= 64: return env[q] >> (8 * o) & ((1 << t[1]) - 1)
        raise KeyError(t)
    if k == "lin": return (t[2] + sum(f * ev(x, env, W) for x, f in t[1])) & ((1 << 64) - 1)
    if k == "tbl":
        i = ev(t[3], env, W); tab = W.table(t[2])
        return tab[i] if i < len(tab) else 0
    if k == "op":
        if t[2] in ("zext",): return ev(t[3], env, W)
        if t[2] == "sext": return sgn(ev(t[3], env, W), width(t[3])) & ((1 << t[1]) - 1)
        if t[2] == "trunc": return ev(t[3], env, W) & ((1 << t[1]) - 1)
        return apply(t[2], t[1], ev(t[3], env, W), ev(t[4], env, W))
    if k == "cmp": return int(compare(t[1], ev(t[2], env, W), ev(t[3], env, W), width(t[2])))
    if k == "not": return 1 - ev(t[1], env, W)
    if k == "and": return ev(t[1], env, W) & ev(t[2], env, W)
    if k == "or": return ev(t[1], env, W) | ev(t[2], env, W)
    if k == "ite": return ev(t[3] if ev(t[2], env, W) else t[4], env, W)
    raise Unsupported("value of " + k)

class Segment:
    """a path from one cut point to the next"""
    def __init__(s, dom): s.dom, s.stores, s.loads, s.calls, s.end, s.ret, s.phis, s.at = dom, [], [], [], None, None, None, None
    def fork(s, dom):
        q = Segment(dom); q.stores, q.loads, q.calls = list(s.stores), list(s.loads), list(s.calls); return q

class Walk(llvm.Module):
    LIMIT = 20000
    def w(self, t):
        if t == "ptr": return 64
        m = re.fullmatch(r"i(\d+)", t)
        if not m: raise Unsupported("type " + t)
        return int(m[1])
    def table(self, g):
        g = g.lstrip("@")
        if not hasattr(self, "_t"): self._t = {}
        if g not in self._t:
            d = self.globals[g]
            m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', d)
            if m: v = [int(x[1:], 16) if x[0] == "\\" and len(x) > 1 else ord(x) for x in re.findall(r"\\[0-9A-Fa-f]{2}|[^\\]", m[1])]
            else:
                m = re.search(r"\[\d+ x (i\d+)\] (\[.*?\])", d)
                v = [int(x) & ((1 << int(m[1][1:])) - 1) for x in re.findall(r"i\d+ (-?\d+)", m[2])] if m else None
                if v is None:
                    m = re.search(r"\[(\d+) x i\d+\] zeroinitializer", d); v = [0] * int(m[1]) if m else None
            if v is None or not re.search(r"\bconstant\b", d): raise Unsupported("table " + g)
            self._t[g] = v
        return self._t[g]
    def operand(self, s, t, env):
        s = self.attrs(s.strip())
        if s.startswith("%"):
            if s not in env: raise Unsupported("value " + s)
            return env[s]
        if s in ("null", "zeroinitializer", "false"): return c(self.w(t), 0)
        if s == "true": return c(1, 1)
        if s in ("undef", "poison"): return ("v", self.w(t), "undef")
        if re.fullmatch(r"-?\d+", s): return c(self.w(t), int(s))
        if s.startswith("@"): return lin({("v", 64, s): 1}, 0)
        m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$", s)
        if m: return self.gept(m[1], env)
        m = re.match(r"(?:inttoptr|ptrtoint) \((\S+) (.*) to .*\)$", s)
        if m: return self.operand(m[2], m[1], env)
        raise Unsupported("operand " + s)
    def gept(self, s, env):
        parts = split_top(s); t = parts[0]
        bt, b = self.ty(parts[1]); r = as_lin(self.operand(b, bt, env))
        for k, ix in enumerate(parts[2:]):
            it, iv = self.ty(ix); v = self.operand(iv, it, env); kv = const(v)
            if width(v) < 64 and kv is None: raise Unsupported("narrow index")
            if kv is not None and width(v) < 64: kv = sgn(kv, width(v))
            if k == 0: n = self.size_align(t)[0]
            else:
                if kv is not None: t, o = self.field(t, kv); r = ladd(r, c(64, o)); continue
                e, _ = self.field(t, 0); n = self.size_align(e)[0]; t = e
            r = ladd(r, lscale(v if kv is None else c(64, kv), n))
        return r
    # -- cut points
    def headers(self, fn):
        entry, bl = self.blocks(fn)
        succ = {k: [x.strip('"') for i in v if re.match(r"(br|switch) |.*invoke ", i) for x in re.findall(r"label %(\"[^\"]+\"|[\w.$-]+)", i)] for k, v in bl.items()}
        state, heads = {}, set()
        def dfs(n):
            state[n] = 1
            for m in succ[n]:
                if state.get(m) == 1: heads.add(m)
                elif m not in state: dfs(m)
            state[n] = 2
        dfs(entry); return entry, heads
    def phis(self, fn, lab):
        out = []
        for l in self.blocks(fn)[1][lab]:
            m = re.match(r"(%[\w.\"$-]+) = phi (.*)$", l)
            if not m: break
            t, rest = self.ty(m[2])
            out.append((m[1], t, {b.strip('"'): v for v, b in re.findall(r"\[ (.+?), %(\"[^\"]+\"|[\w.$-]+) \]", rest)}))
        return out
    def segments(self, fn, lab, env, dom, cuts, pred=None, hook=None):
        """paths from block lab (its phis already in env when pred is None) to a cut point or return"""
        self.n, self.hook, out = 0, hook, []
        self.go(fn, lab, pred, dict(env), Segment(dom), cuts, out, True)
        return out
    def go(self, fn, lab, pred, env, seg, cuts, out, first=False):
        while True:
            ph = self.phis(fn, lab) if pred is not None else []
            vals = {n: self.operand(vs[pred], t, env) for n, t, vs in ph}
            if lab in cuts and not first:
                seg.end, seg.at, seg.phis, seg.env = "cut", lab, vals, env; out.append(seg); return
            first = False
            env = {**env, **vals}
            nxt = self.block(fn, lab, [l for l in self.blocks(fn)[1][lab] if " = phi " not in l], env, seg, cuts, out)
            if nxt is None: return
            lab, pred = nxt, lab
    def simplify(self, t, m):
        """t with the sub-terms of m replaced, folded again"""
        if t in m: return m[t]
        k = t[0]
        if k == "lin":
            r = lin({}, t[2])
            for x, f in t[1]: r = ladd(r, lscale(self.simplify(x, m), f))
            return r
        if k == "op":
            a = self.simplify(t[3], m)
            return self.cast(t[2], a, t[1]) if t[4] is None else self.arith2(t[2], a, self.simplify(t[4], m))
        if k == "cmp": return self.icmp(t[1], self.simplify(t[2], m), self.simplify(t[3], m))
        if k == "not": return self.neg(self.simplify(t[1], m))
        if k == "and": return self.band(self.simplify(t[1], m), self.simplify(t[2], m))
        if k == "or": return self.bor(self.simplify(t[1], m), self.simplify(t[2], m))
        return t
    def flag(self, t):
        """a truth value used as a number inside t"""
        if t[0] == "lin": return next((y for x, _ in t[1] for y in [self.flag(x)] if y), None)
        if t[0] == "op":
            if t[2] in ("zext", "sext") and width(t[3]) == 1 and const(t[3]) is None: return t[3]
            return self.flag(t[3]) or (self.flag(t[4]) if t[4] is not None else None)
        if t[0] in ("cmp", "and", "or", "not"): return next((y for x in t[1:] if isinstance(x, tuple) for y in [self.flag(x)] if y), None)
    def resolve(self, dom, t):
        """[(dom, t)] with truth values used as numbers decided"""
        f = self.flag(t)
        if f is None: return [(dom, t)]
        return [r for want in (True, False) for d in dom.assume(f, want) for r in self.resolve(d, self.simplify(t, {f: c(1, want)}))]
    def split(self, seg, cond):
        """[(segment, truth)]"""
        if self.flag(cond) is not None:
            return [x for d, t in self.resolve(seg.dom, cond) for x in self.split(seg.fork(d), t)]
        k = const(cond)
        if k is not None: return [(seg, bool(k))]
        r = []
        for want in (True, False):
            for d in seg.dom.assume(cond, want):
                self.n += 1
                if self.n > self.LIMIT: raise Unsupported("too many paths")
                r.append((seg.fork(d), want))
        return r
    def block(self, fn, lab, ins, env, seg, cuts, out):
        for i, l in enumerate(ins):
            m = re.match(r"(?:(%(?:\"[^\"]+\"|[\w.$-]+)) = )?(.*)$", l); dst, s = m[1], m[2]
            op = s.split()[0]
            if op in ("tail", "musttail", "notail"): s = s.split(None, 1)[1]; op = "call"
            if op == "ret":
                x = s[4:].strip()
                if x != "void":
                    t, v = self.ty(x); seg.ret = self.operand(v, t, env)
                seg.end, seg.env = "ret", env; out.append(seg); return None
            if op == "unreachable": seg.end, seg.env = "unreachable", env; out.append(seg); return None
            if op == "br":
                ls = [x.strip('"') for x in re.findall(r"label %(\"[^\"]+\"|[\w.$-]+)", s)]
                if len(ls) == 1: return ls[0]
                for sg, want in self.split(seg, self.operand(re.match(r"br i1 (.*?), label", s)[1], "i1", env)):
                    self.go(fn, ls[0] if want else ls[1], lab, env, sg, cuts, out)
                return None
            if op == "switch":
                t, rest = self.ty(s[7:]); v = self.operand(rest.split(", label")[0], t, env)
                d = re.search(r"label %(\"[^\"]+\"|[\w.$-]+) \[", s)[1].strip('"')
                segs = [seg]
                for a, b in re.findall(r"i\d+ (-?\d+), label %(\"[^\"]+\"|[\w.$-]+)", s[s.index("["):]):
                    keep = []
                    for sg in segs:
                        for s2, want in self.split(sg, self.icmp("eq", v, c(self.w(t), int(a)))):
                            if want: self.go(fn, b.strip('"'), lab, env, s2, cuts, out)
                            else: keep.append(s2)
                    segs = keep
                for sg in segs: self.go(fn, d, lab, env, sg, cuts, out)
                return None
            if op == "select":
                parts = split_top(s[7:]); cd = self.operand(self.ty(parts[0])[1], "i1", env)
                ts = [self.ty(p) for p in parts[1:3]]; vs = [self.operand(v, t, env) for t, v in ts]
                if ts[0][0] == "i1":
                    env[dst] = self.bor(self.band(cd, vs[0]), self.band(self.neg(cd), vs[1])); continue
                for sg, want in self.split(seg, cd):
                    e2 = dict(env); e2[dst] = vs[0] if want else vs[1]
                    n = self.block(fn, lab, ins[i + 1:], e2, sg, cuts, out)
                    if n is not None: self.go(fn, n, lab, e2, sg, cuts, out)
                return None
            if op in ("call", "invoke"):
                m = re.search(r"(@(?:\"[^\"]+\"|[\w.$-]+)|%(?:\"[^\"]+\"|[\w.$-]+))\(", s)
                name = m[1].lstrip("@").strip('"')
                i2 = m.end(); d = 1; j = i2
                while d: d += {"(": 1, ")": -1}.get(s[j], 0); j += 1
                args = []
                if not re.match(r"llvm\.(lifetime|assume|dbg|experimental|invariant|donothing)", name):
                    for a in split_top(s[i2:j - 1]):
                        t, v = self.ty(a)
                        try: args.append(self.operand(self.attrs(v), t, env))
                        except Unsupported: args.append(("v", 64, v))
                    r = self.call(name, args, seg, dst)
                    if dst: env[dst] = r
                if op == "invoke": return re.search(r"to label %(\"[^\"]+\"|[\w.$-]+)", s)[1].strip('"')
                continue
            if op == "store":
                a, b = split_top(s[6:])[:2]
                t, v = self.ty(a); seg.stores.append((as_lin(self.operand(self.ty(b)[1], "ptr", env)), t, self.operand(v, t, env))); continue
            if op == "load":
                a, b = split_top(s[5:])[:2]; env[dst] = self.load(self.w(a), as_lin(self.operand(self.ty(b)[1], "ptr", env)), seg); continue
            if op == "getelementptr": env[dst] = self.gept(re.sub(r"^getelementptr (?:inbounds |nuw |nusw )*", "", s), env); continue
            if op == "alloca": env[dst] = lin({("v", 64, "loc" + dst): 1}, 0); continue
            if op == "freeze": t, v = self.ty(s[7:]); env[dst] = self.operand(v, t, env); continue
            m2 = re.match(r"(zext|sext|trunc|inttoptr|ptrtoint)(?: (?:nneg|nuw|nsw))* (.*) to (.*)$", s)
            if m2:
                t, v = self.ty(m2[2]); env[dst] = self.cast(m2[1], self.operand(v, t, env), self.w(m2[3].strip())); continue
            if op == "icmp":
                m2 = re.match(r"icmp (?:samesign )?(\w+) (.*)$", s); ps = split_top(m2[2]); t, a = self.ty(ps[0])
                env[dst] = self.icmp(m2[1], self.operand(a, t, env), self.operand(ps[1], t, env)); continue
            m2 = re.match(r"(\w+)(?: (?:nuw|nsw|exact|disjoint))* (.*)$", s)
            if m2 and op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem"):
                ps = split_top(m2[2]); t, a = self.ty(ps[0])
                env[dst] = self.arith2(op, self.operand(a, t, env), self.operand(ps[1], t, env)); continue
            raise Unsupported(f"instruction {op}")
        raise Unsupported("fell off block " + lab)
    def call(self, name, args, seg, dst):
        m = re.match(r"llvm\.([us]m(?:in|ax))\.", name)
        if m: return self.arith2(m[1], args[0], args[1])
        if name.startswith("llvm.expect"): return args[0]
        if re.match(r"llvm\.(memcpy|memmove)\.", name):
            n = const(args[2])
            if n is None or n % 8 or n > 64: raise Unsupported("copy")
            for o in range(0, n, 8): seg.stores.append((ladd(args[0], c(64, o)), "i64", as_lin(self.load(64, ladd(args[1], c(64, o)), seg))))
            return c(64, 0)
        if name.startswith("llvm.memset."):
            n, b = const(args[2]), const(args[1])
            if n is None or n % 8 or n > 64 or b is None: raise Unsupported("memset")
            for o in range(0, n, 8): seg.stores.append((ladd(args[0], c(64, o)), "i64", c(64, int.from_bytes(bytes([b & 255]) * 8, "little"))))
            return c(64, 0)
        seg.calls.append((name, tuple(args)))
        r = self.hook(name, args, seg) if self.hook else None
        return r if r is not None else ("v", 64, f"call{len(seg.calls)}:{name}")
    def load(self, w, a, seg):
        gs = [x for x, f in a[1] if x[0] == "v" and x[2].startswith("@")]
        if gs and w % 8 == 0:
            idx = ladd(a, lin({gs[0]: 1}, 0), -1)
            if w == 8: return ("tbl", 8, gs[0][2], idx)
            n = w // 8
            if all(f % n == 0 for _, f in idx[1]) and idx[2] % n == 0: return ("tbl", w, gs[0][2], lin({x: f // n for x, f in idx[1]}, idx[2] // n))
        for p, t, v in reversed(seg.stores):
            if p == a: return v
        t = ("ld", w, a); seg.loads.append(t); seg.dom.load(t, seg)
        return t
    def cast(self, k, v, w):
        kv, wv = const(v), width(v)
        if k in ("inttoptr", "ptrtoint") or w == wv: return v
        if kv is not None: return c(w, sgn(kv, wv) if k == "sext" else kv)
        if k == "zext" and v[0] == "op" and v[2] == "zext": v = v[3]
        if k == "trunc" and islin(v) and len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0 and width(v[1][0][0]) <= w: v = v[1][0][0]
        if k == "trunc" and v[0] == "op" and v[2] == "zext":
            if width(v[3]) == w: return v[3]
            if width(v[3]) > w: v = v[3]
        t = ("op", w, k, v, None)
        return as_lin(t) if w == 64 else t
    def arith2(self, op, a, b):
        w = width(a); x, y = const(a), const(b)
        if x is not None and y is not None: return c(w, apply(op, w, x & ((1 << w) - 1), y & ((1 << w) - 1)))
        if w == 1:
            if op == "and": return self.band(a, b)
            if op == "or": return self.bor(a, b)
            if op == "xor":
                if x is not None: a, x, b, y = b, y, a, x
                if y is not None: return self.neg(a) if y else a
                return self.bor(self.band(a, self.neg(b)), self.band(self.neg(a), b))
        if w == 64:
            if op == "add": return ladd(a, b)
            if op == "sub": return ladd(a, b, -1)
            if op == "mul" and y is not None: return lscale(a, y)
            if op == "shl" and y is not None: return lscale(a, 1 << y)
            return as_lin(("op", 64, op, a, b))
        return ("op", w, op, a, b)
    def icmp(self, p, a, b):
        w = width(a); x, y = const(a), const(b)
        if x is not None and y is not None: return c(1, int(compare(p, x & ((1 << w) - 1), y & ((1 << w) - 1), w)))
        if a == b: return c(1, int(p in ("eq", "ule", "uge", "sle", "sge")))
        if w == 1 and p in ("eq", "ne"):
            r = self.arith2("xor", a, b); return r if p == "ne" else self.neg(r)
        if w == 64 and p in ("eq", "ne"):
            d = ladd(a, b, -1)
            if const(d) is not None: return c(1, int((const(d) == 0) == (p == "eq")))
            a, b = lin(dict(d[1]), 0), c(64, -d[2])
        return ("cmp", p, a, b)
    def neg(self, a):
        k = const(a)
        if k is not None: return c(1, 1 - k)
        return a[1] if a[0] == "not" else ("not", a)
    def band(self, a, b):
        for x, y in ((a, b), (b, a)):
            k = const(x)
            if k is not None: return y if k else c(1, 0)
        return ("and", a, b)
    def bor(self, a, b):
        for x, y in ((a, b), (b, a)):
            k = const(x)
            if k is not None: return c(1, 1) if k else y
        return ("or", a, b)

# ---- interval sets with exact preimages ---------------------------------------------------------------------------
def norm(iv):
    r = []
    for lo, hi in sorted(iv):
        if lo > hi: continue
        if r and lo <= r[-1][1] + 1: r[-1] = (r[-1][0], max(r[-1][1], hi))
        else: r.append((lo, hi))
    return tuple(r)
def comp(iv, w):
    r, at = [], 0
    for lo, hi in iv:
        if at < lo: r.append((at, lo - 1))
        at = hi + 1
    if at < 1 << w: r.append((at, (1 << w) - 1))
    return tuple(r)
def meet(a, b): return norm((max(x, u), min(y, v)) for x, y in a for u, v in b)
def bitwise(iv, w, f, within=None):
    """{x in within : apply f bit by bit to x lands in iv}; f(bit position, x bit) -> result bit"""
    within = within or ((0, (1 << w) - 1),)
    def rec(bit, lo, at):       # the x in the block of 2^bit starting at `at`, whose result block starts at lo
        size = 1 << bit
        here = meet(within, ((at, at + size - 1),))
        if not here: return ()
        part = meet(iv, ((lo, lo + size - 1),))
        if not part: return ()
        if part == ((lo, lo + size - 1),): return here
        h = size >> 1; out = []
        for xb in (0, 1): out += rec(bit - 1, lo + (f(bit - 1, xb) << (bit - 1)), at + xb * h)
        if len(out) > 200: raise Unsupported("mask too irregular")
        return norm(out)
    return rec(w, 0, 0)
def pre(t, iv, var, within=None):
    """values of the variable for which term t lies in the interval set"""
    w = width(t)
    if t == var: return iv
    if t[0] == "c": return None if any(lo <= t[2] <= hi for lo, hi in iv) else ()
    if islin(t):
        if len(t[1]) != 1 or t[1][0][1] not in (1, -1): raise Unsupported("linear term")
        (x, f), k = t[1][0], t[2] & ((1 << 64) - 1); M = 1 << 64
        s = rotate(iv, 64, k) if f == 1 else norm(((k - hi) % M, (k - lo) % M) if (k - hi) % M <= (k - lo) % M else (0, M - 1) for lo, hi in iv)
        return pre(x, meet(s, ((0, (1 << width(x)) - 1),)), var, within) if width(x) < 64 else pre(x, s, var, within)
    if t[0] == "op":
        o, a, b = t[2], t[3], t[4]
        if o == "zext": return pre(a, meet(iv, ((0, (1 << width(a)) - 1),)), var, within)
        if o == "sext":
            n = width(a); return pre(a, norm(list(meet(iv, ((0, (1 << (n - 1)) - 1),))) + [(lo - (1 << w) + (1 << n), hi - (1 << w) + (1 << n)) for lo, hi in meet(iv, (((1 << w) - (1 << (n - 1)), (1 << w) - 1),))]), var, within)
        if o == "trunc":
            n, out = width(a), []
            if n - w > 12: raise Unsupported("wide truncation")
            for k in range(1 << (n - w)): out += [(lo + (k << w), hi + (k << w)) for lo, hi in iv]
            return pre(a, norm(out), var, within)
        k = const(b)
        if k is None:
            k2 = const(a)
            if k2 is None or o not in ("add", "and", "or", "xor", "sub"): raise Unsupported("two variables")
            if o == "sub": return pre(b, norm(p for lo, hi in iv for p in (((k2 - hi) % (1 << w), (k2 - lo) % (1 << w)),) if p[0] <= p[1]), var, within)
            a, k = b, k2
        k &= (1 << w) - 1
        if o == "add": return pre(a, rotate(iv, w, k), var, within)
        if o == "sub": return pre(a, rotate(iv, w, -k), var, within)
        if o == "xor": return pre(a, bitwise(iv, w, lambda i, x: x ^ (k >> i & 1), within if a == var else None), var, within)
        if o == "and": return pre(a, bitwise(iv, w, lambda i, x: x & (k >> i & 1), within if a == var else None), var, within)
        if o == "or": return pre(a, bitwise(iv, w, lambda i, x: x | (k >> i & 1), within if a == var else None), var, within)
        if o == "lshr": return pre(a, norm((lo << k, min(((hi + 1) << k) - 1, (1 << w) - 1)) for lo, hi in iv if lo << k < 1 << w), var, within)
        if o == "udiv" and k: return pre(a, norm((lo * k, min(hi * k + k - 1, (1 << w) - 1)) for lo, hi in iv if lo * k < 1 << w), var, within)
    raise Unsupported(f"preimage of {t[0]} {t[2] if t[0] == 'op' else ''}")
def rotate(iv, w, k):
    """{x : x + k mod 2^w in iv}"""
    M, out = 1 << w, []
    for lo, hi in iv:
        a, b = (lo - k) % M, (hi - k) % M
        out += [(a, b)] if a <= b else [(0, b), (a, M - 1)]
    return norm(out)
def bits_minus(a, b, w): return meet(a, comp(b, w))
class Range:
    """the values of one variable, as an interval set"""
    W = None
    def __init__(s, var, iv): s.var, s.iv = var, iv
    def load(s, t, seg): pass
    def both(s, t, f):
        try: return f(t[1], t[2])
        except Unsupported: return f(t[2], t[1])
    def truth(s, t, within):
        W = width(s.var)
        if W <= 16 and variables(t) == {s.var[2]}:      # few enough values for the full powerset
            return norm((x, x) for lo, hi in within for x in range(lo, hi + 1) if ev(t, {s.var[2]: x}, s.W))
        k = const(t)
        if k is not None: return within if k else ()
        if t[0] == "not": return bits_minus(within, s.truth(t[1], within), W)
        if t[0] == "and": return s.both(t, lambda a, b: s.truth(b, s.truth(a, within)))
        if t[0] == "or": return s.both(t, lambda x, y: (lambda a: norm(a + s.truth(y, bits_minus(within, a, W))))(s.truth(x, within)))
        if t[0] == "cmp":
            p, a, b = t[1:]; w = width(a)
            if const(a) is not None: a, b, p = b, a, {"u": "u", "s": "s"}.get(p[0], "") + {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(p[1:], "") if p not in ("eq", "ne") else p
            k = const(b)
            if k is None: raise Unsupported("comparison of two variables")
            k &= (1 << w) - 1; M = (1 << w) - 1
            if p in ("eq", "ne"): iv = ((k, k),)
            elif p[0] == "u": iv = norm([{"ult": (0, k - 1), "ule": (0, k), "ugt": (k + 1, M), "uge": (k, M)}[p]])
            else:
                H, ks = 1 << (w - 1), sgn(k, w)
                lo, hi = {"slt": (-H, ks - 1), "sle": (-H, ks), "sgt": (ks + 1, H - 1), "sge": (ks, H - 1)}[p]
                iv = norm(([(max(lo, 0), hi)] if hi >= 0 else []) + ([((lo + 2 * H), (min(hi, -1) + 2 * H))] if lo < 0 else []))
            if not within: return ()
            r = pre(a, iv, s.var, within)
            r = within if r is None else meet(r, within)
            return bits_minus(within, r, W) if p == "ne" else r
        raise Unsupported("condition " + t[0])
    def assume(s, t, want):
        try: iv = s.truth(t, s.iv)
        except Unsupported:
            if s.var[2] in variables(t) and not (variables(t) - {s.var[2]}): raise
            return [s.other(t, want)]
        iv = iv if want else bits_minus(s.iv, iv, width(s.var))
        return [type(s)(s.var, iv)] if iv else []
    def other(s, t, want): return s

# ---- where each bit of a term comes from ----------------------------------------------------------------------------
def provenance(t, var, iv):
    """[bit 0, bit 1, ...]: 0, 1, i (bit i of the variable) or None; bits no value of iv has are 0"""
    top = max((hi for lo, hi in iv), default=0).bit_length()
    def rec(t):
        w = width(t)
        if t == var: return [("b", i) if i < top else 0 for i in range(w)]
        k = const(t)
        if k is not None: return [k >> i & 1 for i in range(w)]
        if islin(t):
            if len(t[1]) == 1 and t[2] == 0 and t[1][0][1] > 0 and t[1][0][1] & (t[1][0][1] - 1) == 0:
                x = rec(t[1][0][0]); n = t[1][0][1].bit_length() - 1
                return ([0] * n + x + [0] * 64)[:64]
            return [None] * 64
        if t[0] != "op": return [None] * w
        o, x = t[2], rec(t[3])
        if o == "zext": return (x + [0] * w)[:w]
        if o == "sext": return (x + [x[-1]] * w)[:w]
        if o == "trunc": return x[:w]
        n = const(t[4])
        if o in ("shl", "lshr") and n is not None: return ([0] * n + x)[:w] if o == "shl" else (x[n:] + [0] * w)[:w]
        y = rec(t[4])
        if o == "and": return [0 if 0 in (a, b) else b if a == 1 else a if b == 1 or a == b else None for a, b in zip(x, y)]
        if o == "or" : return [1 if 1 in (a, b) else b if a == 0 else a if b == 0 or a == b else None for a, b in zip(x, y)]
        if o == "xor": return [b if a == 0 else a if b == 0 else 0 if a == b == 1 else None for a, b in zip(x, y)]
        if o == "add" and all(0 in (a, b) for a, b in zip(x, y)): return [b if a == 0 else a for a, b in zip(x, y)]
        if o == "sub" and all(b == 0 or a == b for a, b in zip(x, y)): return [a if b == 0 else 0 for a, b in zip(x, y)]
        if o == "udiv" and n and n & (n - 1) == 0: k = n.bit_length() - 1; return (x[k:] + [0] * w)[:w]
        if o == "urem" and n and n & (n - 1) == 0: k = n.bit_length() - 1; return (x[:k] + [0] * w)[:w]
        return [None] * w
    return rec(t)
