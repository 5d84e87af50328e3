"""Effects of a function along each path of its control-flow graph, read off optimised LLVM IR.

`Module(text).paths(fn)` -> [Path]; a Path has `.conds` [(term, taken)], `.effects` [("call", callee, args) |
("store", addr, type, value) | ("copy", dst, src, size)], `.ret` (term or None) and `.end` ("ret" | "unreachable" | "loop").
Terms are strings; addresses are `base+offset` in bytes.
"""
import re, struct

class Unsupported(Exception): pass

def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    q = False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "([{<": d += 1
            elif ch in ")]}>": d -= 1
            if ch == sep and d == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Path:
    def __init__(s): s.conds, s.effects, s.ret, s.end = [], [], None, None
    def calls(s): return [e for e in s.effects if e[0] == "call"]

ATTR = re.compile(r"^(?:noundef|nonnull|noalias|nocapture|readonly|writeonly|readnone|returned|immarg|signext|zeroext|inreg|writable|dead_on_unwind|noext|nofree|swiftself|dead_on_return|captures\([^)]*\)|align \d+|dereferenceable(?:_or_null)?\(\d+\)|range\([^)]*\)\)?|nofpclass\([^)]*\)|initializes\(\([^)]*\)\)|sret\((?:[^()]|\([^()]*\))*\)|byval\((?:[^()]|\([^()]*\))*\)|elementtype\([^)]*\))\s*")

class Module:
    def __init__(self, text):
        self.types, self.fns, self.decls, self.globals = {}, {}, set(), {}
        cur = None
        for l in text.splitlines():
            if cur is not None:
                if l.startswith("}"): cur = None; continue
                self.fns[cur][1].append(l); continue
            m = re.match(r'(%[\w.:"$<>, ]+?) = type (.*)$', l)
            if m: self.types[m[1]] = m[2]; continue
            if l.startswith("define "):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
                name = m[1].strip('"')
                i = m.end(); d = 1; j = i
                while d: d += {"(": 1, ")": -1}.get(l[j], 0); j += 1
                ps = []
                for k, p in enumerate(split_top(l[i:j - 1])):
                    t, rest = self.ty(p)
                    rest = self.attrs(rest)
                    ps.append((t, rest or f"%{k}"))
                self.fns[name] = (ps, []); cur = name; continue
            m = re.match(r"declare .*?@(\"[^\"]+\"|[\w.$]+)\(", l)
            if m: self.decls.add(m[1].strip('"'))
            m = re.match(r"@(\"[^\"]+\"|[\w.$]+) = (.*)$", l)
            if m: self.globals[m[1].strip('"')] = m[2]
        self._b = {}
    # -- types
    def attrs(self, s):
        s = s.strip()
        while True:
            m = ATTR.match(s)
            if not m or not m.end(): return s.strip()
            s = s[m.end():]
    def ty(self, s):
        """(type, rest) of text starting with a type"""
        s = s.strip()
        if s[0] in "[{<":
            d = 0
            for i, ch in enumerate(s):
                if ch in "[{<": d += 1
                elif ch in "]}>":
                    d -= 1
                    if d == 0: return s[:i + 1], s[i + 1:].strip()
        m = re.match(r'(%"[^"]+"|%[\w.$:]+|ptr addrspace\(\d+\)|[a-z]\w*)\s*', s)
        if not m: raise Unsupported("type " + s[:40])
        return m[1], s[m.end():].strip()
    def size_align(self, t):
        if t == "ptr": return 8, 8
        m = re.fullmatch(r"i(\d+)", t)
        if m:
            n = (int(m[1]) + 7) // 8
            p = 1
            while p < n: p *= 2
            return p, min(p, 16)
        if t in ("float",): return 4, 4
        if t in ("double",): return 8, 8
        if t == "half": return 2, 2
        m = re.fullmatch(r"\[(\d+) x (.*)\]", t)
        if m: s, a = self.size_align(m[2]); return int(m[1]) * s, a
        m = re.fullmatch(r"<(\d+) x (.*)>", t)
        if m: s, a = self.size_align(m[2]); return int(m[1]) * s, int(m[1]) * s
        if t.startswith("%"): return self.size_align(self.types[t])
        packed = t.startswith("<{")
        if t.startswith("{") or packed:
            off, al = 0, 1
            for f in split_top(t.strip("<>")[1:-1]):
                s, a = self.size_align(f)
                if packed: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("size of " + t)
    def field(self, t, i):
        if t.startswith("%"): t = self.types[t]
        m = re.fullmatch(r"\[(\d+) x (.*)\]", t)
        if m: return m[2], i * self.size_align(m[2])[0]
        packed = t.startswith("<{"); off = 0
        for k, f in enumerate(split_top(t.strip("<>")[1:-1] if packed else t[1:-1])):
            s, a = self.size_align(f)
            if packed: a = 1
            off = (off + a - 1) // a * a
            if k == i: return f, off
            off += s
    # -- blocks
    def blocks(self, fn):
        if fn in self._b: return self._b[fn]
        ps, lines = self.fns[fn]
        out, lab = {}, str(len(ps))
        order = [lab]; out[lab] = []
        pend = None
        for l in lines:
            l = re.sub(r", !\w+ ![\w]+", "", l).split(" ; ")[0].rstrip()
            l = re.sub(r",? !(?:tbaa|noundef|range|alias\.scope|noalias|srcloc|prof|dbg|annotation|heapallocsite|nosanitize|noalias)\S* !?\S+", "", l)
            if not l.strip(): continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                lab = m[1].strip('"'); out[lab] = []; order.append(lab)
                if len(order) == 2 and not out[order[0]]: del out[order[0]]; order.pop(0)
                continue
            if pend is not None:
                pend += " " + l.strip()
                if l.strip() == "]": out[lab].append(pend); pend = None
                continue
            if re.match(r"\s+switch ", l) and not l.rstrip().endswith("]"): pend = l.strip(); continue
            if re.match(r"\s+(to label|unwind label)", l) or re.match(r"\s+(cleanup|catch|filter)", l): out[lab][-1] += " " + l.strip(); continue
            out[lab].append(l.strip())
        self._b[fn] = (order[0], out)
        return self._b[fn]
    # -- terms
    def val(self, s, t, env):
        s = s.strip()
        s = self.attrs(s)
        if s.startswith("%"):
            if s in env: return env[s]
            return "?" + s
        if s.startswith("@"): return s.replace('"', "")
        if s in ("null", "zeroinitializer", "false"): return "0"
        if s == "true": return "1"
        if s in ("undef", "poison"): return "undef"
        m = re.match(r"getelementptr (?:inbounds |nuw |nusw |inrange\([^)]*\) )*\((.*)\)$", s)
        if m: return self.gep(m[1], env)
        m = re.match(r"(?:inttoptr|ptrtoint|bitcast) \((\S+) (.*) to .*\)$", s)
        if m: return self.val(m[2], m[1], env)
        return s
    def add(self, base, off):
        m = re.fullmatch(r"(.*)\+(-?\d+)", base)
        if m and m[1].count("(") == m[1].count(")"): base, off = m[1], off + int(m[2])
        return base if off == 0 else f"{base}+{off}"
    def gep(self, s, env):
        parts = split_top(s)
        t = parts[0]
        bt, b = self.ty(parts[1])
        base = self.val(b, bt, env)
        off, dyn = 0, ""
        for k, ix in enumerate(parts[2:]):
            it, iv = self.ty(ix)
            v = self.val(iv, it, env)
            if re.fullmatch(r"-?\d+", v):
                if k == 0: off += int(v) * self.size_align(t)[0]
                else: t, o = self.field(t, int(v)); off += o
            else:
                if k == 0: dyn += f"+{v}*{self.size_align(t)[0]}"
                else:
                    e, _ = self.field(t, 0); dyn += f"+{v}*{self.size_align(e)[0]}"; t = e
        r = self.add(base, off)
        return r + ("[" + dyn[1:] + "]" if dyn else "")
    # -- paths
    def paths(self, fn, limit=400, revisit=1, hook=None, kills=None, mem=None):
        """hook(path, callee, args) -> a term for the call's result, or None; kills(callee, args) -> [(addr, size)]
        the call may write, or None for "anything but unescaped locals"; mem: initial contents."""
        ps, _ = self.fns[fn]
        env = {n: f"a{k}" for k, (t, n) in enumerate(ps)}
        self._limit, self._n, self._revisit = limit, 0, revisit
        self._hook, self._kills = hook, kills
        out = []
        entry, _ = self.blocks(fn)
        self._walk(fn, entry, None, env, dict(mem or {}), Path(), {}, out)
        return out
    def _clone(self, p):
        q = Path(); q.conds, q.effects = list(p.conds), list(p.effects); return q
    def _walk(self, fn, lab, pred, env, mem, path, seen, out):
        _, blocks = self.blocks(fn)
        while True:
            if seen.get(lab, 0) >= self._revisit:
                path.end = "loop"; out.append(path); return
            seen = dict(seen); seen[lab] = seen.get(lab, 0) + 1
            ins = blocks[lab]
            phis = {}
            for i, l in enumerate(ins):
                m = re.match(r"(%[\w.\"$-]+) = phi (.*)$", l)
                if not m: break
                t, rest = self.ty(re.sub(r"^(?:fast|nnan|ninf|nsz|contract)+ ", "", m[2]))
                for v, b in re.findall(r"\[ (.+?), %(\"[^\"]+\"|[\w.$-]+) \]", rest):
                    if b.strip('"') == pred: phis[m[1]] = self.val(v, t, env); break
            env = dict(env); env.update(phis)
            nxt = self._block(fn, [l for l in ins if " = phi " not in l], env, mem, path, seen, out, lab)
            if nxt is None: return
            lab, pred = nxt, lab
    def _cond(self, path, term, want):
        """None if the path contradicts"""
        if re.fullmatch(r"-?\d+", term): return (int(term) != 0) == want
        neg = re.fullmatch(r"not\((.*)\)", term)
        if neg: return self._cond(path, neg[1], not want)
        for c, w in path.conds:
            if c == term: return w == want
        path.conds.append((term, want))
        return True
    def fork(self, path, env, mem): return self._clone(path), dict(env), dict(mem)
    def _tick(self):
        self._n += 1
        if self._n > self._limit: raise Unsupported("too many paths")
    def _block(self, fn, ins, env, mem, path, seen, out, lab):
        for i, l in enumerate(ins):
            m = re.match(r"(?:(%(?:\"[^\"]+\"|[\w.$-]+)) = )?(.*)$", l)
            dst, s = m[1], m[2]
            op = s.split()[0]
            if op in ("tail", "musttail", "notail"): s = s.split(None, 1)[1]; op = "call"
            if op == "ret":
                x = s[4:].strip()
                if x != "void":
                    t, v = self.ty(x); path.ret = self.val(v, t, env)
                path.end = "ret"; out.append(path); return None
            if op == "unreachable": path.end = "unreachable"; out.append(path); return None
            if op == "br":
                ls = [x.strip('"') for x in re.findall(r"label %(\"[^\"]+\"|[\w.$-]+)", s)]
                if len(ls) == 1: return ls[0]
                c = self.val(re.match(r"br i1 (.*?), label", s)[1], "i1", env)
                self._tick()
                p2, e2, m2 = self.fork(path, env, mem)
                if self._cond(p2, c, False): self._walk(fn, ls[1], lab, e2, m2, p2, seen, out)
                if not self._cond(path, c, True): return None
                # continue with the taken branch in the same frame
                self._walk(fn, ls[0], lab, env, mem, path, seen, out)
                return None
            if op == "switch":
                t, rest = self.ty(s[7:])
                v = self.val(rest.split(", label")[0], t, env)
                d = re.search(r"label %(\"[^\"]+\"|[\w.$-]+) \[", s)[1].strip('"')
                cs = [(a, b.strip('"')) for a, b in re.findall(r"i\d+ (-?\d+), label %(\"[^\"]+\"|[\w.$-]+)", s[s.index("["):])]
                if re.fullmatch(r"-?\d+", v):
                    return dict(cs).get(v, d)
                for a, b in cs:
                    self._tick()
                    p2, e2, m2 = self.fork(path, env, mem)
                    if self._cond(p2, f"icmp eq({v}, {a})", True): self._walk(fn, b, lab, e2, m2, p2, seen, out)
                for a, b in cs:
                    if not self._cond(path, f"icmp eq({v}, {a})", False): return None
                self._walk(fn, d, lab, env, mem, path, seen, out)
                return None
            if op == "select":
                parts = split_top(re.sub(r"^select (?:fast |nnan |ninf |nsz )*", "", s))
                c = self.val(self.ty(parts[0])[1], "i1", env)
                ab = [self.val(self.ty(p)[1], "", env) for p in parts[1:3]]
                self._tick()
                p2, e2, m2 = self.fork(path, env, mem)
                if self._cond(p2, c, False):
                    e2[dst] = ab[1]
                    n = self._block(fn, ins[i + 1:], e2, m2, p2, seen, out, lab)
                    if n is not None: self._walk(fn, n, lab, e2, m2, p2, seen, out)
                if not self._cond(path, c, True): return None
                env[dst] = ab[0]; continue
            if op in ("call", "invoke"):
                r = self._call(s, env, mem, path)
                if dst: env[dst] = r
                if op == "invoke": return re.search(r"to label %(\"[^\"]+\"|[\w.$-]+)", s)[1].strip('"')
                continue
            if op == "store":
                body = re.sub(r"^store (?:volatile |atomic )*", "", s)
                a, b = split_top(body)[:2]
                t, v = self.ty(a); v = self.val(v, t, env); p = self.val(self.ty(b)[1], "ptr", env)
                for k in [k for k in mem if not self.disjoint(k, p)]: del mem[k]
                mem[p] = v
                if not p.startswith("loc"): path.effects.append(("store", p, t, v))
                else: path.effects.append(("store", p, t, v))
                continue
            if op == "load":
                body = re.sub(r"^load (?:volatile |atomic )*", "", s)
                a, b = split_top(body)[:2]
                p = self.val(self.ty(b)[1], "ptr", env)
                env[dst] = mem.get(p) or f"ld:{a}({p})"
                continue
            if op == "getelementptr": env[dst] = self.gep(re.sub(r"^getelementptr (?:inbounds |nuw |nusw )*", "", s), env); continue
            if op == "alloca": env[dst] = "loc" + dst[1:]; continue
            m2 = re.match(r"(zext|sext|trunc|bitcast|inttoptr|ptrtoint|freeze|sitofp|uitofp|fpext|addrspacecast)(?: (?:nneg|nuw|nsw))* (.*)$", s)
            if m2:
                a = m2[2].split(" to ")[0]; t, v = self.ty(a); v = self.val(v, t, env)
                to = m2[2].split(" to ")[-1].strip()
                if m2[1] == "trunc" and re.fullmatch(r"-?\d+", v): v = str(int(v) & ((1 << int(to[1:])) - 1))
                env[dst] = v if m2[1] != "trunc" or to == "i1" and "(" in v else (v if re.fullmatch(r"-?\d+", v) else f"trunc:{to}({v})")
                continue
            if op == "icmp":
                m2 = re.match(r"icmp (?:samesign )?(\w+) (.*)$", s)
                parts = split_top(m2[2]); t, a = self.ty(parts[0])
                a, b = self.val(a, t, env), self.val(parts[1], t, env)
                env[dst] = self.cmp(m2[1], a, b); continue
            m2 = re.match(r"(\w+)(?: (?:nuw|nsw|exact|disjoint|fast|nnan))* (.*)$", s)
            if m2 and op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
                parts = split_top(m2[2]); t, a = self.ty(parts[0])
                a, b = self.val(a, t, env), self.val(parts[1], t, env)
                env[dst] = self.arith(op, a, b, t); continue
            if op in ("insertvalue", "extractvalue"):
                if op == "insertvalue":
                    parts = split_top(s[len(op):]); t, agg = self.ty(parts[0]); t2, v = self.ty(parts[1])
                    base = self.val(agg, t, env); base = "" if base == "undef" else base + "|"
                    env[dst] = f"{base}{parts[2]}:{self.val(v, t2, env)}"
                else:
                    parts = split_top(s[len(op):]); t, agg = self.ty(parts[0])
                    env[dst] = f"ext({self.val(agg, t, env)},{parts[1]})"
                continue
            if op in ("fence", "resume"): path.end = "unreachable" if op == "resume" else None; continue
            if dst: env[dst] = f"{op}({', '.join(self.val(self.ty(x)[1] if ' ' in x else x, '', env) for x in split_top(s[len(op):]) if x)})" if False else f"{op}?{dst}"
        raise Unsupported("fell off block " + lab)
    def cmp(self, pred, a, b):
        if re.fullmatch(r"-?\d+", a) and re.fullmatch(r"-?\d+", b):
            x, y = int(a), int(b)
            return str(int({"eq": x == y, "ne": x != y, "ult": x < y, "ugt": x > y, "ule": x <= y, "uge": x >= y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y}[pred]))
        if pred in ("eq", "ne") and getattr(self, "distinct", False):
            (ba, oa), (bb, ob) = self.addr(a), self.addr(b)
            obj = lambda x: re.fullmatch(r"a\d+|@\S+|loc\S+|call\d+:_Zn[wa]m", x)
            if obj(ba) and obj(bb) and oa is not None and ob is not None: return str(int((a == b) == (pred == "eq")))
            if obj(ba) and b == "0" or obj(bb) and a == "0": return str(int(pred == "ne"))
        if pred == "ne": return f"not(icmp eq({a}, {b}))"
        if pred in ("eq",) and a > b: a, b = b, a
        return f"icmp {pred}({a}, {b})"
    def arith(self, op, a, b, t):
        if re.fullmatch(r"-?\d+", a) and re.fullmatch(r"-?\d+", b) and op in ("add", "sub", "mul", "and", "or", "xor"):
            x, y = int(a), int(b)
            return str({"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[op])
        if op == "add" and re.fullmatch(r"-?\d+", b): return self.add(a, int(b))
        if op == "xor" and t == "i1" and b in ("1", "-1"): return a[4:-1] if a.startswith("not(") else f"not({a})"
        return f"{op}({a}, {b})"
    def disjoint(self, p, q):
        bp, bq = re.split(r"[+\[]", p)[0], re.split(r"[+\[]", q)[0]
        if bp != bq: return bp.startswith("loc") or bq.startswith("loc")
        return p != q and "[" not in p + q
    def _call(self, s, env, mem, path):
        m = re.search(r"(@(?:\"[^\"]+\"|[\w.$-]+)|%(?:\"[^\"]+\"|[\w.$-]+))\(", s)
        if not m: 
            path.effects.append(("call", "asm", ())); return "asm"
        callee = m[1]
        i = m.end(); d = 1; j = i
        q = False
        while d:
            if s[j] == '"': q = not q
            elif not q: d += {"(": 1, ")": -1}.get(s[j], 0)
            j += 1
        args = []
        for a in split_top(s[i:j - 1]):
            if a.startswith("metadata"): args.append("md"); continue
            t, v = self.ty(a)
            args.append(self.val(self.attrs(v), t, env))
        name = callee[1:].strip('"') if callee.startswith("@") else self.val(callee, "ptr", env).lstrip("@")
        if name.startswith("llvm."):
            if re.match(r"llvm\.(memcpy|memmove)", name):
                path.effects.append(("copy", args[0], args[1], args[2]))
                moved = {}
                if args[2].isdigit():
                    (sb, so), (db, do) = self.addr(args[1]), self.addr(args[0])
                    for k, v in mem.items():
                        kb, ko = self.addr(k)
                        if kb == sb and so is not None and ko is not None and so <= ko < so + int(args[2]) and do is not None: moved[self.add(db, do + ko - so)] = v
                for k in [k for k in mem if not self.disjoint_range(k, args[0], args[2])]: del mem[k]
                mem.update(moved)
                return ""
            if name.startswith("llvm.memset"):
                path.effects.append(("set", args[0], args[1], args[2])); mem.clear(); return ""
            if name in ("llvm.trap", "llvm.ubsantrap"): path.effects.append(("call", name, ()))
            if name.startswith("llvm.expect"): return args[0]
            if re.match(r"llvm\.(lifetime|assume|dbg|experimental\.noalias|invariant|stackrestore|stacksave|donothing)", name): return ""
            return f"{name}({', '.join(args)})"
        r = self._hook(path, name, args) if self._hook else None
        path.effects.append(("call", name, tuple(args)))
        ks = self._kills(name, args) if self._kills else None
        if ks is not None:
            for a, n in ks:
                for k in [k for k in mem if not self.disjoint_range(k, a, str(n))]: del mem[k]
        else:
            for k in [k for k in mem if not k.startswith("loc")]: del mem[k]
            for k in [k for k in mem if any(self.addr(k)[0] in a for a in args)]: del mem[k]
        if r is not None: return r
        n = sum(1 for e in path.effects if e[0] == "call")
        return f"call{n}:{name}"
    def addr(self, p):
        """(base, offset) of an address term; offset None when it is not a constant"""
        m = re.fullmatch(r"([^\[]*?)(?:\+(-?\d+))?", p)
        if m and m[1].count("(") == m[1].count(")"): return m[1], int(m[2] or 0)
        if not p.endswith("]"): return p, 0
        return re.split(r"[+\[]", p)[0], None
    def disjoint_range(self, p, d, n):
        (bp, op), (bd, od) = self.addr(p), self.addr(d)
        if bp != bd: return bp.startswith("loc") or bd.startswith("loc") or (bp[0] == bd[0] == "a" and bp[1:].isdigit() and bd[1:].isdigit())
        if op is None or od is None or not n.isdigit(): return False
        return not (od <= op < od + int(n))

def demangle(names):
    import subprocess
    names = list(names)
    r = subprocess.run(["llvm-cxxfilt-18"] if subprocess.run(["which", "llvm-cxxfilt-18"], capture_output=True).returncode == 0 else ["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.splitlines()))
