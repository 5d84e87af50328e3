"""Typestate of in-place storage over drop-elaborated MIR, including every unwind path.

`Exec(F, ...)` follows all paths of one function (calls that can fail fork into return
and unwind; calls into analysed crates are inlined).  A tracked piece of storage is
uninitialised (U), live (I) or moved out (M); constructing needs U, dropping or reading
needs I.  Nothing is executed and no solver is used: values are tags, branches on
unknown values follow every edge."""
from core import Broken
import re
def last(p): return re.sub(r"::<.*>$", "", p).rsplit("::", 1)[-1]
UNIT = ("unit",)
def var(adt, v, *xs): return ("agg", adt, v, tuple((str(i), x) for i, x in enumerate(xs)))
OK = lambda x: var("Result", "Ok", x)
ERR = lambda x: var("Result", "Err", x)
NODROP = re.compile(r"^(&|\*|fn\(|bool$|\(\)$|[iu](8|16|32|64|128|size)$|f32$|f64$|char$|!$|core::marker::PhantomData|core::mem::(maybe_uninit::)?MaybeUninit|core::mem::(manually_drop::)?ManuallyDrop|core::pin::Pin<&|core::convert::Infallible)")
ABORT = ("core::intrinsics::abort", "std::process::abort", "core::process::abort", "core::panicking::panic_in_cleanup")
class St:
    __slots__ = ("mem", "obj", "made", "bad", "n")
    def __init__(s, mem=None, obj=None, made=(), bad=()): s.mem, s.obj, s.made, s.bad, s.n = mem or {}, obj or {}, made, bad, 0
    def copy(s): return St(dict(s.mem), dict(s.obj), s.made, s.bad)
class Exec:
    def __init__(self, F, maxpaths=4000, quiet=False):
        self.F, self.fid, self.uid, self.paths, self.maxpaths = F, 0, 0, 0, maxpaths
        self.opaque = {}
        self.quiet = quiet      # destructors of values other than the tracked storage do not panic
        self.drops = {}
        for p in F.bodies:
            m = re.search(r"<(?:impl )?([\w:]+?)(?:<.*)? as (?:[\w:]+::)?Drop>::drop$", p)
            if m: self.drops[last(m.group(1))] = p
    # ------------------------------------------------------------ objects
    def new(self, st, state="U"):
        self.uid += 1; i = f"o{self.uid}"; st.obj[i] = state; st.made += (i,); return i
    def fresh(self, what="?"): self.uid += 1; return ("u", f"{what}#{self.uid}")
    def state(self, st, o):
        while o not in st.obj:
            if "." not in o: return None
            o = o.rsplit(".", 1)[0]
        return st.obj[o]
    def subs(self, st, o): return [x for x in st.obj if x.startswith(o + ".")]
    def whole(self, st, o, s):
        """is the object, with all its parts, in state s"""
        xs = self.subs(st, o)
        return st.obj.get(o) == s and all(st.obj[x] == s for x in xs) if not xs else all(st.obj[x] == s for x in xs)
    def setw(self, st, o, s):
        st.obj[o] = s
        for x in self.subs(st, o): st.obj[x] = s
    def fail(self, st, msg): st.bad += (msg,)
    def need(self, st, o, want, act):
        s = self.state(st, o)
        xs = [st.obj[x] for x in self.subs(st, o)]
        if all(x == want for x in (xs or [s])): return
        s = next((x for x in (xs or [s]) if x != want), s)
        word = {"U": "uninitialised", "I": "live", "M": "moved-out"}
        self.fail(st, f"{act} {word.get(s, s)} storage")
    # ------------------------------------------------------------ memory
    def read(self, st, loc):
        if loc[0] == "O": return ("at", loc[1])
        if loc[0] == "U": return ("u", loc[1])
        v = st.mem.get(loc[1])
        if v is None: return ("undef",)
        for p in loc[2]: v = self.proj(v, p)
        return v
    def proj(self, v, p):
        if p[0] == "@": return v
        if v[0] in ("agg", "clo"):
            n = p[1:].lstrip("^")
            for k, x in v[3]:
                if k.lstrip("^") == n: return x
            if len(v[3]) == 1 and n in ("0", "pointer", "value", "__pointer"): return v[3][0][1]
            return ("u", f"{v[1]}.{n}")
        if v[0] == "u": return ("u", v[1] + p)
        if v[0] in ("obj", "addr", "sto", "box") : return v      # a field of a wrapper of a pointer
        return ("u", f"{v[0]}{p}")
    def write(self, st, loc, v):
        if loc[0] == "U": return
        if loc[0] == "O":
            if loc[1] in st.obj or self.state(st, loc[1]) is not None:
                self.need(st, loc[1], "U", "writes over"); self.setw(st, loc[1], "I")
            return
        if not loc[2]: st.mem[loc[1]] = v; return
        st.mem[loc[1]] = self.upd(st.mem.get(loc[1], ("agg", "?", None, ())), loc[2], v)
    def upd(self, base, ps, v):
        if not ps: return v
        p = ps[0]
        if p[0] == "@":
            if base[0] != "agg": base = ("agg", "?", p[1:], ())
            return self.upd(("agg", base[1], p[1:], base[3]), ps[1:], v)
        n = p[1:].lstrip("^")
        if base[0] not in ("agg", "clo"): base = ("agg", "?", None, ())
        fs, done = [], False
        for k, x in base[3]:
            if k.lstrip("^") == n: fs.append((k, self.upd(x, ps[1:], v))); done = True
            else: fs.append((k, x))
        if not done: fs.append((n, self.upd(("undef",), ps[1:], v)))
        return (base[0], base[1], base[2], tuple(fs))
    def loc(self, st, fr, place):
        l = ("L", (fr, place[0]), ())
        for p in place[1:]:
            if p == "*":
                v = self.read(st, l)
                l = self.target(v)
            elif l[0] == "O": l = ("O", l[1] + p) if p[0] == "." else l
            elif l[0] == "U": l = ("U", l[1] + p)
            else: l = (l[0], l[1], l[2] + (p,))
        return l
    def target(self, v):
        """the place a pointer value points to"""
        if v[0] == "addr": return ("L", v[1], v[2])
        if v[0] == "obj": return ("O", v[1])
        if v[0] == "box": return ("L", v[1], ())
        if v[0] == "agg" and len(v[3]) == 1: return self.target(v[3][0][1])
        if v[0] == "u": return ("U", v[1] + "*")
        return ("U", f"{v[0]}*")
    def refto(self, st, l):
        if l[0] == "O": return ("obj", l[1])
        if l[0] == "U": return ("u", "&" + l[1])
        return ("addr", l[1], l[2])
    def objof(self, st, v):
        """the tracked storage a pointer value refers to"""
        if v[0] == "obj": return v[1]
        if v[0] in ("addr", "box"):
            x = self.read(st, self.target(v))
            if x[0] == "sto": return x[1]
            if x[0] in ("box", "obj"): return self.objof(st, x)
            if x[0] == "agg" and len(x[3]) == 1 and x[3][0][1][0] == "sto": return x[3][0][1][1]
        if v[0] == "agg" and len(v[3]) == 1: return self.objof(st, v[3][0][1])
        return None
    def refs(self, st, v, d=0):
        """tracked storage reachable from a value"""
        out = set()
        if d > 6: return out
        if v[0] == "obj" or v[0] == "sto" or v[0] == "own": out.add(v[1])
        elif v[0] in ("addr", "box"):
            out |= self.refs(st, self.read(st, self.target(v)), d + 1)
        elif v[0] in ("agg", "clo"):
            for _, x in v[3]: out |= self.refs(st, x, d + 1)
        return out
    # ------------------------------------------------------------ execution
    def run(self, path, args, st):
        """[(kind, value, state)] with kind "ret" or "unw" """
        b = self.F.bodies.get(path)
        if b is None: raise Broken(f"no body {path}")
        if len(getattr(self, "stack", [])) > 12: raise Broken(f"call depth at {path}")
        self.stack = getattr(self, "stack", []) + [path]
        self.fid += 1; fr = self.fid
        st = st.copy()
        for i, a in enumerate(args): st.mem[(fr, i + 1)] = a
        out, work = [], [(0, st, ())]
        while work:
            u, s, seen = work.pop()
            self.paths += 1
            if self.paths > self.maxpaths: raise Broken(f"too many paths in {path}")
            if seen.count(u) > 2: raise Broken(f"loop in {path}")
            for v, s2 in self.block(b, fr, u, s, out): work.append((v, s2, seen + (u,)))
        self.stack = self.stack[:-1]
        return out
    def operand(self, st, fr, o):
        p = o.get("c") or o.get("m")
        if p is not None:
            l = self.loc(st, fr, p)
            v = self.read(st, l)
            if v[0] == "at":
                self.need(st, v[1], "I", "reads")
                if "m" in o: self.setw(st, v[1], "M"); return ("own", v[1])
                return ("u", "*" + v[1])
            return v
        k = o.get("k")
        if k is None: return ("c", 0)
        if "clo" in k: return ("clo", k["clo"], None, ())
        if "fn" in k: return ("fn", k.get("rs") or k["fn"], k)
        if "v" in k: return ("c", int(k["v"]))
        if k.get("ty") == "()": return UNIT
        return ("u", k.get("ty", "const"))
    def block(self, b, fr, u, st, out):
        bb = b.blocks[u]
        for p, r, ln in bb["s"]:
            k = r["r"]
            if k in ("live", "dead", "intr", "setdisc"): continue
            v = self.rvalue(b, fr, r, st)
            self.write(st, self.loc(st, fr, p), v)
        t = bb["t"]; k = t["t"]
        if k == "goto": return [(t["to"], st)]
        if k == "ret": out.append(("ret", st.mem.get((fr, 0), UNIT), st)); return []
        if k == "resume": out.append(("unw", None, st)); return []
        if k in ("terminate", "unreach"): return []
        if k == "assert":
            v = self.operand(st, fr, t["o"])
            return [(t["to"], st)] + self.unwind(t, st.copy(), out)
        if k == "sw":
            v = self.operand(st, fr, t["o"])
            vs = [(int(x), to) for x, to in t["vs"]]
            if v[0] == "c":
                return [(dict(vs).get(int(v[1]), t["ot"]), st)]
            res = []
            for x, to in vs + [(None, t["ot"])]:
                s2 = st.copy()
                if v[0] == "discu":
                    nm = v[2].get(str(x)) if x is not None else None
                    if nm is None and x is None:
                        rest = [n for i, n in v[2].items() if int(i) not in dict(vs)]
                        if v[2] and not rest: continue
                        nm = rest[0] if len(rest) == 1 else None
                    if nm: self.write(s2, v[1], ("agg", "?", nm, ()))
                elif v[0] == "u" and x is not None and t["ty"] == "bool":
                    p = t["o"].get("c") or t["o"].get("m")
                    self.write(s2, self.loc(s2, fr, p), ("c", x))
                elif v[0] == "u" and t["ty"] == "bool" and len(vs) == 1:
                    p = t["o"].get("c") or t["o"].get("m")
                    self.write(s2, self.loc(s2, fr, p), ("c", 1 - vs[0][0]))
                res.append((to, s2))
            return res
        if k == "drop":
            l = self.loc(st, fr, t["p"])
            return self.follow(t, self.drop(st, l, t["ty"]), out, None, fr)
        if k == "call":
            args = [self.operand(st, fr, a) for a in t["a"]]
            return self.follow(t, self.call(b, t, args, st, b.ty(t["d"][0]) if len(t["d"]) == 1 else ""), out, t["d"], fr)
        raise Broken(f"terminator {k}")
    def follow(self, t, outs, out, dest, fr):
        res = []
        for kind, v, s in outs:
            if kind == "ret":
                if t.get("to") is None: continue
                if dest is not None: self.write(s, self.loc(s, fr, dest), v)
                res.append((t["to"], s))
            else: res += self.unwind(t, s, out)
        return res
    def unwind(self, t, s, out):
        uw = t.get("uw")
        if isinstance(uw, int): return [(uw, s)]
        if uw == "cont": out.append(("unw", None, s))
        return []
    def rvalue(self, b, fr, r, st):
        k = r["r"]
        if k == "use": return self.operand(st, fr, r["o"])
        if k == "cast": return self.operand(st, fr, r["o"])
        if k in ("ref", "ptr"): return self.refto(st, self.loc(st, fr, r["p"]))
        if k == "disc":
            l = self.loc(st, fr, r["p"]); v = self.read(st, l)
            vs = r.get("vs") or {}
            if v[0] == "agg" and v[2] is not None:
                for i, n in vs.items():
                    if n == v[2]: return ("c", int(i))
            return ("discu", l, vs)
        if k == "agg":
            xs = [self.operand(st, fr, o) for o in r["os"]]
            if "clo" in r: return ("clo", r["clo"], None, tuple(zip(r["fs"], xs)))
            if "adt" in r: return ("agg", r["adt"], r["var"], tuple(zip(r["fs"], xs)) if len(r.get("fs", ())) == len(xs) else tuple((str(i), x) for i, x in enumerate(xs)))
            return ("agg", "tuple", None, tuple((str(i), x) for i, x in enumerate(xs)))
        if k == "un":
            v = self.operand(st, fr, r["o"])
            if v[0] == "c" and r["k"] == "Not": return ("c", 1 - int(v[1]))
            return self.fresh("un")
        if k == "bin":
            x, y = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            if x[0] == y[0] == "c":
                f = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b}.get(r["k"])
                if f: return ("c", int(f(x[1], y[1])))
            return self.fresh("bin")
        return self.fresh(k)
    # ------------------------------------------------------------ drops
    def seq(self, steps, st):
        """run steps (state -> outcomes) one after another; unwinding stops"""
        outs, cur = [], [st]
        for f in steps:
            nxt = []
            for s in cur:
                for kind, v, s2 in f(s):
                    if kind == "ret": nxt.append(s2)
                    else: outs.append((kind, v, s2))
            cur = nxt
        return outs + [("ret", UNIT, s) for s in cur]
    def drop(self, st, l, ty):
        v = self.read(st, l)
        if v[0] == "at": return self.dropobj(st, v[1])
        return self.dropval(st, l, v, ty)
    def dropobj(self, st, o):
        self.need(st, o, "I", "drops")
        self.setw(st, o, "U")
        return [("ret", UNIT, st), ("unw", None, st.copy())]
    def dropval(self, st, l, v, ty):
        if v[0] in ("c", "unit", "addr", "obj", "undef", "fn", "sto", "discu"): return [("ret", UNIT, st)]
        if v[0] == "own":
            st.obj[v[1]] = "M"
            return [("ret", UNIT, st), ("unw", None, st.copy())]
        if v[0] == "box":
            x = self.read(st, ("L", v[1], ()))
            if x[0] == "sto":
                if self.state(st, x[1]) == "I": self.fail(st, "frees storage that still holds a live value")
                return [("ret", UNIT, st)]
            return self.dropval(st, ("L", v[1], ()), x, "")
        if v[0] in ("agg", "clo"):
            steps = []
            d = self.drops.get(last(re.sub(r"<.*", "", v[1]))) if v[0] == "agg" else None
            if v[1] == "ManuallyDrop": return [("ret", UNIT, st)]
            if d is None and v[0] == "agg": d = self.drops.get(last(re.sub(r"<.*", "", ty or "")))
            if d is not None and l is not None:
                ptr = self.refto(st, l)
                steps.append(lambda s: [(k, UNIT, s2) for k, _, s2 in self.run(d, [ptr], s)])
            for n, x in v[3]:
                steps.append(lambda s, n=n, x=x: self.dropval(s, None if l is None else (l[0], l[1], l[2] + ("." + n,)) if l[0] == "L" else None, x, ""))
            return self.seq(steps, st)
        if self.quiet or NODROP.match(ty or ""): return [("ret", UNIT, st)]
        return [("ret", UNIT, st), ("unw", None, st.copy())]
    # ------------------------------------------------------------ calls
    def both(self, st, v): return [("ret", v, st), ("unw", None, st.copy())]
    def unknown(self, st, name, ty):
        if re.search(r"(^|::)Result<", ty): return [("ret", OK(self.fresh("ok")), st), ("ret", ERR(self.fresh("err")), st.copy()), ("unw", None, st.copy())]
        return self.both(st, self.fresh(name))
    def construct(self, st, p, act="constructs over", fallible=True):
        o = self.objof(st, p)
        e = st.copy()
        if o is None:
            return [("ret", OK(UNIT), st)] + ([("ret", ERR(self.fresh("err")), e)] if fallible else []) + [("unw", None, st.copy())]
        self.need(st, o, "U", act)
        u = st.copy(); e = st.copy()
        self.setw(st, o, "I")
        return [("ret", OK(UNIT), st)] + ([("ret", ERR(self.fresh("err")), e)] if fallible else []) + [("unw", None, u)]
    def apply(self, f, args, st, ty, why):
        """call a function value with a tuple of arguments"""
        if f[0] in ("addr", "box"): f2 = self.read(st, self.target(f)); f = f2 if f2[0] in ("clo", "fn", "u") else f
        if f[0] == "clo":
            b = self.F.bodies.get(f[1])
            if b is None: raise Broken(f"no body of closure {f[1]}")
            env = f
            if b.ty(1).startswith("&"):
                self.fid += 1; st.mem[(self.fid, "env")] = f; env = ("addr", (self.fid, "env"), ())
            return self.run(f[1], [env] + args, st)
        if f[0] == "fn":
            if f[1] in self.F.bodies: return self.run(f[1], args, st)
            return self.std(f[1], f[2], args, st, ty, None)
        return None
    def call(self, b, t, args, st, ty):
        f = t["f"]
        if "ind" in f: return self.unknown(st, "indirect", ty) if not any(self.refs(st, a) for a in args) else self.unmodelled("an indirect call", args, st)
        name = f.get("rs") or f.get("fn") or f.get("clo")
        decl = f.get("fn") or name
        if t.get("to") is None:
            if any(decl.endswith(x) for x in ABORT) or last(decl) == "abort": return []
            if name in self.F.bodies and name not in self.opaque: return self.run(name, args, st)
            return [("unw", None, st)]
        if decl == "ctor::Ctor::ctor" and len(args) == 2: return self.construct(st, args[1])
        if decl.startswith("core::ops::FnOnce::call_once") or decl.startswith("core::ops::FnMut::call_mut") or decl.startswith("core::ops::Fn::call"):
            xs = [x for _, x in args[1][3]] if args[1][0] == "agg" else [args[1]]
            r = self.apply(args[0], xs, st, ty, "call")
            if r is not None: return r
            tys = f.get("ga", ["", ""])[-1]
            os_ = [o for o in (self.objof(st, x) for x in xs) if o is not None]
            if not os_: return self.unknown(st, "callback", ty)
            if re.match(r"^\(\*mut ", tys): return [(k, UNIT, s) for k, v, s in self.construct(st, xs[0], fallible=False)]
            for o in os_: self.need(st, o, "I", "lends")
            return self.unknown(st, "callback", ty)
        r = self.std(name, f, args, st, ty, t)
        if r is not None: return r
        if name in self.F.bodies and name not in self.opaque: return self.run(name, args, st)
        if decl in self.F.bodies and decl not in self.opaque: return self.run(decl, args, st)
        if any(self.refs(st, a) for a in args): return self.unmodelled(decl, args, st)
        return self.unknown(st, last(decl), ty)
    def unmodelled(self, what, args, st): raise Broken(f"{what} takes tracked storage and has no model")
    IDENT = ("into_inner_unchecked", "new_unchecked", "as_mut_ptr", "as_ptr", "cast", "cast_mut", "cast_const", "as_mut", "get_unchecked_mut", "get_mut", "get_ref", "into_ref", "as_ref", "deref", "deref_mut", "from_mut", "from_ref", "from", "into_raw", "leak", "into_pin", "as_uninit_mut", "must_use", "black_box", "into_inner", "get_mut_unchecked", "borrow", "borrow_mut", "addr_of_mut", "by_ref", "set_unchecked")
    def std(self, name, f, args, st, ty, t):
        n = last(name); d = f.get("fn", name)
        ret = lambda v: [("ret", v, st)]
        if "::fmt::" in name or "Arguments" in name: return ret(self.fresh("fmt"))
        if d.startswith("core::ops::Try::branch") or n == "branch":
            x = args[0]
            if x[0] == "agg" and x[2] in ("Ok", "Some"): return ret(("agg", "ControlFlow", "Continue", x[3]))
            if x[0] == "agg" and x[2] in ("Err", "None"): return ret(var("ControlFlow", "Break", x))
            return None
        if n == "from_residual":
            x = args[0]
            return ret(ERR(self.fresh("err")) if "Result" in ty or x[0] == "agg" and x[2] == "Err" else var("Option", "None"))
        is_res = "::result::Result" in name or "::option::Option" in name
        if is_res:
            x = args[0]
            byref = x[0] == "addr"
            if byref and n not in ("unwrap",): x = self.read(st, self.target(x))
            good = None if x[0] != "agg" or x[2] is None else x[2] in ("Ok", "Some")
            pay = x[3][0][1] if good is not None and x[3] else self.fresh("payload")
            if good is None:
                if any(self.refs(st, a) for a in args): raise Broken(f"{n} of an unknown result that holds tracked storage")
                return self.unknown(st, n, ty)
            if n in ("is_ok", "is_some"): return ret(("c", int(good)))
            if n in ("is_err", "is_none"): return ret(("c", int(not good)))
            if n in ("unwrap", "expect", "unwrap_unchecked"): return ret(pay) if good else [("unw", None, st)]
            if n in ("unwrap_err", "expect_err"): return [("unw", None, st)] if good else ret(pay)
            if n == "ok": return ret(var("Option", "Some", pay) if good else var("Option", "None"))
            if n == "err": return ret(var("Option", "None") if good else var("Option", "Some", pay))
            if n == "ok_or": return ret(OK(pay) if good else ERR(args[1]))
            if n in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned"): return ret(x)
            if n == "unwrap_or_default": return ret(pay) if good else self.both(st, self.fresh("default"))
            if n == "unwrap_or": return ret(pay if good else args[1])
            if n in ("map", "map_err", "and_then", "or_else", "unwrap_or_else", "ok_or_else", "inspect", "inspect_err"):
                acts = n in ("map", "and_then", "inspect") and good or n in ("map_err", "or_else", "unwrap_or_else", "ok_or_else", "inspect_err") and not good
                if not acts: return ret(x if n not in ("unwrap_or_else",) else pay) if n != "ok_or_else" else ret(OK(pay))
                r = self.apply(args[1], [pay] if n != "ok_or_else" else [], st, ty, n)
                if r is None:
                    if self.refs(st, pay): raise Broken(f"{n} passes tracked storage to an unknown function")
                    r = self.both(st, self.fresh(n)) if n in ("map", "map_err", "unwrap_or_else", "ok_or_else", "inspect", "inspect_err") else self.unknown(st, n, ty)
                wrap = {"map": OK if "Result" in ty else lambda v: var("Option", "Some", v), "map_err": ERR, "ok_or_else": ERR, "inspect": lambda v: x, "inspect_err": lambda v: x}.get(n, lambda v: v)
                return [(k, wrap(v) if k == "ret" else v, s) for k, v, s in r]
            return None
        if n == "forget" and "mem" in name: return ret(UNIT)
        if n == "drop" and "mem" in name and "ManuallyDrop" not in name:
            self.fid += 1; r = (self.fid, "dropped"); st.mem[r] = args[0]
            return self.drop(st, ("L", r, ()), (f.get("ga") or [""])[0])
        if "ManuallyDrop" in name:
            if n == "new": return ret(var("ManuallyDrop", None, args[0]))
            if n in ("into_inner", "take"): return ret(args[0][3][0][1] if args[0][0] == "agg" else self.fresh("md"))
            if n == "drop":
                l = self.target(args[0]); v = self.read(st, l)
                if v[0] == "agg": return self.dropval(st, (l[0], l[1], l[2] + (".0",)), v[3][0][1], "")
        if n == "drop_in_place":
            o = self.objof(st, args[0])
            if o is not None: return self.dropobj(st, o)
            l = self.target(args[0])
            if l[0] == "L": return self.drop(st, l, (f.get("ga") or [""])[0])
            return self.both(st, UNIT)
        if n == "assume_init_drop":
            o = self.objof(st, args[0])
            if o is not None: return self.dropobj(st, o)
        if n in ("write", "init") and "ptr" in name or n == "write" and "MaybeUninit" in name:
            o = self.objof(st, args[0])
            if o is not None:
                self.need(st, o, "U", "writes over"); self.setw(st, o, "I")
                return ret(args[0] if "MaybeUninit" in name else UNIT)
            l = self.target(args[0])
            if l[0] == "L": self.write(st, l, args[1])
            return ret(UNIT)
        if n in ("read", "assume_init_read") and ("ptr" in name or "MaybeUninit" in name):
            o = self.objof(st, args[0])
            if o is not None:
                self.need(st, o, "I", "reads"); self.setw(st, o, "M"); return ret(("own", o))
            return ret(self.read(st, self.target(args[0])))
        if n == "replace" and "mem" in name or n == "replace" and "ptr" in name:
            l = self.target(args[0])
            if l[0] == "L": v = self.read(st, l); self.write(st, l, args[1]); return ret(v)
            if l[0] == "O": self.need(st, l[1], "I", "replaces"); return ret(self.fresh("old"))
        if n == "take" and "mem" in name:
            l = self.target(args[0])
            if l[0] == "L": v = self.read(st, l); self.write(st, l, ("c", 0) if v[0] == "c" else self.fresh("default")); return ret(v)
        if n in ("copy_nonoverlapping", "copy") and "ptr" in name or n in ("copy_nonoverlapping", "copy_to", "copy_to_nonoverlapping", "copy_from", "copy_from_nonoverlapping"):
            a, z = args[0], args[1]
            if n.startswith("copy_from"): a, z = z, a
            s, o = self.objof(st, a), self.objof(st, z)
            if s is not None: self.need(st, s, "I", "reads"); self.setw(st, s, "M")
            if o is not None: self.need(st, o, "U", "writes over"); self.setw(st, o, "I")
            return ret(UNIT)
        if "MaybeUninit" in name or "mem::maybe_uninit" in name:
            if n in ("uninit", "zeroed", "new_uninit"): return ret(("sto", self.new(st)))
            if n == "new": return ret(("sto", self.new(st, "I")))
            if n == "assume_init" and args[0][0] == "sto":
                self.need(st, args[0][1], "I", "takes a value from"); st.obj[args[0][1]] = "M"; return ret(("own", args[0][1]))
            if n.startswith("assume_init"):
                o = self.objof(st, args[0])
                if o is not None: self.need(st, o, "I", "hands out"); return ret(("obj", o))
        if n in ("new", "pin", "new_uninit") and re.search(r"::(Box|Rc|Arc)(::|<)|boxed|::rc::|::sync::", name):
            self.fid += 1
            st.mem[(self.fid, "heap")] = ("sto", self.new(st)) if n == "new_uninit" else args[0]
            return self.both(st, ("box", (self.fid, "heap")))
        if n == "assume_init" and args and args[0][0] == "box":
            o = self.objof(st, args[0])
            if o is not None: self.need(st, o, "I", "hands out"); st.obj[o] = "I"; return ret(var("Owner", None, ("obj", o)))
        if n in self.IDENT and len(args) == 1:
            x = args[0]
            if n in ("as_ptr", "as_mut_ptr", "deref", "deref_mut", "as_mut", "as_ref", "get_mut", "get_ref", "borrow", "borrow_mut", "get_mut_unchecked") and x[0] == "addr":
                v = self.read(st, self.target(x))
                if v[0] == "box": return ret(("addr", v[1], ()))
                if v[0] in ("addr", "obj"): return ret(v)      # a reborrow of the pointer behind the reference
                if v[0] == "agg" and v[1] in ("Pin", "core::pin::Pin"): return ret(v)
            return ret(x)
        if n == "new" and "Pin" in name: return ret(args[0])
        if n == "new" and "NonNull" in name or n in ("offset", "add", "null_mut", "null", "dangling") and "ptr" in name: return ret(args[0] if args and n == "new" else self.fresh("ptr"))
        if n in ("type_name", "size_of", "align_of", "needs_drop"): return ret(self.fresh(n))
        return None
