"""Forward abstract evaluation of MIR into hash-consed terms (gated SSA).

For one function body `summarize` computes, without running anything:
  * ret    - the term returned, a tree of `gamma` nodes over path conditions
  * events - every reachable call with its path condition and argument terms
Path conditions are DNF: a frozenset of cubes, a cube is a frozenset of
literals (term, sign, values); sign '+' = value in set, '-' = value not in set.
References, copies and moves are transparent (a reference evaluates to the
referent's current value), so let-bindings and temporaries do not show up.
"""
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ("op", "a", "id", "__weakref__")
    tab = {}
    def __new__(cls, op, *a):
        k = (op,) + tuple((x.id, ) if isinstance(x, T) else x for x in a)
        t = cls.tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a, t.id = op, a, len(cls.tab)
            cls.tab[k] = t
        return t
    def kids(self):
        return [x for x in self.a if isinstance(x, T)]
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 12: return "…"
    o, a = t.op, t.a
    if o == "const": return repr(a[0]) if not isinstance(a[0], str) or a[1] in ("str", "char") else a[0]
    if o == "arg": return f"${a[0]}" + (f":{a[1]}" if a[1] else "")
    if o == "up": return f"^{a[0]}"
    if o == "call": return short(a[0]) + "(" + ", ".join(show(x, d + 1) for x in a[1:]) + ")"
    if o == "eff": return f"{short(a[0])}!{a[1]}(" + ", ".join(show(x, d + 1) for x in a[2:]) + ")"
    if o == "field": return f"{show(a[0], d+1)}.{a[1]}"
    if o == "var": return f"{show(a[0], d+1)}@{a[1]}"
    if o == "agg": return short(a[0]) + "{" + ", ".join((f"{n}:" if n else "") + show(x, d + 1) for n, x in zip(a[1], a[2:])) + "}"
    if o == "clo": return f"|{short(a[0])}|[" + ", ".join(f"{n}={show(x, d+1)}" for n, x in zip(a[1], a[2:])) + "]"
    if o == "cat": return show(a[0], d + 1) + " " + show(a[1], d + 1)
    if o == "tok": return a[0]
    if o == "empty": return "ε"
    if o == "grp": return {"P": "(", "B": "{", "K": "[", "N": "⟨"}[a[0]] + show(a[1], d + 1) + {"P": ")", "B": "}", "K": "]", "N": "⟩"}[a[0]]
    if o == "hole": return "#" + show(a[0], d + 1)
    if o == "gamma": return "γ{" + " | ".join(f"{show_dnf(c)} → {show(x, d+1)}" for c, x in zip(a[0], a[1:])) + "}"
    if o == "disc": return f"disc({show(a[0], d+1)})"
    if o == "fmt": return "fmt(" + "".join(p if isinstance(p, str) else "{" + show(p, d + 1) + "}" for p in a) + ")"
    return o + "(" + ", ".join(show(x, d + 1) for x in a) + ")"
def short(p):
    import re
    return re.sub(r"\b[a-z_0-9]+::(?=.*::)", "", p) if len(p) > 40 else p
def show_lit(l):
    t, s, v = l
    vs = ",".join(sorted(map(str, v)))
    if s == "+" and v == frozenset({1}): return show(t)
    if s == "+" and v == frozenset({0}): return "¬" + show(t)
    return f"{show(t)}{'∈' if s == '+' else '∉'}{{{vs}}}"
def show_cube(c): return " ∧ ".join(sorted(show_lit(l) for l in c)) or "⊤"
def show_dnf(d):
    if not d: return "⊥"
    return " ∨ ".join(sorted(show_cube(c) for c in d))

TRUE = frozenset({frozenset()})
FALSE = frozenset()
MAXCUBES = 48

def lit_and(cube, lit):
    """cube ∧ lit, or None if contradictory."""
    t, s, v = lit
    for l in cube:
        if l[0] is t:
            r = val_and((l[1], l[2]), (s, v))
            if r is None: return None
            if r == (l[1], l[2]): return cube
            return (cube - {l}) | {(t, r[0], r[1])}
    return cube | {lit}
def val_and(x, y):
    (s, a), (u, b) = x, y
    if s == "+" and u == "+": r = ("+", a & b)
    elif s == "+": r = ("+", a - b)
    elif u == "+": r = ("+", b - a)
    else: r = ("-", a | b)
    if r[0] == "+" and not r[1]: return None
    return r
def val_or(x, y):
    (s, a), (u, b) = x, y
    if s == "+" and u == "+": return ("+", a | b)
    if s == "+": return ("-", b - a)
    if u == "+": return ("-", a - b)
    return ("-", a & b)
def is_univ(t, val):
    s, v = val
    if s == "-": return not v
    u = UNIV.get(t)
    return u is not None and v >= u
UNIV = {}     # term -> frozenset of all its possible values (bools, enum discriminants)

def cube_and(c, d):
    for l in d:
        c = lit_and(c, l)
        if c is None: return None
    return c
def dnf_and(a, b):
    out = set()
    for x in a:
        for y in b:
            c = cube_and(x, y)
            if c is not None: out.add(c)
    return simp(out)
def dnf_or(*ds):
    out = set()
    for d in ds: out |= set(d)
    return simp(out)
def simp(cubes):
    cubes = set(cubes)
    if frozenset() in cubes: return TRUE
    changed = True
    n = 0
    while changed and n < 200:
        changed = False
        n += 1
        # absorption
        cl = sorted(cubes, key=len)
        keep = []
        for c in cl:
            if not any(implies_cube(c, k) for k in keep): keep.append(c)
        cubes = set(keep)
        # merge two cubes that differ in one literal's value set
        byk = {}
        for c in cubes:
            for l in c:
                byk.setdefault((c - {l}, l[0]), []).append((c, l))
        for (rest, t), xs in byk.items():
            if len(xs) > 1:
                v = (xs[0][1][1], xs[0][1][2])
                for _, l in xs[1:]: v = val_or(v, (l[1], l[2]))
                for c, _ in xs: cubes.discard(c)
                cubes.add(rest if is_univ(t, v) else rest | {(t, v[0], v[1])})
                changed = True
                break
        if changed: continue
        # x ∧ A, ¬x  (unit-ish resolution): cube {x}∪A with cube {¬x}∪B, B⊆A  => drop x from the first
        done = False
        for c in cubes:
            for l in c:
                for d in cubes:
                    if d is c: continue
                    for m in d:
                        if m[0] is l[0] and val_and((l[1], l[2]), (m[1], m[2])) is None and is_univ(l[0], val_or((l[1], l[2]), (m[1], m[2]))) and (d - {m}) <= (c - {l}):
                            cubes.discard(c); cubes.add(c - {l}); done = True; break
                    if done: break
                if done: break
            if done: break
        changed = done
    if len(cubes) > MAXCUBES:
        it = iter(cubes)
        common = set(next(it))
        for c in it: common &= set(c)
        return frozenset({frozenset(common)})
    return frozenset(cubes)
def implies_cube(c, k):
    """c ⇒ k : every literal of k is implied by c."""
    for t, s, v in k:
        ok = False
        for l in c:
            if l[0] is t:
                r = val_and((l[1], l[2]), (s, v))
                if r == (l[1], l[2]): ok = True
                break
        if not ok: return False
    return True

STRIP = {
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::clone::Clone::clone", "std::borrow::Borrow::borrow",
    "std::convert::AsRef::as_ref", "std::convert::Into::into", "std::convert::From::from", "std::borrow::ToOwned::to_owned",
    "std::convert::identity", "std::hint::must_use", "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_deref",
    "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<T>::cloned",
    "std::result::Result::<T, E>::as_ref", "std::string::String::as_str", "std::string::ToString::to_string",
    "alloc::string::String::as_str", "std::rc::Rc::<T>::new", "std::boxed::Box::<T>::new", "std::borrow::Cow::<'_, B>::into_owned",
    "std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "std::vec::Vec::<T, A>::as_slice",
    "std::iter::Iterator::copied", "std::iter::Iterator::cloned",
    "std::borrow::BorrowMut::borrow_mut", "quote::__private::IdentFragmentAdapter::<T>::span",
    "std::cell::RefCell::<T>::borrow", "std::fmt::format", "core::str::<impl str>::to_string", "std::pin::Pin::<Ptr>::new",
}
STRIP_TY_CONV = {"std::convert::Into::into", "std::convert::From::from", "std::convert::AsRef::as_ref"}

PUSH = {"push_" + k: v for k, v in dict(
    add="+", and_="&", and_and="&&", bang="!", colon=":", colon2="::", comma=",", dot=".", dot3="...", eq="=", eq_eq="==", fat_arrow="=>",
    gt=">", ge=">=", le="<=", lt="<", ne="!=", pound="#", rarrow="->", larrow="<-", semi=";", shl="<<", shr=">>", star="*", sub="-", underscore="_", div="/", or_="|", or_or="||", rem="%", question="?", dot2="..", at="@", caret="^", tilde="~").items()}
PUSH["push_and"] = "&"; PUSH["push_or"] = "|"

def const_term(k):
    if "s" in k: return T("const", k["s"], "str")
    if "ch" in k: return T("const", k["ch"], "char")
    if "v" in k: return T("const", int(k["v"]) if isinstance(k["v"], bool) else k["v"], "int")
    if "b" in k: return T("const", k["b"], "bytes")
    if "fn" in k: return T("fnref", k.get("rs") or k["fn"])
    if "clo" in k: return T("clo", k["clo"], ())
    if "raw" in k: return T("const", f"{k['ty']}#{k['raw']}", "raw")
    if k.get("def"): return T("cdef", k["def"], k.get("pr", -1))
    return T("cty", k["ty"])

def decode_fmt(tmpl, args):
    bs = [ord(c) for c in tmpl]
    out, i, ai = [], 0, 0
    while i < len(bs):
        b = bs[i]; i += 1
        if b == 0: break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8", "replace")); i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8; i += 2
            out.append(bytes(bs[i:i + n]).decode("utf8", "replace")); i += n
        else:
            if b & 1: i += 4
            if b & 2: i += 2
            if b & 4: i += 2
            if b & 8: ai = bs[i] | bs[i + 1] << 8; i += 2
            x = args[ai] if ai < len(args) else T("unk", "fmtarg"); ai += 1
            out.append(T("fmtas", "flags", x) if b & 7 else x)
    return out

class Event:
    __slots__ = ("cond", "fn", "args", "line", "mac", "body", "bb", "ret", "ga", "decl", "fexpr")
    def __init__(s, **k):
        for x in s.__slots__: setattr(s, x, k.get(x))

class Summary:
    __slots__ = ("ret", "events", "body", "mu", "loops", "panics", "outs")

class Engine:
    def __init__(self, facts):
        self.F = facts
        self.sums = {}
        self.loopn = 0

    def summarize(self, path):
        s = self.sums.get(path)
        if s is None:
            b = self.F.bodies[path]
            s = Eval(self, b).run()
            self.sums[path] = s
        return s

def norm_call(eng, f, fn, args):
    """Canonicalise well-known calls."""
    last = fn.rsplit("::", 1)[-1]
    if fn in STRIP:
        return args[0]
    if fn.endswith("::to_string") or fn.endswith("::to_owned"): return args[0]
    if fn == "std::ops::Try::branch": return T("branch", args[0])
    if fn in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
        x, y = sorted(args[:2], key=lambda t: (t.op == "const", t.id))
        t = T("eq", x, y)
        return t if fn.endswith("eq") else T("not", t)
    if fn == "std::ops::Not::not": return T("not", args[0])
    if fn.startswith("std::option::Option::<") or fn.startswith("std::result::Result::<"):
        en = "Option" if "option" in fn else "Result"
        if last in ("is_some", "is_ok"): return T("isv", T("disc", args[0]), "Some" if en == "Option" else "Ok")
        if last in ("is_none", "is_err"): return T("isv", T("disc", args[0]), "None" if en == "Option" else "Err")
        if last in ("unwrap", "expect", "unwrap_unchecked"):
            return T("field", T("var", args[0], "Some" if en == "Option" else "Ok"), "0")
        if last in ("unwrap_err", "expect_err"): return T("field", T("var", args[0], "Err"), "0")
    if fn.endswith("Arguments::<'a>::new") and len(args) >= 2 and args[0].op == "const":
        al = args[1]
        xs = list(al.a[2:]) if al.op == "agg" else []
        return T("fmt", *decode_fmt(args[0].a[0], xs))
    if fn.endswith("Arguments::<'a>::from_str") or fn.endswith("from_str_nonconst"):
        if args and args[0].op == "const": return T("fmt", args[0].a[0])
    if "fmt::rt::Argument" in fn and last.startswith("new_"): 
        return args[0] if last == "new_display" else T("fmtas", last[4:], args[0])
    if fn == "proc_macro2::TokenStream::new": return T("empty")
    if fn.endswith("Default::default") and f.get("ga") and "TokenStream" in f["ga"][0]: return T("empty")
    if fn == "quote::ToTokens::to_token_stream": return T("cat", T("empty"), T("hole", args[0]))
    if fn == "quote::__private::mk_ident": return args[0]
    if fn == "bool::then_some": pass
    return T("call", fn, *args)

class Eval:
    def __init__(self, eng, body):
        self.e, self.b = eng, body

    # ---- CFG ----
    def run(self):
        b = self.b
        n = len(b.blocks)
        succ = {i: [s for s in dict.fromkeys(b.succs(i)) if not b.blocks[s]["c"]] for i in range(n)}
        # DFS postorder, back edges
        order, state = [], {}
        back = set()
        st = [(0, iter(succ[0]))]; state[0] = 1
        while st:
            u, it = st[-1]
            adv = False
            for v in it:
                if v not in state:
                    state[v] = 1; st.append((v, iter(succ[v]))); adv = True; break
                elif state[v] == 1: back.add((u, v))
            if not adv:
                state[u] = 2; order.append(u); st.pop()
        order.reverse()
        preds = {}
        for u in order:
            for v in succ[u]: preds.setdefault(v, []).append(u)
        # natural loop bodies + the locals assigned in them
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            stk = [u]
            while stk:
                x = stk.pop()
                if x in body: continue
                body.add(x); stk.extend(p for p in preds.get(x, []))
        assigned = {h: self.assigned(bs) for h, bs in loops.items()}
        self.edge_cond, self.out = {}, {}
        self.mu = {}
        ins_state = {}
        reach = {}
        self.events = []
        rets = []
        panics = []
        for u in order:
            if u == 0:
                reach[u] = TRUE
                stt = {}
                for i in range(1, b.argc + 1):
                    stt[i] = T("arg", i, b.name(i) or "")
                if b.kind == "closure": stt[1] = T("env")
                ins_state[u] = stt
            else:
                inc = [(p, self.edge_cond.get((p, u), FALSE)) for p in preds.get(u, []) if (p, u) not in back and p in self.out]
                inc = [(p, c) for p, c in inc if c]
                if not inc:
                    reach[u] = FALSE
                    continue
                reach[u] = dnf_or(*[c for _, c in inc])
                ins_state[u] = self.merge([(c, self.out[p]) for p, c in inc])
            s = ins_state[u]
            if u in loops:
                s = dict(s)
                for l in assigned[u]:
                    if l in s:
                        m = T("mu", b.path, u, l)
                        self.mu[m] = [s[l], []]
                        s[l] = m
                ins_state[u] = s
            s = self.block(u, dict(ins_state[u]), reach[u], rets, panics)
            self.out[u] = s
            for v in succ[u]:
                if (u, v) in back:
                    for l in assigned[v]:
                        m = T("mu", b.path, v, l)
                        if m in self.mu and s.get(l) is not None: self.mu[m][1].append(s[l])
        su = Summary()
        su.body = b
        su.events = self.events
        su.mu = self.mu
        su.loops = loops
        su.panics = panics
        if rets:
            su.ret = self.mk_gamma([(c, t) for c, t, _ in rets])
        else: su.ret = None
        su.outs = rets
        return su

    def assigned(self, bs):
        b = self.b
        out = set()
        refs = {}
        for i in bs:
            for p, r, _ in b.blocks[i]["s"]:
                if r["r"] in ("live", "dead"): continue
                out.add(p[0])
            t = b.blocks[i]["t"]
            if t["t"] == "call": out.add(t["d"][0])
        # anything mutably borrowed in the loop counts as assigned
        for i in bs:
            for p, r, _ in b.blocks[i]["s"]:
                if r["r"] == "ref" and r["mut"]: out.add(r["p"][0])
        return out

    def mk_gamma(self, pairs):
        by = {}
        for c, t in pairs:
            by.setdefault(t, []).append(c)
        if len(by) == 1: return next(iter(by))
        items = [(dnf_or(*cs), t) for t, cs in by.items()]
        # factor literals common to all
        allc = [c for d, _ in items for c in d]
        common = set(allc[0])
        for c in allc[1:]: common &= set(c)
        items = [(simp({c - common for c in d}), t) for d, t in items]
        items.sort(key=lambda x: x[1].id)
        return T("gamma", tuple(d for d, _ in items), *[t for _, t in items])

    def merge(self, inc):
        if len(inc) == 1: return dict(inc[0][1])
        keys = set(inc[0][1])
        for _, s in inc[1:]: keys &= set(s)
        # locals live on only one side (maybe-initialised): keep if defined anywhere
        anyk = set()
        for _, s in inc: anyk |= set(s)
        out = {}
        for k in anyk:
            pr = [(c, s[k]) for c, s in inc if k in s]
            if all(isinstance(x, tuple) for _, x in pr):
                if all(x == pr[0][1] for _, x in pr): out[k] = pr[0][1]; continue
                # different referents: use their values
                pr = [(c, self.rd_place_val(s, s[k][1])) for c, s in inc if k in s]
            pr2 = []
            for (c, x) in pr:
                if isinstance(x, tuple): x = T("unk", "ref")
                pr2.append((c, x))
            first = pr2[0][1]
            if all(x is first for _, x in pr2): out[k] = first
            else: out[k] = self.mk_gamma(pr2)
        return out

    # ---- places: state maps local -> T or ("ref", place, mut) ----
    def local_val(self, s, l):
        v = s.get(l)
        if v is None: return T("undef", l)
        return v
    def rd_place_val(self, s, p):
        v = self.local_val(s, p[0])
        i = 1
        n = 0
        while isinstance(v, tuple):
            n += 1
            if n > 50: return T("unk", "refloop")
            tgt = v[1]
            v = self.rd_place_val(s, tgt)
        for e in p[i:]:
            v = self.proj(v, e)
        return v
    def proj(self, v, e):
        if e == "*": return v
        if e.startswith("."):
            return mkfield(v, e[1:])
        if e.startswith("@"): return mkvar(v, e[1:])
        if e.startswith("["): return T("idx", v, e)
        return T("unk", e)
    def resolve(self, s, p):
        """Follow reference locals to the place actually designated."""
        p = list(p)
        n = 0
        while n < 50:
            n += 1
            v = s.get(p[0])
            if isinstance(v, tuple) and len(p) > 1 and p[1] == "*":
                p = list(v[1]) + p[2:]
            else: break
        return p
    def wr_place(self, s, p, v):
        p = self.resolve(s, p)
        if len(p) == 1:
            s[p[0]] = v
            return
        base = self.rd_place_val(s, [p[0]])
        if isinstance(v, tuple): v = self.rd_place_val(s, v[1])
        if isinstance(s.get(p[0]), tuple): return
        path = tuple(x for x in p[1:] if x != "*")
        if not path: s[p[0]] = v; return
        s[p[0]] = T("upd", base, path, v)
    def op(self, s, o):
        """Value of an operand; a reference local yields ('ref',...) wrapper."""
        if "k" in o: return const_term(o["k"])
        p = o.get("c") or o.get("m")
        if p is None: return T("unk", "op")
        if len(p) == 1:
            return self.local_val(s, p[0])
        return self.rd_place_val(s, p)
    def opv(self, s, o):
        v = self.op(s, o)
        if isinstance(v, tuple): v = self.rd_place_val(s, v[1])
        return v

    def rvalue(self, s, r):
        k = r["r"]
        if k == "use": return self.op(s, r["o"])
        if k in ("ref", "ptr"):
            p = self.resolve(s, r["p"])
            # reborrow of a reference-typed local holding an opaque value
            root = s.get(p[0])
            if root is None: return T("undef", p[0])
            if len(p) == 2 and p[1] == "*" and isinstance(root, T) and not r["mut"]: return root
            return ("ref", tuple(p), r["mut"])
        if k == "cast": return self.op(s, r["o"])
        if k == "bin":
            x, y = self.opv(s, r["a"]), self.opv(s, r["b"])
            kk = r["k"].replace("WithOverflow", "").replace("Unchecked", "")
            if kk == "Eq": 
                x, y = sorted((x, y), key=lambda t: (t.op == "const", t.id)); return T("eq", x, y)
            if kk == "Ne":
                x, y = sorted((x, y), key=lambda t: (t.op == "const", t.id)); return T("not", T("eq", x, y))
            if kk == "Gt": return T("bin", "Lt", y, x)
            if kk == "Ge": return T("not", T("bin", "Lt", x, y))
            if kk == "Le": return T("not", T("bin", "Lt", y, x))
            t = T("bin", kk, x, y)
            if "WithOverflow" in r["k"]: return T("agg", "tuple", (None, None), t, T("const", 0, "int"))
            return t
        if k == "un":
            x = self.opv(s, r["o"])
            if r["k"] == "Not": return T("not", x)
            return T("un", r["k"], x)
        if k == "disc":
            x = self.rd_place_val(s, r["p"])
            d = T("disc", x)
            if x.op == "branch":
                d = T("disc", x)
            if r["vs"]: UNIV[d] = frozenset(r["vs"].values())
            self.dvs = getattr(self, "dvs", {})
            self.dvs[d] = r["vs"]
            return d
        if k == "agg":
            ops = []
            for o in r["os"]: ops.append(self.opv(s, o))
            if "clo" in r:
                # captures by reference keep their place so that effects can be seen
                return T("clo", r["clo"], tuple(r["fs"]), *ops)
            nm = (r["adt"] + "::" + r["var"]) if "adt" in r else ("tuple" if "tup" in r else "array")
            fs = tuple(r["fs"]) if "fs" in r else tuple(None for _ in ops)
            return T("agg", nm, fs, *ops)
        if k == "setdisc": return T("unk", "setdisc")
        if k == "rep": return T("rep", self.opv(s, r["o"]))
        if k == "tls": return T("static", r["def"])
        return T("unk", k)

    def block(self, u, s, cond, rets, panics):
        b = self.b
        bb = b.blocks[u]
        for p, r, ln in bb["s"]:
            k = r["r"]
            if k == "live": continue
            if k == "dead":
                # keep values that are still referenced through ref temps
                l = p[0]
                if not any(isinstance(v, tuple) and v[1][0] == l for v in s.values()): s.pop(l, None)
                continue
            if k == "intr": continue
            self.wr_place(s, p, self.rvalue(s, r)) if len(p) > 1 else s.__setitem__(p[0], self.rvalue(s, r))
        t = bb["t"]; k = t["t"]
        if k == "goto" or k == "drop" or k == "assert":
            if t.get("to") is not None: self.edge(u, t["to"], cond)
        elif k == "ret":
            v = self.rd_place_val(s, [0])
            if isinstance(v, tuple): v = self.rd_place_val(s, v[1])
            rets.append((cond, v, u))
        elif k == "sw":
            d = self.opv(s, t["o"])
            self.switch(u, t, d, cond)
        elif k == "call":
            self.call(u, t, s, cond, panics)
        return s

    def edge(self, u, v, c):
        k = (u, v)
        self.edge_cond[k] = dnf_or(self.edge_cond[k], c) if k in self.edge_cond else c

    def switch(self, u, t, d, cond):
        vals = t["vs"]
        ty = t["ty"]
        if d.op == "const" and d.a[1] == "int":
            for v, to in vals:
                if v == d.a[0]: self.edge(u, to, cond); return
            self.edge(u, t["ot"], cond); return
        if ty == "bool":
            for v, to in vals:      # 0 -> false target
                self.edge(u, to, dnf_and(cond, bool_dnf(d, bool(v))))
            self.edge(u, t["ot"], dnf_and(cond, bool_dnf(d, not vals[0][0])))
            return
        if d.op == "disc":
            vs = getattr(self, "dvs", {}).get(d) or {}
            used = set()
            for v, to in vals:
                nm = vs.get(str(v), str(v)); used.add(nm)
                self.edge(u, to, dnf_and(cond, disc_dnf(d, "+", frozenset({nm}))))
            if not (vs and used >= set(vs.values())):
                self.edge(u, t["ot"], dnf_and(cond, disc_dnf(d, "-", frozenset(used))))
            return
        used = set()
        for v, to in vals:
            used.add(v)
            self.edge(u, to, dnf_and(cond, val_dnf(d, "+", frozenset({v}))))
        self.edge(u, t["ot"], dnf_and(cond, val_dnf(d, "-", frozenset(used))))

    def call(self, u, t, s, cond, panics):
        f = t["f"]
        fexpr = None
        if "fn" in f:
            fn = f.get("rs") or f["fn"]
            decl = f["fn"]
        elif "clo" in f: fn = decl = f["clo"]
        else:
            fexpr = self.opv(s, f["ind"]) if "ind" in f else T("unk", "ind")
            fn = decl = "<indirect>"
        raw = [self.op(s, a) for a in t["a"]]
        vals = [self.rd_place_val(s, v[1]) if isinstance(v, tuple) else v for v in raw]
        for i, v in enumerate(vals):
            if isinstance(v, tuple): vals[i] = T("unk", "refref")
        base = decl.split("::<")[0]
        lastn = decl.rsplit("::", 1)[-1]
        res = None
        handled = False
        def out(i):
            """place designated by argument i if it is a mutable reference to a local"""
            v = raw[i]
            return v[1] if isinstance(v, tuple) and v[2] else None
        if decl.startswith("quote::__private::push_") and vals:
            pl = out(0)
            if pl is not None:
                if lastn in ("push_ident", "push_ident_spanned"):
                    item = T("tok", vals[-1].a[0]) if vals[-1].op == "const" else T("hole", vals[-1])
                elif lastn == "push_lifetime":
                    item = T("tok", vals[-1].a[0]) if vals[-1].op == "const" else T("hole", vals[-1])
                elif lastn in ("push_group", "push_group_spanned"):
                    d = "?"
                    for v in vals:
                        if v.op == "agg" and "Delimiter::" in v.a[0]:
                            d = {"Parenthesis": "P", "Brace": "B", "Bracket": "K", "None": "N"}[v.a[0].rsplit("::", 1)[-1]]
                    item = T("grp", d if d != "?" else "N", vals[-1])
                else: item = T("tok", PUSH.get(lastn, lastn))
                self.wr_place(s, pl, T("cat", self.rd_place_val(s, pl), item)); handled = True
        elif decl == "quote::__private::parse":
            pl = out(0)
            if pl is not None and vals[1].op == "const":
                self.wr_place(s, pl, T("cat", self.rd_place_val(s, pl), T("tok", vals[1].a[0]))); handled = True
        elif decl == "quote::ToTokens::to_tokens" or (decl.endswith("::append") and "TokenStream" in decl):
            pl = out(1) if decl.endswith("to_tokens") else out(0)
            x = vals[0] if decl.endswith("to_tokens") else vals[1]
            if pl is not None:
                item = T("hole", x)
                self.wr_place(s, pl, T("cat", self.rd_place_val(s, pl), item)); handled = True
        elif decl == "std::iter::Extend::extend" and "TokenStream" in (f.get("ga") or [""])[0]:
            pl = out(0)
            if pl is not None:
                self.wr_place(s, pl, T("cat", self.rd_place_val(s, pl), T("hole", vals[1]))); handled = True
        if not handled:
            if fn == "<indirect>": res = T("icall", fexpr, *vals)
            elif decl.startswith("std::ops::Fn") and lastn in ("call", "call_mut", "call_once") and len(vals) == 2:
                targs = vals[1].a[2:] if vals[1].op == "agg" and vals[1].a[0] == "tuple" else (vals[1],)
                res = T("app", vals[0], *targs)
            else: res = norm_call(self.e, f, decl if decl in STRIP or decl.startswith("std::") or decl.startswith("core::") or decl.startswith("quote::") or decl.startswith("proc_macro2::") else fn, vals)
            # a transparent wrapper around a reference stays a reference
            if decl in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::BorrowMut::borrow_mut", "std::option::Option::<T>::as_mut", "std::iter::IntoIterator::into_iter") and isinstance(raw[0], tuple):
                if isinstance(s.get(t["d"][0]), tuple) or True:
                    ev = Event(cond=cond, fn=fn, decl=decl, args=vals, line=t["ln"], mac=t.get("mac", ""), body=b_path(self.b), bb=u, ret=res, ga=f.get("ga"), fexpr=fexpr)
                    self.events.append(ev)
                    if len(t["d"]) == 1: s[t["d"][0]] = raw[0]
                    else: self.wr_place(s, t["d"], res)
                    if t.get("to") is not None: self.edge(u, t["to"], cond)
                    return
            # mutable references passed to an opaque call may be changed by it
            for i, v in enumerate(raw):
                if isinstance(v, tuple) and v[2]:
                    if decl.startswith("std::iter::Iterator::next") : pass
                    old = self.rd_place_val(s, v[1])
                    if isinstance(old, tuple): continue
                    self.wr_place(s, v[1], T("eff", fn, i, *vals))
        else: res = T("unit")
        self.events.append(Event(cond=cond, fn=fn, decl=decl, args=vals, line=t["ln"], mac=t.get("mac", ""), body=self.b.path, bb=u, ret=res, ga=f.get("ga"), fexpr=fexpr))
        if t.get("to") is not None:
            self.wr_place(s, t["d"], res) if len(t["d"]) > 1 else s.__setitem__(t["d"][0], res)
            self.edge(u, t["to"], cond)
        else:
            panics.append((cond, fn, vals, t["ln"]))

def b_path(b): return b.path

def mkfield(v, n):
    if v.op == "agg":
        names = v.a[1]
        for nm, x in zip(names, v.a[2:]):
            if nm == n: return x
        if all(nm is None for nm in names) and n.isdigit() and int(n) < len(names): return v.a[2 + int(n)]
    if v.op == "env": return T("up", n[1:]) if n.startswith("^") else T("up", n)
    if v.op == "upd":
        base, path, x = v.a
        if path and path[0] == "." + n:
            if len(path) == 1: return x
            return T("upd", mkfield(base, n), path[1:], x)
        if path: return mkfield(base, n)
    if v.op == "var":
        x, vn = v.a
        if x.op == "agg" and x.a[0].endswith("::" + vn): return mkfield(x, n)
        if x.op == "branch" and vn == "Continue": return T("field", T("var", x.a[0], "Ok?"), "0") if x.a[0].op not in ("agg",) else mkfield(x.a[0], n)
        if x.op == "branch" and vn == "Break": return T("residual", x.a[0])
        if x.op == "gamma": 
            pass
    return T("field", v, n)
def mkvar(v, n):
    return T("var", v, n)

BOOLU = frozenset({0, 1})
def bool_dnf(t, val):
    if t.op == "const": return TRUE if bool(t.a[0]) == val else FALSE
    if t.op == "not": return bool_dnf(t.a[0], not val)
    if t.op == "isv": return disc_dnf(t.a[0], "+" if val else "-", frozenset({t.a[1]}))
    if t.op == "gamma":
        out = FALSE
        for c, x in zip(t.a[0], t.a[1:]):
            out = dnf_or(out, dnf_and(c, bool_dnf(x, val)))
        return out
    UNIV[t] = BOOLU
    return frozenset({frozenset({(t, "+", frozenset({1 if val else 0}))})})
OKS = {"Continue": ("Ok", "Some"), "Break": ("Err", "None")}
def disc_dnf(d, sign, vs):
    """literal disc(x) in/not in vs, looking through Try::branch, aggregates and gammas"""
    x = d.a[0]
    if x.op == "branch":
        y = T("disc", x.a[0])
        UNIV[y] = UNIV.get(y, None) or UNIV_TRY
        m = set()
        for v in vs: m |= set(OKS.get(v, (v,)))
        return disc_dnf(y, sign, frozenset(m))
    if x.op == "agg" and "::" in x.a[0]:
        nm = x.a[0].rsplit("::", 1)[-1]
        inn = nm in vs
        return TRUE if inn == (sign == "+") else FALSE
    if x.op == "gamma":
        out = FALSE
        for c, y in zip(x.a[0], x.a[1:]):
            out = dnf_or(out, dnf_and(c, disc_dnf(T("disc", y), sign, vs)))
        return out
    u = UNIV.get(d)
    if u is None:
        if vs & {"Some", "None"}: UNIV[d] = u = frozenset({"Some", "None"})
        elif vs & {"Ok", "Err"} : UNIV[d] = u = frozenset({"Ok", "Err"})
    if u is UNIV_TRY: pass
    if u is not None and sign == "-":
        pos = u - vs
        if not pos: return FALSE
        sign, vs = "+", frozenset(pos)
    elif u is not None: 
        vs = vs & u if vs & u else vs
        if vs >= u: return TRUE
    return frozenset({frozenset({(d, sign, vs)})})
UNIV_TRY = frozenset({"Ok", "Some", "Err", "None"})
def val_dnf(d, sign, vs):
    return frozenset({frozenset({(d, sign, vs)})})
