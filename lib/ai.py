"""Interprocedural conditional constant propagation over MIR.

`AI(F, oracle, opaque)` abstractly evaluates one function: values are hash-consed
terms (sym.T), memory is a map cell -> term, references are ("ref", cell, path).
Control-flow joins join values into `alt` terms; a branch whose scrutinee is decided
(by constants, by the oracle's valuation of atomic predicates, or by an earlier branch
on the same predicate) only follows the decided edge.  Calls to functions whose body is
in the fact base are evaluated in context; the rest are uninterpreted terms, offered to
the oracle.  No code of the analysed program runs and no constraint solver is involved.
"""
import re, sys
from sym import T, const_term, decode_fmt, PUSH, show, show_lit
sys.setrecursionlimit(60000)

UNIT = T("agg", "tuple", ())
TRUEc, FALSEc = T("const", 1, "int"), T("const", 0, "int")
NONE = T("agg", "std::option::Option::None", ())
TOP = T("top")
FAIL = T("fail")
def some(x): return T("agg", "std::option::Option::Some", ("0",), x)
def ok(x): return T("agg", "std::result::Result::Ok", ("0",), x)
def err(x): return T("agg", "std::result::Result::Err", ("0",), x)
def tup(*xs): return T("agg", "tuple", tuple(None for _ in xs), *xs)
def boolc(b): return TRUEc if b else FALSEc
MAXALT = 40
def alt(*xs):
    out = {}
    for x in xs:
        if x is None: continue
        if x.op == "alt":
            for y in x.a: out[y.id] = y
        elif x.op == "top": return TOP
        else: out[x.id] = x
    if not out: return T("bot")
    if len(out) == 1: return next(iter(out.values()))
    # several open token sequences: keep them, they are distinguished by content
    if len(out) > MAXALT: return TOP
    return T("alt", *[out[k] for k in sorted(out)])
def alts(x): return x.a if x.op == "alt" else (x,)

def vname(a): return a.rsplit("::", 1)[-1]

IDENT = {   # calls that return (a view of / an equal copy of) their first argument
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::clone::Clone::clone", "std::borrow::Borrow::borrow",
    "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::convert::Into::into", "std::convert::From::from", "std::borrow::ToOwned::to_owned",
    "std::convert::identity", "std::hint::must_use", "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_deref",
    "std::option::Option::<T>::as_deref_mut", "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<T>::cloned",
    "std::result::Result::<T, E>::as_ref", "std::string::String::as_str", "std::string::ToString::to_string",
    "alloc::string::String::as_str", "std::rc::Rc::<T>::new", "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::borrow::Cow::<'_, B>::into_owned",
    "std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::vec::Vec::<T, A>::as_slice",
    "std::iter::Iterator::copied", "std::iter::Iterator::cloned", "std::iter::Iterator::by_ref", "std::iter::Iterator::peekable", "std::iter::Iterator::fuse",
    "std::borrow::BorrowMut::borrow_mut", "std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut", "std::fmt::format", "core::str::<impl str>::to_string", "std::pin::Pin::<Ptr>::new",
    "quote::__private::mk_ident", "std::iter::DoubleEndedIterator::rev", "std::iter::Iterator::rev", "std::mem::ManuallyDrop::<T>::new",
    "std::option::Option::<T>::into_iter", "core::slice::<impl [T]>::to_vec",
    "std::alloc::handle_alloc_error", "std::string::String::into_boxed_str", "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::iter",
    "std::boxed::box_new", "std::cell::RefCell::<T>::new", "std::cell::RefCell::<T>::into_inner", "std::option::Option::<T>::iter", "std::rc::Rc::<T, A>::clone",
}
KEEPREF = {"std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut", "std::borrow::Borrow::borrow",
           "std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_ref", "std::iter::Iterator::by_ref", "std::cell::RefCell::<T>::borrow_mut", "std::cell::RefCell::<T>::borrow", "std::hint::must_use", "std::convert::identity",
           "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::iter::IntoIterator::into_iter"}

class Loop(Exception): pass
class Event:
    __slots__ = ("fn", "decl", "args", "line", "body", "ret", "mac", "ga", "stack", "pre", "place")
    def __init__(s, **k):
        for x in s.__slots__: setattr(s, x, k.get(x))

def fr_fn(active):
    return active[-1] if active else "?"
REORDER = ("skip", "step_by", "sorted", "unique", "dedup", "sorted_unstable", "rev", "sorted_by_key", "sorted_by", "sorted_by_cached_key")
def perm(it):
    """the operations of an iterator chain after which positions are not those of the underlying sequence"""
    out = []
    while isinstance(it, T) and it.op in ("mapped", "filtered", "skipped", "enum", "zip"):
        if it.op == "filtered": out.append("filter")
        if it.op == "skipped" and it.a[1] in REORDER: out.append(it.a[1])
        it = it.a[0]
    return tuple(out)
class AI:
    def __init__(self, facts, oracle=None, opaque=None, depth=14, inline=None, short=True, rec=1, alias=None):
        self.alias = alias      # uninterpreted function -> path of the body that implements it
        self.rec = rec          # how often a function may be active at once
        self.short = short
        self.F = facts
        self.oracle = oracle or (lambda t: None)
        self.opaque = opaque or (lambda fn: False)
        self.inline_only = inline
        self.depth = depth
        self.mu = {}            # mu term -> [init, [steps]]
        self.muset = {}         # (frame, header) -> set of cells
        self.events = []
        self.frames = {}
        self.memo = {}
        self.active = []
        self.panics = []
        self.collected = []     # element sequences of the snippet collections met
        self.uninlined = {}
        self.twice = False      # evaluate the closure of map for two consecutive elements
        self.optional = False   # see loop_bodies
        self.idle = set()       # loop values that some iteration leaves as they are
        self.pick = None
        self.cast = None        # hook: (value, kind of cast, target type) -> value
        self.partial = set()    # (function, adapter) that leave elements of a sequence out
        self.steps = 0
    # ---------------------------------------------------------------- API
    def run(self, path, args=None):
        b = self.F.bodies[path]
        st = {}
        if args is None: args = [T("arg", i, b.name(i) or "") for i in range(1, b.argc + 1)]
        r = self.body(b, args, st, ("root", path))
        return self.deep(r, st) if r is not None else None
    # ---------------------------------------------------------------- values
    def q(self, t):
        """Ask the oracle about a freshly built uninterpreted term."""
        r = self.oracle(t)
        return t if r is None else r
    def deep(self, v, st, n=0):
        """Replace references by what they refer to."""
        if not isinstance(v, T): return v
        if v.op == "ref": 
            if n > 12: return T("deepref")
            return self.deep(self.load(("cell", v.a[0], v.a[1]), st), st, n + 1)
        if v.op in ("const", "arg", "call", "tok", "empty", "mu", "cdef"): return v
        if not any(isinstance(x, T) for x in v.a): return v
        if v.op == "agg" or v.op == "alt" or v.op == "clo" or v.op in ("list", "mapped", "zip", "filtered", "chain", "upd", "field", "var"):
            xs = [self.deep(x, st, n) if isinstance(x, T) else x for x in v.a]
            if v.op == "alt": return alt(*xs)
            return T(v.op, *xs)
        return v
    def load(self, loc, st):
        if loc[0] == "val": return loc[1]
        v = st.get(loc[1])
        if v is None: return T("undef", str(loc[1][1]))
        for e in loc[2]: v = self.proj(v, e, st)
        return v
    def proj(self, v, e, st):
        if v.op == "alt":
            if e.startswith("@"):
                n = e[1:]
                keep = [x for x in v.a if not (x.op == "agg" and "::" in x.a[0] and vname(x.a[0]) != n and not x.a[0] in ("tuple", "array"))]
                if keep: return alt(*[self.proj(x, e, st) for x in keep])
                return T("bot")
            return alt(*[self.proj(x, e, st) for x in v.a])
        if v.op == "ref":
            return self.proj(self.load(("cell", v.a[0], v.a[1]), st), e, st) if e != "*" else self.load(("cell", v.a[0], v.a[1]), st)
        if e == "*": return v
        if e.startswith("@"):
            n = e[1:]
            if v.op == "agg" and vname(v.a[0]) == n: return v
            if v.op == "branch":
                # ControlFlow of a Result/Option
                x = v.a[0]
                if n != "Continue": return T("resid", x)
                out = []
                for y in alts(x):
                    if y.op == "agg" and vname(y.a[0]) in ("Ok", "Some"): out.append(T("agg", "Continue", ("0",), y.a[2] if len(y.a) > 2 else UNIT))
                    elif y.op == "fail" or (y.op == "agg" and "::" in y.a[0]): continue
                    else: out.append(self.q(T("var", y, "Ok/Some")))
                return alt(*out)
            return T("var", v, n)
        if e.startswith("."):
            n = e[1:]
            if v.op == "agg":
                names = v.a[1]
                for nm, x in zip(names, v.a[2:]):
                    if nm == n: return x
                if n.isdigit() and int(n) < len(v.a) - 2 and all(nm is None for nm in names): return v.a[2 + int(n)]
                return T("bot")
            if v.op == "clo":
                for nm, x in zip(v.a[1], v.a[2:]):
                    if nm == n or "^" + nm == n: return x
                # caps may be named differently from aggregate fields
                return T("up", n.lstrip("^"))
            if v.op == "resid" and n == "0": return v
            if v.op == "var":
                x, vn = v.a
                if vn == "Ok/Some" and x.op == "agg" and x.a[0].endswith(("::Ok", "::Some")): return self.proj(x, e, st)
                if vn == "Some" and x.op == "next" and n == "0": return self.elem(x.a[0])
            if v.op == "upd":
                base, path, x = v.a
                if path[0] == e:
                    if len(path) == 1: return x
                    return self.upd(self.proj(base, e, st), path[1:], x, st)
                return self.proj(base, e, st)
            if v.op == "bot": return v
            return self.q(T("field", v, n))
        if e.startswith("["):
            if v.op == "agg" and v.a[0] == "array" and e[1:-1].isdigit() and int(e[1:-1]) < len(v.a) - 2: return v.a[2 + int(e[1:-1])]
            return self.elem(v)
        return T("unk", e)
    def collect_snippets(self, target, it, e, st):
        """FromIterator of the generator's token containers: field-wise concatenation, in order"""
        kind = next((k for k in ("ApiSnippets", "RsSnippet") if re.search(r"::%s(<[^<>]*>)?$" % k, target)), None)
        if kind is None: return None
        xs = self.seq(it)
        if xs is None:
            if e is None and it.op != "call": return None
            xs = [(True, e if e is not None else self.elem(it))]
        self.collected.append(xs)
        def cat(path):
            r = T("empty")
            for rep, x in xs:
                for f in path: x = self.proj(x, "." + f, st)
                x = T("grp", "N", x)
                r = T("cat", r, T("hole", T("list", x, it)) if rep else x)
            return r
        rs = lambda p: T("agg", "RsSnippet::RsSnippet", ("tokens", "extern_c_decls"), cat(p + ["tokens"]), T("default"))
        if kind == "RsSnippet": return rs([])
        cc = lambda f: T("agg", "CcSnippet::CcSnippet", ("tokens", "prereqs"), cat([f, "tokens"]), T("default"))
        return T("agg", "ApiSnippets::ApiSnippets", ("main_api", "cc_details", "rs_details"), cc("main_api"), cc("cc_details"), rs(["rs_details"]))
    def seq(self, it):
        if it.op == "agg" and it.a[0] == "array": return [(False, x) for x in it.a[2:]]
        if it.op == "skipped" and it.a[1] in ("into_iter", "iter", "cloned", "copied", "by_ref", "peekable", "fuse"): return self.seq(it.a[0])
        if it.op == "chain":
            a, b = self.seq(it.a[0]), self.seq(it.a[1])
            if a is not None and b is not None: return a + b
        if it.op == "nil": return []
        return None
    def elem(self, it):
        if it.op == "alt": return alt(*[self.elem(x) for x in it.a])
        if it.op == "mapped": return it.a[1]
        if it.op == "list": return it.a[0]
        if it.op == "zip":
            p, q = perm(it.a[0]), perm(it.a[1])
            if p != q: return tup(*[T("permuted", self.elem(x)) if k else self.elem(x) for x, k in zip(it.a, (p, q))])
            return tup(self.elem(it.a[0]), self.elem(it.a[1]))
        if it.op == "enum": return tup(T("permuted", T("index", it.a[0])) if perm(it.a[0]) else T("index", it.a[0]), self.elem(it.a[0]))
        if it.op in ("filtered", "skipped"): return self.elem(it.a[0])
        if it.op == "chain": return alt(self.elem(it.a[0]), self.elem(it.a[1]))
        if it.op == "agg" and it.a[0] == "array" and len(it.a) > 2: return alt(*it.a[2:])
        if it.op == "agg" and it.a[0].endswith("Option::Some"): return it.a[2]
        if it.op == "push": return alt(self.elem(it.a[0]), it.a[1]) if it.a[0].op != "nil" else it.a[1]
        if it.op == "mu":
            return T("elem", it)
        return self.q(T("elem", it))
    def upd(self, base, path, x, st):
        if not path: return x
        e = path[0]
        if base.op == "agg" and e.startswith("."):
            n = e[1:]
            names = list(base.a[1])
            i = names.index(n) if n in names else (int(n) if n.isdigit() and all(m is None for m in names) and int(n) < len(names) else None)
            if i is not None:
                xs = list(base.a[2:]); xs[i] = self.upd(xs[i], path[1:], x, st)
                return T("agg", base.a[0], base.a[1], *xs)
        if e.startswith("@"): return self.upd(base, path[1:], x, st)
        if base.op == "upd" and base.a[1] == path: base = base.a[0]
        return T("upd", base, tuple(path), x)
    def store(self, loc, v, st):
        if loc[0] == "val":
            return
        if loc[0] == "many":
            for l in loc[1]: self.store(l, alt(self.load(l, st), v), st)
            return
        c, path = loc[1], tuple(loc[2])
        if not path: st[c] = v
        else: st[c] = self.upd(st.get(c, T("undef", str(c[1]))), path, v, st)
    def locate(self, p, fr, st):
        loc = ("cell", (fr, p[0]), ())
        for e in p[1:]:
            if e == "*":
                v = self.load(loc, st)
                if v.op == "ref": loc = ("cell", v.a[0], v.a[1])
                elif v.op == "alt" and any(x.op == "ref" for x in v.a):
                    loc = ("val", alt(*[self.load(("cell", x.a[0], x.a[1]), st) if x.op == "ref" else x for x in v.a]))
                elif loc[0] == "cell" and v.op != "undef": pass    # owned box or opaque pointer: transparent
                else: loc = ("val", v)
            elif loc[0] == "cell":
                v = self.load(loc, st)
                if v.op == "ref": loc = ("cell", v.a[0], tuple(v.a[1]) + (e,))     # auto-stripped wrappers around a reference
                else: loc = ("cell", loc[1], tuple(loc[2]) + (e,))
            else: loc = ("val", self.proj(loc[1], e, st))
        return loc
    # ---------------------------------------------------------------- functions
    def frame(self, parent, site, path):
        k = (parent, site, path)
        f = self.frames.get(k)
        if f is None: f = self.frames[k] = len(self.frames)
        return f
    def body(self, b, args, st, site, parent=-1):
        fr = self.frame(parent, site, b.path)
        for i, a in enumerate(args): st[(fr, i + 1)] = a
        self.active.append(b.path)
        try:
            r, out = self.fix(b, fr, st)
        finally: self.active.pop()
        if out is None: return None
        st.clear()
        # keep cells of this frame that are still referenced (closures capturing temporaries)
        used = set()
        for c, v in out.items():
            if not (isinstance(c, tuple) and c[0] == fr): self.refs(v, used)
        if r is not None: self.refs(r, used)
        work = list(used)
        while work:
            c = work.pop()
            if c in out and c[0] == fr:
                s2 = set(); self.refs(out[c], s2)
                for x in s2:
                    if x not in used: used.add(x); work.append(x)
        for c, v in out.items():
            if isinstance(c, tuple) and c[0] == fr and c not in used: continue
            st[c] = v
        return r
    def refs(self, v, out, d=0):
        if not isinstance(v, T): return
        if v.op == "ref": out.add(v.a[0]); return
        if v.op in ("agg", "alt", "clo", "list", "upd", "mapped", "zip", "filtered", "field", "var", "chain", "cat", "hole", "grp", "push", "enum", "skipped", "call", "next", "elem") and d < 6:
            for x in v.a:
                if isinstance(x, T): self.refs(x, out, d + 1)
    def cfg(self, b):
        c = b._cache.get("ai")
        if c: return c
        n = len(b.blocks)
        succ = {i: [s for s in dict.fromkeys(b.succs(i)) if not b.blocks[s]["c"]] for i in range(n)}
        order, state, back = [], {0: 1}, set()
        st = [(0, iter(succ[0]))]
        while st:
            u, it = st[-1]
            for v in it:
                if v not in state:
                    state[v] = 1; st.append((v, iter(succ[v]))); break
                elif state[v] == 1: back.add((u, v))
            else:
                state[u] = 2; order.append(u); st.pop()
        order.reverse()
        b._cache["ai"] = (order, back, {v for _, v in back})
        return b._cache["ai"]
    def fix(self, b, fr, st0):
        order, back, heads = self.cfg(b)
        for it in range(8):
            ev0, pn0 = len(self.events), len(self.panics)
            ins = {0: [dict(st0)]}
            rets, changed = [], False
            for u in order:
                if u not in ins: continue
                s = self.join(ins.pop(u))
                if u in heads:
                    for c in self.muset.get((fr, u), ()):
                        if c in s:
                            m = T("mu", fr, u, str(c))
                            self.mu[m] = [s[c], set()]; self.idle.discard(m)
                            s[c] = m
                    hs = dict(s)
                    ins[("h", u)] = hs
                outs = self.block(b, fr, u, s, rets)
                for v, so in outs:
                    if (u, v) in back:
                        hs = ins.get(("h", v))
                        if hs is None: continue
                        ms = self.muset.setdefault((fr, v), set())
                        for c, x in so.items():
                            if not isinstance(c, tuple) or c not in hs: continue
                            if c in ms:
                                m = T("mu", fr, v, str(c))
                                if x is not m and m in self.mu: self.mu[m][1].add(x)
                                elif x is m: self.idle.add(m)
                            elif x is not hs[c]:
                                ms.add(c); changed = True
                    else: ins.setdefault(v, []).append(so)
            if not changed: break
            del self.events[ev0:], self.panics[pn0:]
        if not rets: return None, None
        vals = [r for r, _ in rets]
        return alt(*vals), self.join([s for _, s in rets])
    def join(self, ss):
        if len(ss) == 1: return ss[0]
        out = {}
        keys = set()
        for s in ss: keys |= s.keys()
        for k in keys:
            if not isinstance(k, tuple):      # assumption about a term: keep if common
                v = frozenset()
                for s in ss:
                    if k not in s: v = None; break
                    v |= s[k]
                if v is not None: out[k] = v
                continue
            vs = [s[k] for s in ss if k in s]
            f = vs[0]
            out[k] = f if all(x is f for x in vs) else alt(*vs)
        return out
    # ---------------------------------------------------------------- statements
    def operand(self, o, fr, st):
        if "k" in o: return self.const(o["k"])
        p = o.get("c") or o.get("m")
        if p is None: return T("unk", "op")
        return self.load(self.locate(p, fr, st), st)
    def const(self, k):
        t = const_term(k)
        if t.op == "cdef":
            key = t.a[0] + (f"::promoted[{t.a[1]}]" if t.a[1] >= 0 else "")
            b = self.F.bodies.get(key)
            if b is not None and key not in self.active:
                mk = ("const", key)
                if mk not in self.memo:
                    st = {}
                    n = len(self.events)
                    r = self.body(b, [], st, ("const", key))
                    del self.events[n:]
                    self.memo[mk] = self.deep(r, st) if r is not None else t
                return self.memo[mk]
            return self.q(t)
        return t
    def rvalue(self, r, fr, st):
        k = r["r"]
        if k == "use": return self.operand(r["o"], fr, st)
        if k in ("ref", "ptr"):
            loc = self.locate(r["p"], fr, st)
            if loc[0] == "cell":
                v = self.load(loc, st)
                # a shared view of a plain term is the term
                if not r["mut"] and loc[2] and v.op in ("const", "arg", "call"): return v
                if loc[1] not in st: return v
                return T("ref", loc[1], tuple(loc[2]), int(bool(r["mut"])))
            return loc[1]
        if k == "cast":
            if r["k"] == "BoxDerefTransmute":      # the pointer inside a box is the box
                p = r["o"].get("c") or r["o"].get("m")
                if p is not None and len(p) > 1:
                    v = self.load(self.locate(p[:-1], fr, st), st)
                    if v.op == "ref": return v
            v = self.operand(r["o"], fr, st)
            return self.cast(v, r["k"], r["ty"]) if self.cast else v
        if k == "bin":
            x, y = self.deep(self.operand(r["a"], fr, st), st), self.deep(self.operand(r["b"], fr, st), st)
            ov = "WithOverflow" in r["k"]
            t = self.binop(r["k"].replace("WithOverflow", "").replace("Unchecked", ""), x, y)
            return tup(t, FALSEc) if ov else t
        if k == "un":
            x = self.deep(self.operand(r["o"], fr, st), st)
            if r["k"] == "Not": return self.lnot(x)
            if x.op == "const" and x.a[1] == "int" and r["k"] == "Neg": return T("const", -x.a[0], "int")
            return T("un", r["k"], x)
        if k == "disc":
            v = self.deep(self.load(self.locate(r["p"], fr, st), st), st)
            d = T("disc", v)
            if r["vs"]: self.dvs = getattr(self, "dvs", {}); self.dvs[d] = r["vs"]
            return d
        if k == "agg":
            ops = [self.operand(o, fr, st) for o in r["os"]]
            if "clo" in r: return T("clo", r["clo"], tuple(r["fs"]), *ops)
            if "adt" in r and r["var"] == "Err" and self.short: return FAIL
            if "adt" in r: return T("agg", r["adt"] + "::" + r["var"], tuple(r["fs"]) if "fs" in r else tuple(None for _ in ops), *ops)
            return T("agg", "tuple" if "tup" in r else "array", tuple(None for _ in ops), *ops)
        if k == "rep": return T("list", self.operand(r["o"], fr, st))
        if k == "tls": return T("static", r["def"])
        return T("unk", k)
    def lnot(self, x):
        if x.op == "const": return boolc(not x.a[0])
        if x.op == "not": return x.a[0]
        if x.op == "alt": return alt(*[self.lnot(y) for y in x.a])
        return T("not", x)
    def binop(self, k, x, y):
        if x.op == "alt" and len(x.a) * len(alts(y)) <= 16: return alt(*[self.binop(k, a, y) for a in x.a])
        if y.op == "alt" and len(y.a) <= 16: return alt(*[self.binop(k, x, b) for b in y.a])
        if x.op == y.op == "const" and x.a[1] == y.a[1] == "int" and k in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub", "BitAnd", "BitOr", "BitXor", "Mul"):
            a, b = x.a[0], y.a[0]
            r = {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
                 "Add": lambda: a + b, "Sub": lambda: a - b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Mul": lambda: a * b}[k]()
            return T("const", int(r), "int")
        if k in ("BitAnd", "BitOr"):
            for a, b in ((x, y), (y, x)):
                if a.op == "const" and a.a[1] == "int" and a.a[0] in (0, 1):
                    if k == "BitAnd": return b if a.a[0] else FALSEc
                    if k == "BitOr" and not a.a[0]: return b
        if k in ("Eq", "Ne"):
            e = self.equal(x, y)
            return e if k == "Eq" else self.lnot(e)
        if k == "Gt": k, x, y = "Lt", y, x
        elif k == "Ge": return self.lnot(self.q(T("bin", "Lt", x, y)))
        elif k == "Le": return self.lnot(self.q(T("bin", "Lt", y, x)))
        return self.q(T("bin", k, x, y))
    def equal(self, x, y):
        if x.op == "alt" and len(x.a) <= 12: return alt(*[self.equal(a, y) for a in x.a])
        if y.op == "alt" and len(y.a) <= 12: return alt(*[self.equal(x, b) for b in y.a])
        if x is y: return TRUEc
        if x.op == y.op == "const" and x.a[1] == y.a[1]: return boolc(x.a[0] == y.a[0])
        if x.op == "disc" and y.op == "disc":
            for a, b in ((x, y), (y, x)):
                v = b.a[0]
                if v.op == "agg" and "::" in v.a[0]: return self.isvar(a.a[0], frozenset({vname(v.a[0])}))
        for a, b in ((x, y), (y, x)):
            if b.op == "agg" and "::" in b.a[0] and len(b.a) == 2:      # comparison with a field-less variant
                return self.isvar(a, frozenset({vname(b.a[0])}))
        if x.op == y.op == "agg" and "::" in x.a[0] and "::" in y.a[0]:
            if vname(x.a[0]) != vname(y.a[0]): return FALSEc
            if len(x.a) == len(y.a):
                rs = [self.equal(a, b) for a, b in zip(x.a[2:], y.a[2:])]
                if all(r is TRUEc for r in rs): return TRUEc
                if any(r is FALSEc for r in rs): return FALSEc
                rs = [r for r in rs if r is not TRUEc]
                if len(rs) == 1: return rs[0]
        x, y = sorted((x, y), key=lambda t: (t.op == "const", t.id))
        return self.q(T("eq", x, y))
    def isvar(self, v, names):
        """value of `v is one of the variants names`"""
        out = []
        for x in alts(v):
            o = self.variant(x)
            if o is not None:
                if o <= names: out.append(TRUEc)
                elif not (o & names): out.append(FALSEc)
                else: out.append(T("isv", T("disc", x), tuple(sorted(names))))
            else: out.append(T("isv", T("disc", x), tuple(sorted(names))))
        return alt(*out)
    def variant(self, v, st=None):
        """set of variant names v may have, or None if undecided"""
        if v.op == "agg" and "::" in v.a[0]: return frozenset({vname(v.a[0])})
        if v.op == "alt":
            out = set()
            for x in v.a:
                o = self.variant(x, st)
                if o is None: return None
                out |= o
            return frozenset(out)
        if v.op == "branch":
            o = self.variant(v.a[0], st)
            if o is None: return None
            return frozenset("Continue" if n in ("Ok", "Some") else "Break" for n in o)
        if v.op == "fail": return frozenset({"Err", "None"})
        if v.op == "list" or v.op == "clo": return None
        r = self.oracle(T("disc", v))
        if r is not None: return frozenset(r) if not isinstance(r, (T, str)) else frozenset({r.a[0] if isinstance(r, T) else r})
        if st is not None:
            a = st.get(T("disc", v))
            if a is not None: return a
        return None
    # ---------------------------------------------------------------- blocks
    def block(self, b, fr, u, st, rets):
        self.steps += 1
        if self.steps > 400000: raise Loop("budget")
        bb = b.blocks[u]
        for p, r, ln in bb["s"]:
            k = r["r"]
            if k in ("live", "intr"): continue
            if k == "dead": continue
            if k == "setdisc": continue
            v = self.rvalue(r, fr, st)
            if len(p) == 1: st[(fr, p[0])] = v
            else: self.store(self.locate(p, fr, st), v, st)
        t = bb["t"]; k = t["t"]
        if k in ("goto", "drop", "assert"):
            return [(t["to"], st)] if t.get("to") is not None else []
        if k == "ret":
            rets.append((st.get((fr, 0), UNIT), st)); return []
        if k == "sw": return self.switch(b, fr, t, st)
        if k == "call":
            r = self.call(b, fr, u, t, st)
            if r is None or t.get("to") is None: return []
            d = t["d"]
            if len(d) == 1: st[(fr, d[0])] = r
            else: self.store(self.locate(d, fr, st), r, st)
            return [(t["to"], st)]
        return []
    def switch(self, b, fr, t, st):
        d = self.deep(self.operand(t["o"], fr, st), st)
        targets = []     # (label, to) ; label None = otherwise
        if d.op == "disc":
            vs = getattr(self, "dvs", {}).get(d) or {}
            poss = set()
            undecided = False
            unk = []
            for x in alts(d.a[0]):
                o = self.variant(x, st)
                if o is None: undecided = True; unk.append(x)
                else: poss |= o
            named, out = set(), []
            for v, to in t["vs"]:
                nm = vs.get(str(v), str(v)); named.add(nm)
                if undecided or nm in poss: out.append((to, frozenset({nm})))
            rest = frozenset(set(vs.values()) - named) if vs else None
            if rest is None or rest:
                if undecided or rest is None or (poss - named): out.append((t["ot"], rest))
            if len(out) == 1: 
                return [(out[0][0], st)]
            res = []
            key = T("disc", unk[0]) if len(unk) == 1 and not poss else None
            for to, nm in out:
                s2 = dict(st)
                if key is not None and nm is not None:
                    s2[key] = nm
                    if unk[0].op == "branch":      # the same fact about the value inside `?`
                        s2[T("disc", unk[0].a[0])] = frozenset({"Ok", "Some"} if nm == frozenset({"Continue"}) else {"Err", "None"})
                # narrow a matched variable that holds alternatives
                if d.a[0].op == "alt" and nm is not None:
                    self.narrow(s2, d.a[0], nm)
                res.append((to, s2))
            return res
        if self.pick and d.op != "const":      # hook: (value, labels) -> the label taken, "otherwise", or None if it cannot tell
            c = self.pick(d, [int(v) for v, _ in t["vs"]])
            if c is not None: return [(dict((int(v), to) for v, to in t["vs"]).get(c, t["ot"]), st)]
        poss = set(); undecided = []
        for x in alts(d):
            v = self.decide(x, st)
            if v is None: undecided.append(x)
            else: poss |= v
        out, used = [], set()
        for v, to in t["vs"]:
            vv = int(v) if not isinstance(v, str) else v
            used.add(vv)
            if undecided or vv in poss: out.append((to, frozenset({vv})))
        if t["ty"] == "bool":
            r = frozenset({0, 1} - used)
            if r and (undecided or (poss & r)): out.append((t["ot"], r))
        elif undecided or (poss - used): out.append((t["ot"], None))
        if len(out) == 1: return [(out[0][0], st)]
        res = []
        for to, vals in out:
            s2 = dict(st)
            if len(undecided) == 1 and not poss and vals is not None and t["ty"] == "bool": self.assume(s2, undecided[0], bool(next(iter(vals))))
            res.append((to, s2))
        return res
    def narrow(self, st, v, nm):
        keep = []
        for x in v.a:
            o = self.variant(x, st)
            if o is None or (o & nm): keep.append(x)
        if not keep or len(keep) == len(v.a): return
        nv = alt(*keep)
        for c, x in list(st.items()):
            if x is v: st[c] = nv
    def assume(self, st, x, val):
        if x.op == "not": return self.assume(st, x.a[0], not val)
        if x.op == "isv":
            names = frozenset(x.a[1])
            if val: st[x.a[0]] = names
            return
        if isinstance(x, T): st[x] = frozenset({int(val)})
    def decide(self, x, st):
        if x.op == "const" and isinstance(x.a[0], int): return {x.a[0]}
        if x.op == "bot": return set()
        if x.op == "const" and x.a[1] == "char": return {ord(x.a[0])}
        if x.op == "not":
            r = self.decide(x.a[0], st)
            return None if r is None else {1 - v for v in r}
        if x.op == "isv":
            o = self.variant(x.a[0].a[0], st)
            if o is None: return None
            n = frozenset(x.a[1])
            return {1} if o <= n else ({0} if not (o & n) else {0, 1})
        a = st.get(x)
        if a is not None and all(isinstance(v, int) for v in a): return set(a)
        if x.op == "field":
            r = self.oracle(x)
            if r is not None and r.op == "const": return {int(r.a[0])}
        return None
    # ---------------------------------------------------------------- calls
    def apply(self, f, args, st, site, fr):
        """call a closure or function value"""
        if f.op == "alt":
            outs, rs = [], []
            for x in f.a:
                s2 = dict(st); r = self.apply(x, args, s2, site + (x.id,), fr)
                if r is not None: outs.append(s2); rs.append(r)
            if not rs: return None
            j = self.join(outs); st.clear(); st.update(j)
            return alt(*rs)
        if f.op == "ref": f2 = self.load(("cell", f.a[0], f.a[1]), st); return self.apply(f2, args, st, site, fr) if f2.op == "clo" or f2.op == "fnref" or f2.op == "ref" else self.q(T("app", self.deep(f, st), *[self.deep(a, st) for a in args]))
        if f.op == "clo":
            b = self.F.bodies.get(f.a[0])
            if b is not None and len(self.active) < self.depth + 8 and self.active.count(b.path) < self.rec + 1:
                return self.body(b, [f] + list(args), st, site, fr)
        if f.op == "fnref":
            fn = f.a[0]
            b = self.F.bodies.get(fn)
            if b is not None and self.can_inline(fn): return self.inline(b, args, st, site, fr)
            if fn in IDENT: return args[0]
            # an enum variant or struct constructor
            nm = fn
            if vname(nm)[:1].isupper(): return T("agg", nm, tuple(str(i) for i in range(len(args))), *args)
            r = self.intrinsic({}, fn, fn, [self.deep(a, st) for a in args], list(args), st, site, fr)
            if r is not None: return r[0]
            return self.q(T("call", fn, *[self.deep(a, st) for a in args]))
        return self.q(T("app", self.deep(f, st), *[self.deep(a, st) for a in args]))
    def can_inline(self, fn):
        if self.opaque(fn): return False
        if self.inline_only is not None and not self.inline_only(fn): return False
        return len(self.active) < self.depth and self.active.count(fn) < self.rec
    def inline(self, b, args, st, site, fr):
        pure = not any(self.has_ref(a) for a in args)
        key = ("fn", b.path, tuple(a.id for a in args)) if pure else None
        if key and key in self.memo:
            r, ev = self.memo[key]
            self.events.extend(ev)
            return r
        n = len(self.events)
        s2 = st if not pure else {}
        if pure:
            for k, v in st.items():
                if not isinstance(k, tuple): s2[k] = v
            if s2: key = None
        r = self.body(b, list(args), s2, site, fr)
        if r is not None and pure: r = self.deep(r, s2)
        if key: self.memo[key] = (r, self.events[n:])
        return r
    def has_ref(self, v, d=0):
        if v.op == "ref": return True
        if v.op in ("agg", "alt", "clo", "list", "upd", "mapped", "zip", "filtered", "enum", "chain", "field", "var", "skipped", "next", "elem") and d < 6:
            return any(isinstance(x, T) and self.has_ref(x, d + 1) for x in v.a)
        return False
    def call(self, b, fr, u, t, st):
        f = t["f"]
        raw = [self.operand(a, fr, st) for a in t["a"]]
        if "fn" in f: fn, decl = f.get("rs") or f["fn"], f["fn"]
        elif "clo" in f: fn = decl = f["clo"]
        else:
            fv = self.operand(f["ind"], fr, st) if "ind" in f else T("unk", "ind")
            return self.apply(fv, raw, st, (u,), fr)
        vals = [self.deep(v, st) for v in raw]
        site = (u,)
        lastn = decl.rsplit("::", 1)[-1]
        ev = Event(fn=fn, decl=decl, args=vals, line=t["ln"], body=b.path, mac=t.get("mac", ""), ga=f.get("ga"), stack=tuple(self.active))
        self.events.append(ev)
        if t.get("to") is None:
            self.panics.append((fn, vals, b.path, t["ln"])); return None
        r = self.tokens_call(f, decl, lastn, vals, raw, st)
        if r is None:
            x = self.intrinsic(f, decl, fn, vals, raw, st, site, fr)
            if x is not None: r = x[0]; 
            if x is not None and r is None: return None
        if r is None:
            pre = self.oracle(T("call", fn, *vals))
            if pre is not None: r = pre
        if r is None:
            al = self.alias(fn) if self.alias else None
            body = self.F.bodies.get(al or fn)
            if body is None and decl != fn: body = self.F.bodies.get(decl)
            if body is not None and self.can_inline(body.path):
                r = self.inline(body, raw, st, site, fr)
                if r is None: return None
        if r is None and decl in IDENT: r = raw[0] if decl in KEEPREF else vals[0]
        if r is None and (decl.endswith("::to_string") or decl.endswith("::to_owned")): r = vals[0]
        if r is None:
            self.uninlined[fn] = self.uninlined.get(fn, 0) + 1
            r = T("call", fn, *vals)
            self.havoc(fn, raw, vals, f, st)
        ev.ret = r
        return r
    def havoc(self, fn, raw, vals, f, st):
        """an uninterpreted call may change what it gets by mutable reference"""
        for i, v in enumerate(raw):
            for x in alts(v):
                if x.op == "ref" and len(x.a) > 2 and x.a[2]:
                    if fn.startswith(("std::fmt", "core::fmt", "<impl std::fmt", "std::cmp", "std::option", "std::result")): continue
                    loc = ("cell", x.a[0], x.a[1])
                    e = T("eff", fn, i, *vals)
                    self.store(loc, e if v.op != "alt" else alt(self.load(loc, st), e), st)
    def tokens_call(self, f, decl, lastn, vals, raw, st):
        def tgt(i):
            v = raw[i]
            return ("cell", v.a[0], v.a[1]) if v.op == "ref" else None
        def append(i, item):
            pl = tgt(i)
            if pl is not None: self.store(pl, T("cat", self.load(pl, st), item), st)
            return UNIT
        if decl.startswith("quote::__private::push_"):
            if lastn in ("push_ident", "push_ident_spanned", "push_lifetime"):
                return append(0, T("tok", vals[-1].a[0]) if vals[-1].op == "const" else T("hole", vals[-1]))
            if lastn in ("push_group", "push_group_spanned"):
                d = "N"
                for v in vals:
                    if v.op == "agg" and "Delimiter::" in v.a[0]: d = {"Parenthesis": "P", "Brace": "B", "Bracket": "K", "None": "N"}[vname(v.a[0])]
                return append(0, T("grp", d, vals[-1]))
            return append(0, T("tok", PUSH.get(lastn, PUSH.get(lastn.replace("_spanned", ""), lastn))))
        if decl == "quote::__private::parse" and vals[1].op == "const": return append(0, T("tok", vals[1].a[0]))
        if decl == "quote::ToTokens::to_tokens":
            b = self.F.bodies.get(f.get("rs") or "")
            if b is not None and self.can_inline(b.path): return None
            return append(1, T("hole", vals[0]))
        if (decl.endswith("::append") and "TokenStream" in decl) or lastn == "append_all": return append(0, T("hole", vals[1]))
        if decl == "std::iter::Extend::extend" and "TokenStream" in (f.get("ga") or [""])[0]: return append(0, T("hole", vals[1]))
        if decl == "proc_macro2::TokenStream::new": return T("empty")
        if decl.endswith("Default::default") and f.get("ga") and "proc_macro2::TokenStream" == f["ga"][0]: return T("empty")
        if decl == "quote::ToTokens::to_token_stream" or decl == "quote::ToTokens::into_token_stream": return T("cat", T("empty"), T("hole", vals[0]))
        return None
    def intrinsic(self, f, decl, fn, vals, raw, st, site, fr):
        if decl.startswith("quote::__private::ext::") and decl.endswith("::quote_into_iter"): return (tup(vals[0], UNIT),)
        """Well-known library functions; returns a 1-tuple, or None if not known."""
        last = decl.rsplit("::", 1)[-1]
        if decl in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            tv = raw[1] if len(raw) > 1 else UNIT
            args = tv.a[2:] if tv.op == "agg" and tv.a[0] == "tuple" else (tv,)
            return (self.apply(raw[0], args, st, site, fr),)
        if decl == "std::ops::Try::branch": return (T("branch", vals[0]),)
        if decl == "std::ops::FromResidual::from_residual":
            x = vals[0]
            if x.op == "resid":
                out = []
                for y in alts(x.a[0]):
                    if y.op == "agg" and vname(y.a[0]) in ("Ok", "Some"): continue
                    out.append(y if y.op == "agg" else FAIL)
                return (alt(*out) if out else FAIL,)
            return (FAIL,)
        if decl in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            e = self.equal(vals[0], vals[1])
            return (e if last == "eq" else self.lnot(e),)
        if decl == "std::ops::Not::not": return (self.lnot(vals[0]),)
        if decl in ("std::ops::BitOr::bitor", "std::ops::BitAnd::bitand") and vals[0].op == "const": return (self.binop("BitOr" if last == "bitor" else "BitAnd", *vals[:2]),)
        isopt, isres = decl.startswith("std::option::Option::<"), decl.startswith("std::result::Result::<")
        if isopt or isres:
            good, bad = ("Some", "None") if isopt else ("Ok", "Err")
            r = self.optres(last, good, bad, isopt, vals, raw, st, site, fr)
            if r is not None: return r
        if decl == "std::bool::<impl bool>::then" or decl == "core::bool::<impl bool>::then" or decl == "bool::then" or decl == "bool::<impl bool>::then":
            return (self.cond_value(vals[0], lambda s: some(self.apply(raw[1], [], s, site, fr)), lambda s: NONE, st),)
        if last == "then_some" and "bool" in decl:
            return (self.cond_value(vals[0], lambda s: some(vals[1]), lambda s: NONE, st),)
        if decl.endswith("Arguments::<'a>::new") and len(vals) >= 2 and vals[0].op == "const":
            al = vals[1]
            xs = list(al.a[2:]) if al.op == "agg" else []
            try: return (T("fmt", *decode_fmt(vals[0].a[0], xs)),)
            except (IndexError, TypeError): return (T("fmt", T("unk", "fmt"), *xs),)
        if (decl.endswith("Arguments::<'a>::from_str") or decl.endswith("from_str_nonconst")) and vals and vals[0].op == "const": return (T("fmt", vals[0].a[0]),)
        if "fmt::rt::Argument" in decl and last.startswith("new_"): return (vals[0] if last == "new_display" else T("fmtas", last[4:], vals[0]),)
        if decl == "std::default::Default::default" and (f.get("ga") or [""])[0].startswith("std::option::Option<"): return (NONE,)
        if decl == "std::boxed::Box::<T>::new_uninit":      # the array behind vec![..]
            c = (fr, "heap%d" % site[0]); st[c] = T("undef", "heap")
            return (T("ref", c, (), 1),)
        if decl == "std::boxed::box_assume_init_into_vec_unsafe":
            v = vals[0]
            while v.op == "upd": v = v.a[2]
            return (v,)
        if decl in ("std::ops::Index::index", "std::ops::IndexMut::index_mut") and all(x.op in ("list", "mapped") or x.op == "agg" and x.a[0] == "array" for x in alts(vals[0])): return (self.elem(vals[0]),)
        if decl in ("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity") : return (T("nil"),)
        if decl in ("std::vec::Vec::<T, A>::push",):
            if raw[0].op == "ref":
                loc = ("cell", raw[0].a[0], raw[0].a[1])
                self.store(loc, T("push", self.load(loc, st), vals[1]), st)
            return (UNIT,)
        if decl.startswith("std::iter::Iterator::") or decl.startswith("itertools::Itertools::") or decl.startswith("std::iter::"):
            return self.iters(last, vals, raw, st, site, fr, f)
        if decl == "std::mem::take" and raw[0].op == "ref":
            loc = ("cell", raw[0].a[0], raw[0].a[1])
            v = self.load(loc, st)
            self.store(loc, T("default"), st)
            return (v,)
        if decl == "std::mem::replace" and raw[0].op == "ref":
            loc = ("cell", raw[0].a[0], raw[0].a[1])
            v = self.load(loc, st)
            self.store(loc, raw[1], st)
            return (v,)
        if last in ("with_context", "context") and "Context" in decl: 
            return (vals[0],)
        return None
    def split(self, v, good, st):
        """(known-good payloads, has-bad alternatives [terms], undecided terms)"""
        g, bd, un = [], [], []
        for x in alts(v):
            if x.op == "agg" and vname(x.a[0]) == good: g.append(x.a[2] if len(x.a) > 2 else UNIT)
            elif x.op == "agg" and "::" in x.a[0]: bd.append(x)
            elif x.op == "fail": bd.append(x)
            elif x.op == "bot": pass
            else:
                o = self.variant(x, st)
                if o is not None and good in o and len(o) == 1: g.append(self.payload(x, good))
                elif o is not None and good not in o: bd.append(x)
                else: un.append(x)
        return g, bd, un
    def payload(self, x, good):
        if x.op == "next" and good == "Some": return self.elem(x.a[0])
        return self.q(T("field", self.q(T("var", x, good)), "0"))
    def cond_value(self, c, yes, no, st):
        poss = set()
        for x in alts(c):
            d = self.decide(x, st)
            poss |= d if d is not None else {0, 1}
        if poss == {1}: return yes(st)
        if poss == {0}: return no(st)
        s1, s2 = dict(st), dict(st)
        if c.op != "alt": self.assume(s1, c, True); self.assume(s2, c, False)
        a, b = yes(s1), no(s2)
        j = self.join([s for s, v in ((s1, a), (s2, b)) if v is not None] or [st])
        st.clear(); st.update(j)
        return alt(a, b)
    def optres(self, last, good, bad, isopt, vals, raw, st, site, fr):
        v = vals[0]
        if last in ("is_some", "is_ok"): return (self.isvar2(v, good, st),)
        if last in ("is_none", "is_err"): return (self.lnot(self.isvar2(v, good, st)),)
        g, bd, un = self.split(v, good, st)
        goods = g + [self.payload(x, good) for x in un]
        gv = alt(*goods) if goods else None
        maybad = bool(bd or un)
        badt = [x if not (x.op == "agg") else x for x in bd] + [FAIL if not isopt else NONE for x in un]
        def errpay():
            out = []
            for x in bd: out.append(x.a[2] if x.op == "agg" and len(x.a) > 2 else T("errof", x))
            for x in un: out.append(T("field", T("var", x, "Err"), "0"))
            return alt(*out) if out else T("bot")
        def app(i, *args):
            s2 = dict(st)
            r = self.apply(raw[i], list(args), s2, site + (i,), fr)
            if r is None: return None
            j = self.join([st, s2]) if maybad else s2
            if j is not st: st2 = dict(j); st.clear(); st.update(st2)
            return r
        if last in ("unwrap", "expect", "unwrap_unchecked"):
            return (gv,) if gv is not None else (T("bot"),) if getattr(self, "lenient", False) else (None,)
        if last in ("unwrap_err", "expect_err"): return (errpay(),)
        if last == "map":
            r = app(1, gv) if gv is not None else None
            out = list(badt)
            if r is not None: out.append(some(r) if isopt else ok(r))
            return (alt(*out),)
        if last == "and_then":
            r = app(1, gv) if gv is not None else None
            return (alt(*(badt + ([r] if r is not None else []))),)
        if last == "filter" and isopt:
            out = list(badt)
            if gv is not None:
                c = app(1, gv)
                ds = set()
                for x in alts(c):
                    d = self.decide(x, st); ds |= d if d is not None else {0, 1}
                if 1 in ds: out += [some(gv)]
                if 0 in ds: out += [NONE]
            return (alt(*out),)
        if last in ("unwrap_or", "or"):
            out = ([gv] if last == "unwrap_or" else [some(gv) if isopt else ok(gv)]) if gv is not None else []
            if maybad: out.append(vals[1])
            return (alt(*out),)
        if last == "unwrap_or_default":
            out = [gv] if gv is not None else []
            if maybad: out.append(T("default"))
            return (alt(*out),)
        if last in ("unwrap_or_else", "or_else"):
            out = ([gv] if last == "unwrap_or_else" else [some(gv) if isopt else ok(gv)]) if gv is not None else []
            if maybad:
                r = self.apply(raw[1], [] if isopt else [errpay()], st, site, fr)
                if r is not None: out.append(r)
            return (alt(*out) if out else None,)
        if last in ("ok_or", "ok_or_else"):
            out = [ok(gv)] if gv is not None else []
            if maybad:
                e = vals[1] if last == "ok_or" else self.apply(raw[1], [], st, site, fr)
                if e is not None: out.append(err(e))
            return (alt(*out),)
        if last == "map_err":
            out = [ok(gv)] if gv is not None else []
            if maybad:
                e = self.apply(raw[1], [errpay()], st, site, fr)
                if e is not None: out.append(err(e))
            return (alt(*out),)
        if last == "ok" and not isopt:
            out = [some(gv)] if gv is not None else []
            if maybad: out.append(NONE)
            return (alt(*out),)
        if last == "err" and not isopt:
            out = [NONE] if gv is not None else []
            if maybad: out.append(some(errpay()))
            return (alt(*out),)
        if last in ("map_or", "map_or_else"):
            out = []
            if gv is not None:
                r = app(2, gv)
                if r is not None: out.append(r)
            if maybad:
                r = vals[1] if last == "map_or" else self.apply(raw[1], [] if isopt else [errpay()], st, site, fr)
                if r is not None: out.append(r)
            return (alt(*out),)
        if last in ("is_some_and", "is_ok_and", "is_none_or"):
            out = []
            if gv is not None:
                if un and not g and not bd and len(un) == 1:
                    pass
                r = app(1, gv)
                if r is not None: out.append(r)
            if maybad: out.append(boolc(last == "is_none_or"))
            return (alt(*out),)
        if last == "take" and isopt:
            if raw[0].op == "ref": self.store(("cell", raw[0].a[0], raw[0].a[1]), NONE, st)
            return (v,)
        if last in ("insert", "get_or_insert_with", "replace"): return None
        if last == "transpose":       # decided only when every alternative is a known constructor
            out = []
            for x in alts(v):
                if x.op == "fail": return None
                k, y = vname(x.a[0]) if x.op == "agg" else None, x.a[2] if x.op == "agg" and len(x.a) > 2 else None
                if isopt:
                    if k == "None": out.append(ok(NONE)); continue
                    if k != "Some": return None
                    for z in alts(y):
                        if z.op != "agg": return None
                        out.append(ok(some(z.a[2])) if vname(z.a[0]) == "Ok" else z)
                else:
                    if k == "Err": out.append(some(x)); continue
                    if k != "Ok": return None
                    for z in alts(y):
                        if z.op != "agg": return None
                        out.append(some(ok(z.a[2])) if vname(z.a[0]) == "Some" else NONE)
            return (alt(*out),)
        if last in ("inspect", "inspect_err"):
            if last == "inspect" and gv is not None: app(1, gv)
            if last == "inspect_err" and maybad: self.apply(raw[1], [errpay()], st, site, fr)
            return (v,)
        return None
    def isvar2(self, v, good, st):
        out = []
        for x in alts(v):
            if x.op == "fail": out.append(FALSEc); continue
            o = self.variant(x, st)
            if o is not None and o <= {good, "Ok", "Some"} : out.append(TRUEc)
            elif o is not None and not (o & {good, "Ok", "Some"}): out.append(FALSEc)
            else: out.append(T("isv", T("disc", x), (good,)))
        return alt(*out)
    def iters(self, last, vals, raw, st, site, fr, f):
        it = vals[0] if vals else None
        def el(): return self.elem(it)
        def app(i, *args): return self.apply(raw[i], list(args), st, site, fr)
        if it is not None and it.op == "nil" and last in ("map", "filter", "filter_map", "flat_map", "map_while", "enumerate", "zip", "skip", "take", "rev", "cloned", "copied", "into_iter", "iter", "peekable", "sorted", "inspect"): return (it,)
        if last == "next" or last == "next_back":
            nx = T("next", it)      # what an earlier loop over the same sequence saw says nothing about this one
            for k in (nx, T("disc", nx)): st.pop(k, None)
            return (nx,)
        if last == "map" :
            r = app(1, el())
            if self.twice and r is not None and el().op in ("elem", "field", "alt", "var"):
                # two consecutive elements, one after the other
                r2 = app(1, T("elem2", el()))
                tk = lambda t: all(x.op in ("cat", "empty") for x in alts(t))
                if r2 is not None and tk(r) and tk(r2): return (T("mapped", it, T("cat", self.deep(r, st), T("hole", self.deep(r2, st)))),)
            return (T("mapped", it, self.deep(r, st)),) if r is not None else (T("nil"),)
        if last in ("take_while", "skip_while"): self.partial.add((fr_fn(self.active), last))
        if last in ("filter", "take_while", "skip_while", "inspect"):
            r = app(1, el())
            if last == "filter" and r is not None and not self.twice:
                d = set()
                for x in alts(r):
                    k = self.decide(x, st)
                    d |= k if k is not None else {2}
                if d == {0}: return (T("nil"),)
                if d == {1}: return (it,)
            return (T("filtered", it, self.deep(r, st) if r is not None else TOP),)
        if last in ("filter_map", "flat_map", "map_while"):
            r = app(1, el())
            if r is None: return (T("nil"),)
            if last == "flat_map":      # a TokenStream iterates over its own tokens
                tk = lambda t: all(x.op in ("cat", "empty") or x.op == "list" and tk(x.a[0]) for x in alts(t))
                if tk(r) and any(x.op != "list" for x in alts(r)): return (T("mapped", it, self.deep(r, st)),)
            r = self.deep(r, st)
            if last == "flat_map": return (T("mapped", it, self.elem(r)),)
            g, bd, un = self.split(r, "Some", st)
            xs = g + [self.payload(x, "Some") for x in un]
            if not xs: return (T("nil"),)
            m = T("mapped", it, alt(*xs))
            return (T("filtered", m, T("isv", T("disc", r), ("Some",))) if (bd or un) else m,)
        if last == "zip" or last == "izip" or last == "zip_eq": return (T("zip", it, vals[1]),)
        if last == "enumerate": return (T("enum", it),)
        if last in ("skip", "take", "step_by"): self.partial.add((fr_fn(self.active), last))
        if last in ("skip", "take", "step_by", "sorted", "unique", "dedup", "sorted_unstable", "rev", "peekable", "by_ref", "cloned", "copied", "fuse", "into_iter", "iter"): return (T("skipped", it, last),)
        if last in ("sorted_by_key", "sorted_by", "sorted_by_cached_key"): return (T("skipped", it, last),)
        if last in ("chain",): return (T("chain", it, vals[1]),)
        if last in ("any", "all"):
            r = app(1, el())
            if r is None: return (boolc(last == "all"),)
            ds = set()
            for x in alts(r):
                d = self.decide(x, st); ds |= d if d is not None else {2}
            if self.twice and len(ds) == 1 and ds < {0, 1} and el().op in ("elem", "field", "alt", "var"):
                d2 = set()
                r2 = app(1, T("elem2", el()))
                for x in alts(r2) if r2 is not None else ():
                    d = self.decide(x, st); d2 |= d if d is not None else {2}
                if d2 | ds == {0, 1}: return (boolc(last == "any"),)
                ds |= d2
            if ds == {0}: return (FALSEc if last == "any" else self.q(T("call", last, it, r)),)
            if ds == {1}: return (TRUEc if last == "all" else self.q(T("call", last, it, r)),)
            return (self.q(T("call", last, it, self.deep(r, st))),)
        if last in ("find",):
            r = app(1, el())
            return (T("next", T("filtered", it, self.deep(r, st) if r is not None else TOP)),)
        if last in ("find_map",):
            r = app(1, el())
            if r is None: return (NONE,)
            g, bd, un = self.split(self.deep(r, st), "Some", st)
            return (alt(*([some(x) for x in g] + [some(self.payload(x, "Some")) for x in un] + [NONE])),)
        if last in ("for_each", "try_for_each"):
            app(1, el())
            return (UNIT,) if last == "for_each" else None
        if last in ("collect", "collect_vec", "try_collect", "exactly_one"):
            if last == "exactly_one": return None
            e = el() if it.op in ("mapped", "list", "zip", "enum", "filtered", "chain", "skipped") else None
            ga = (f.get("ga") or ["", ""])
            target = ga[-1] if ga else ""
            sn = self.collect_snippets(target, it, e, st)
            if sn is not None: return (sn,)
            if e is None: return (it,)
            if target.startswith(("std::result::Result", "std::option::Option")) or last == "try_collect":
                opt = target.startswith("std::option")
                good = "Some" if opt else "Ok"
                g, bd, un = self.split(e, good, st)
                xs = g + [self.payload(x, good) for x in un]
                out = []
                for x in bd: out.append(x)
                for x in un: out.append(NONE if opt else FAIL)
                if xs:
                    l = T("list", alt(*xs), it)
                    out.append(some(l) if opt else ok(l))
                return (alt(*out) if out else T("bot"),)
            return (T("list", e, it),)
        if last in ("fold",):
            r = app(2, T("acc", vals[1]), el())
            return (T("fold", vals[1], self.deep(r, st) if r is not None else TOP),)
        if last in ("count", "position", "max", "min", "last", "nth", "join", "sum", "product", "unzip", "partition", "size_hint", "rposition", "eq", "cmp"):
            if last in ("position",): app(1, el())
            return (self.q(T("call", "iter::" + last, *vals)),)
        if last in ("once",): return (T("list", it),)
        if last in ("empty",): return (T("nil"),)
        if last in ("repeat_n", "repeat", "from_fn", "successors"): return (T("list", it),)
        return None

# -------------------------------------------------------------------- token templates
def flat(ai, t, seen=()):
    """Token term -> list of alternative item tuples.  Items: str tokens, ('hole', T), ('grp', delim, alts), ('rep', alts)."""
    if t.op in ("empty", "nil", "default"): return [()]
    if t.op == "alt":
        out = []
        for x in t.a: out += flat(ai, x, seen)
        return uniq(out)
    if t.op == "cat":
        pre = flat(ai, t.a[0], seen)
        item = t.a[1]
        suf = items(ai, item, seen)
        if len(pre) * len(suf) > 4000: return [("…",)]
        return uniq([p + s for p in pre for s in suf])
    if t.op == "mu":
        if t in seen or t not in ai.mu: return [()]
        init, steps = ai.mu[t]
        pre = flat(ai, init, seen)
        bodies = []
        for s in steps: bodies += flat(ai, s, seen + (t,))
        if t in ai.idle: bodies.append(())
        bodies = loop_bodies(ai, bodies)
        if not bodies: return pre
        return [p + (("rep", tuple(bodies)),) for p in pre]
    if t.op == "top": return [("…",)]
    base, path = mu_field(ai, t)
    if base is not None:
        # a token field of a structure that a loop accumulates into
        if t in seen: return [()]
        init, steps = ai.mu[base]
        def at(x):
            for e in path: x = ai.proj(x, e, {})
            return x
        pre = [] if init is None else flat(ai, at(init), seen)
        bodies = []
        for s in steps:
            x = at(s)
            if x is not t: bodies += flat(ai, x, seen + (t,))
        if base in ai.idle: bodies.append(())
        bodies = loop_bodies(ai, bodies)
        return [p + (("rep", tuple(bodies)),) for p in pre] if bodies else pre
    return items(ai, T("hole", t), seen)
def mu_field(ai, t):
    """(mu, path) when t is a (nested) field of a loop-carried structure"""
    path = []
    while t.op == "field": path.insert(0, "." + str(t.a[1])); t = t.a[0]
    return (t, path) if path and t.op == "mu" and t in ai.mu else (None, ())
def loop_bodies(ai, bodies):
    """alternatives of one iteration; an iteration that may emit nothing is kept as ∅ when asked for"""
    out = uniq([b for b in bodies if b])
    return out + [("∅",)] if out and ai.optional and () in bodies else out
def uniq(xs):
    return list(dict.fromkeys(xs))
def items(ai, item, seen):
    if item.op == "tok": return [(item.a[0],)]
    if item.op == "grp": return [(("grp", item.a[0], tuple(flat(ai, item.a[1], seen))),)]
    if item.op == "hole":
        x = item.a[0]
        if x.op in ("cat", "empty", "grp", "tok"): return flat(ai, x, seen) if x.op in ("cat", "empty") else items(ai, x, seen)
        if x.op == "alt": 
            out = []
            for y in x.a: out += items(ai, T("hole", y), seen)
            return uniq(out)
        if x.op == "agg" and x.a[0].endswith(("Option::Some", "RepInterp::RepInterp", "Cow::Owned", "Cow::Borrowed")) and len(x.a) > 2: return items(ai, T("hole", x.a[2]), seen)
        if x.op == "agg" and x.a[0].endswith("Option::None"): return [()]
        if x.op == "elem" and x.a[0].op in ("mapped", "list"): return items(ai, T("hole", ai.elem(x.a[0])), seen)
        if x.op == "elem" and x.a[0].op == "mu":
            # element of a list built by pushes
            init, steps = ai.mu.get(x.a[0], (None, ()))
            out = []
            def pushes(t, d=0):
                if d > 40: return
                if t.op == "push": out.extend(items(ai, T("hole", t.a[1]), seen)); pushes(t.a[0], d + 1)
                elif t.op == "alt":
                    for y in t.a: pushes(y, d + 1)
            for s in steps: pushes(s)
            if init is not None: pushes(init)
            if out: return uniq(out)
        if x.op == "mu" and x in ai.mu and x not in seen: return flat(ai, x, seen)
        if x.op == "field" and mu_field(ai, x)[0] is not None: return flat(ai, x, seen)
        if x.op in ("default", "nil"): return [()]
        if x.op == "mapped" or x.op == "list" or x.op == "filtered":
            return [(("rep", tuple(items(ai, T("hole", ai.elem(x)), seen))),)]
        return [(("hole", x),)]
    return [(("hole", item),)]
def render(it, d=0):
    out = []
    for x in it:
        if isinstance(x, str): out.append(x)
        elif x[0] == "hole": out.append("#⟨" + show(x[1]) + "⟩")
        elif x[0] == "grp":
            o, c = {"P": "()", "B": "{}", "K": "[]", "N": "⟨⟩"}[x[1]]
            out.append(o + " | ".join(render(y, d + 1) for y in x[2]) + c)
        elif x[0] == "rep": out.append("#(" + " | ".join(render(y, d + 1) for y in x[1]) + ")*")
    return " ".join(out)
