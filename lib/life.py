"""Object-lifetime typestate over LLVM IR of witness functions.

Abstract state: tokens (one per object of a witness type) with a set of addresses whose bytes hold the object, a value
label, and live/dead; heap blocks; a tag state for `Opaque` option/result witnesses.  The transfer functions are the
witness types' out-of-line special members, byte copies, and allocation; everything else is inlined by the compiler.
"""
import re, llvm

class Tok:
    def __init__(s, at, val, size, ty=None): s.at, s.val, s.live, s.size, s.ty = {at}, val, True, size, ty

MOVED = "(moved-from)"

class State:
    def __init__(s): s.toks, s.heap, s.errs, s.trace, s.tag = [], {}, [], [], {}

class Life:
    """ops: callee -> (kind, size); kinds: ctor move copy relocate dtor massign cassign peek flag sink
    tag ops: tag_none/tag_some(callee) with the payload address found by the witness's tagged(self) offset."""
    def __init__(self, mod, classify):
        self.m, self.classify = mod, classify
    def loc(self, S, a):
        for t in S.toks:
            if t.live and a in t.at: return t
    def new(self, S, at, val, size, what, ty=None):
        o = self.loc(S, at)
        if o: S.errs.append(f"{what} constructs over a live object at {at}")
        for t in S.toks: t.at.discard(at)
        S.toks.append(Tok(at, val, size, ty))
    def need(self, S, a, what):
        t = self.loc(S, a)
        if t is None: S.errs.append(f"{what} uses {a}, where no live object is")
        return t
    def overwrite(self, S, base, off, n):
        for t in S.toks:
            if not t.live: continue
            for a in list(t.at):
                b, o = self.m.addr(a)
                if b == base and o is not None and o < off + n and off < o + t.size:
                    t.at.discard(a)
    def step(self, S, e):
        if e[0] == "call":
            k = self.classify(e[1])
            if k is None:
                S.errs.append(f"unexpected call {e[1]}"); return
            kind, n, ty = k if len(k) == 3 else (*k, None); A = e[2]
            if kind == "ignore": return
            if kind == "new": S.heap[f"call{S.ncalls}:{e[1]}"] = True; return
            if kind == "delete":
                if not S.heap.get(A[0]): S.errs.append(f"frees {A[0]}, which is not an allocation that is still held")
                S.heap[A[0]] = False
                for t in S.toks:
                    if t.live and any(self.m.addr(x)[0] == A[0] for x in t.at):
                        t.at = {x for x in t.at if self.m.addr(x)[0] != A[0]}
                return
            if kind == "ctor": self.new(S, A[0], f"new{A[1] if len(A) > 1 else ''}", n, "a constructor", ty); return
            if kind in ("move", "copy", "relocate"):
                src = self.need(S, A[1], f"the {kind} constructor")
                v = src.val if src else "?"
                if src and kind != "copy" and v == MOVED and not S.allow_moved: S.errs.append(f"the value at {A[1]} is moved out twice")
                if kind == "copy": S.copies += 1
                if src and kind == "move": src.val = MOVED
                if src and kind == "relocate": src.live = False
                self.new(S, A[0], v, n, f"the {kind} constructor", ty); return
            if kind == "dtor":
                t = self.need(S, A[0], "a destructor")
                if t:
                    t.live = False
                    if ty and t.ty and ty != t.ty: S.errs.append(f"the object at {A[0]} is destroyed as another type than it was constructed as")
                return
            if kind in ("massign", "cassign"):
                d, s_ = self.need(S, A[0], "an assignment"), self.need(S, A[1], "an assignment")
                if d and s_ and d is not s_:
                    if kind == "massign" and s_.val == MOVED and not S.allow_moved: S.errs.append(f"the value at {A[1]} is moved out twice")
                    d.val = s_.val
                    if kind == "massign": s_.val = MOVED
                    else: S.copies += 1
                return
            if kind == "peek":
                t = self.need(S, A[0], "an access")
                S.trace.append(t.val if t else "?"); return
            if kind == "sink":          # callee takes the object by rvalue and leaves it moved-from
                t = self.need(S, A[0], "an access")
                if t: S.trace.append(t.val); t.val = MOVED
                return
            if kind == "manager":
                if A[0] == n["dispose"]:
                    t = self.need(S, A[1], "the manager's dispose")
                    if t: t.live = False
                elif A[0] == n["relocate"]:
                    t = self.need(S, A[1], "the manager's relocation")
                    if t and A[1] != A[2]:
                        t.live = False; self.new(S, A[2], t.val, t.size, "the manager's relocation")
                else: S.errs.append(f"the manager is called with operation {A[0]}")
                return
            if kind == "consume":
                t = self.need(S, A[0], "the invoker")
                S.trace.append(t.val if t else "?")
                if t: t.live = False
                return
            if kind == "reinit":
                for t in S.toks:
                    if t.live and A[0] in t.at:
                        t.at.discard(A[0])
                        if not t.at: S.errs.append(f"the future at {A[0]} is overwritten without being destroyed")
                S.toks.append(Tok(A[0], "pending", n)); return
            if kind == "flag": S.trace.append(f"flag {A[0]}"); return
            if kind in ("tag_none", "tag_some", "is_none"):
                p = self.m.add(A[0], n); t = self.loc(S, p)
                if kind == "tag_none":
                    if t: S.errs.append(f"the none tag is written while the payload at {p} is still live (a niche tag would clobber it)")
                    S.tag[A[0]] = "none"
                elif kind == "tag_some": S.tag[A[0]] = "some"
                else:
                    tg = S.tag.get(A[0])
                    if tg is None: S.errs.append(f"the tag of {A[0]} is read before it is written")
                    elif (tg == "some") != bool(t): S.errs.append(f"the tag of {A[0]} is read while it disagrees with the payload")
                return
            if kind in ("ok_tag", "err_tag", "is_ok"):
                t = self.loc(S, A[0])
                if kind != "is_ok":
                    S.tag[A[0]] = kind[:-4]
                    if t and ty[0] != ty[1] and t.ty != ty[kind == "err_tag"]: S.errs.append(f"the {kind[:-4]} tag is written while the other payload is still live (a niche tag would clobber it)")
                elif A[0] not in S.tag: S.errs.append(f"the tag of {A[0]} is read before it is written")
                elif not t: S.errs.append(f"the tag of {A[0]} is read while no payload is live")
                elif ty[0] != ty[1] and t.ty != ty[S.tag[A[0]] == "err"]: S.errs.append(f"the tag of {A[0]} is read while it disagrees with the payload")
                return
            raise llvm.Unsupported("kind " + kind)
        elif e[0] == "copy":
            (db, do), (sb, so) = self.m.addr(e[1]), self.m.addr(e[2])
            if not e[3].isdigit() or do is None or so is None: raise llvm.Unsupported("dynamic copy " + str(e))
            n = int(e[3]); add = []
            for t in S.toks:
                if not t.live: continue
                for a in t.at:
                    b, o = self.m.addr(a)
                    if b == sb and so <= o and o + t.size <= so + n: add.append((t, self.m.add(db, do + o - so)))
            self.overwrite(S, db, do, n)
            for t, a in add: t.at.add(a)
        elif e[0] in ("store", "set"):
            b, o = self.m.addr(e[1])
            if o is None: raise llvm.Unsupported("dynamic store " + str(e))
            n = self.m.size_align(e[2])[0] if e[0] == "store" else int(e[3])
            m = re.fullmatch(r"ld:\S+?\((.*)\)", e[3]) if e[0] == "store" else None
            src = delta = None
            if m:
                lb, lo = self.m.addr(m[1])
                for t in S.toks:
                    for a in t.at if t.live else ():
                        ab, ao = self.m.addr(a)
                        if ab == lb and lo is not None and ao is not None and ao <= lo < ao + t.size: src, delta = t, lo - ao
            keep = self.m.add(b, o - delta) if src is not None and delta and self.m.add(b, o - delta) in src.at else None
            self.overwrite(S, b, o, n)
            if keep: src.at.add(keep)
            if src is not None and delta == 0: src.at.add(e[1])
    def replay(self, path, init, allow_moved=False):
        S = State(); S.allow_moved, S.copies, S.ncalls = allow_moved, 0, 0
        for a, x in init.items(): S.toks.append(Tok(a, *x))
        for e in path.effects:
            if e[0] == "call": S.ncalls += 1
            self.step(S, e)
        return S
    def finish(self, S, expect):
        """expect: {addr: value} of the objects that must be live at the end"""
        errs = list(S.errs)
        for k in [k for k in expect if k.endswith("*")]:      # somewhere inside an object
            v = expect.pop(k)
            for t in S.toks:
                for a in t.at:
                    if t.live and self.m.addr(a)[0] == k[:-1]: expect[a] = v
            if not any(self.m.addr(a)[0] == k[:-1] for a in expect): errs.append(f"nothing is left in {k[:-1]}, expected {v}")
        for t in S.toks:
            if not t.live: continue
            keep = [a for a in t.at if a in expect]
            if not keep: errs.append(f"the object holding {t.val} is never destroyed" if not t.at else f"the object holding {t.val} at {sorted(t.at)[0]} is never destroyed")
            elif len(keep) > 1: errs.append(f"one object is left in two places ({', '.join(sorted(keep))})")
        for a, v in expect.items():
            t = self.loc(S, a)
            if t is None: errs.append(f"no live object at {a} at the end, expected {v}")
            elif v is not None and t.val != v: errs.append(f"the object at {a} holds {t.val} at the end, expected {v}")
        for h, live in S.heap.items():
            if live: errs.append(f"heap block {h} is never freed")
        return errs
