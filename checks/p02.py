"""Typestate analysis of the compiler's drop-elaborated MIR over all paths, unwinding included (lib/own.py): every `Ctor::ctor` implementation, the expansions of `ctor!`, `construct`, `Emplace`, `Assign`, `reconstruct` and all `Slot` methods. Each piece of storage is uninitialised, live or moved out; constructing needs the first, dropping and handing out the second, and the state at every exit (Ok, Err, unwind) must be what the exit reports. Calls of user code (constructors, callbacks, the stored value's destructor) may return, fail or panic."""
from core import *
from gen import *
import own, re
RULE = "dest is live at Ok, and uninitialised (dropped) at Err and on unwind; storage is never constructed over while live, dropped or handed out while not live, or released while live; a Slot's flag equals its liveness at every exit; reconstruct and assign never unwind with the old value dropped and no new one"
LEVEL = "other"
W = "support/ctor.rs"
WORD = {"U": "uninitialised", "I": "live", "M": "moved out"}
def variant(v): return v[2] if v is not None and v[0] == "agg" else None

class Driver:
    def __init__(s, ctx, F): s.ctx, s.F = ctx, F
    def go(s, path, args, setup, key, label=None):
        """all exits of one function from one entry state; reports typestate errors inside"""
        X = own.Exec(s.F, quiet=True); st = own.St(); setup(X, st)
        st.made = ()
        outs = X.run(path, args, st)
        if not outs: raise Broken(f"{path}: no exit found")
        s.ctx.count("functions and entry states", 1); s.ctx.count("exits examined", len(outs)); s.ctx.obligation(label or path)
        bad = set()
        for k, v, x in outs:
            bad |= set(x.bad)
        return X, outs, bad
    def bad(s, key, msg): s.ctx.violate(key, W, msg)
    def exits(s, name, key, X, outs, want):
        """want(kind, value) -> state of "dest" the exit must leave, or None for an exit that must not exist"""
        for k, v, x in outs:
            st = want(k, v)
            how = "a panic leaves" if k == "unw" else f"the {variant(v)} return leaves" if variant(v) in ("Ok", "Err") else "the return leaves"
            if st is None: s.bad(key + ":exit", f"{name}: " + ("unwinds" if k == "unw" else "returns")); continue
            xs = X.subs(x, "dest")
            got = {x.obj[o] for o in xs} or {x.obj["dest"]}
            if got != {st}:
                g = sorted(got - {st})[0]
                s.bad(f"{key}:{k}:{variant(v) or ''}", f"{name}: {how} the destination {WORD[g]} instead of {'uninitialised' if st == 'U' else WORD[st]}" + (" (a live value is abandoned without being dropped)" if g == "I" else ""))
            s.leaks(name, key, X, k, v, x)
    def leaks(s, name, key, X, k, v, x):
        held = X.refs(x, v) if k == "ret" and v is not None else set()
        for o in x.made:
            if x.obj.get(o) == "I" and o not in held: s.bad(f"{key}:leak:{k}", f"{name}: {'a panic' if k == 'unw' else 'the return'} releases storage that still holds a live value")
            if k == "ret" and o in held and x.obj.get(o) == "U" and variant(v) != "Err": s.bad(f"{key}:uninit:{k}", f"{name}: returns storage that was never initialised")

def short(p): return re.sub(r"^<|>::ctor$| as .*", "", p.split("::", 1)[1] if "::" in p else p)
def ctor_impls(ctx, F, D):
    ps = sorted(p for p in F.bodies if re.search(r" as (?:[\w:]+::)?Ctor>::ctor$", p))
    floor(ctx, "Ctor implementations", len(ps), 12)
    for p in ps:
        nm = short(p); key = "ctor:" + re.sub(r"<.*", "", nm)
        X, outs, bad = D.go(p, [("u", "self"), ("obj", "dest")], lambda X, st: st.obj.update(dest="U"), key)
        for m in sorted(bad): D.bad(key + ":" + m, f"{nm}::ctor {m}")
        D.exits(f"{nm}::ctor", key, X, outs, lambda k, v: "U" if k == "unw" or variant(v) == "Err" else "I")
def macros(ctx, F, D):
    n = 0
    for fn, fs in (("named", ("a", "b", "c")), ("tuple", ("0", "1")), ("unit", ())):
        p = f"ctor_macro::{fn}::{{closure#0}}"
        if p not in F.bodies: raise Broken(f"no expansion of ctor! in {fn}")
        n += 1
        def setup(X, st):
            st.obj["dest"] = "U"
            for f in fs: st.obj["dest." + f] = "U"
        X, outs, bad = D.go(p, [("u", "captures"), ("obj", "dest")], setup, "ctor!")
        for m in sorted(bad): D.bad(f"ctor!:{m}", f"the expansion of ctor! for {fn} fields {m}")
        if fs: D.exits(f"ctor! with {fn} fields", f"ctor!:{fn}", X, outs, lambda k, v: "U" if k == "unw" else "I")
    floor(ctx, "expansions of ctor!", n, 3)
def free(ctx, F, D):
    U, I = lambda X, st: st.obj.update(dest="U"), lambda X, st: st.obj.update(dest="I")
    # construct
    p = one(F, "ctor::construct")
    X, outs, bad = D.go(p, [("u", "ctor")], U, "construct")
    for m in sorted(bad): D.bad("construct:" + m, f"construct {m}")
    for k, v, x in outs:
        D.leaks("construct", "construct", X, k, v, x)
        if k == "ret" and not (v[0] == "own" and x.obj.get(v[1]) == "M"): D.bad("construct:ret", "construct does not return the constructed value")
    # Emplace
    ps = sorted(q for q in F.bodies if re.search(r" as (?:[\w:]+::)?Emplace<T>>::try_emplace$", q))
    floor(ctx, "Emplace implementations", len(ps), 3)
    for q in ps:
        nm = short(q.replace("::try_emplace", "")); key = "emplace:" + last(re.sub(r"<T>.*", "", nm))
        X, outs, bad = D.go(q, [("u", "ctor")], U, key)
        for m in sorted(bad): D.bad(f"{key}:{m}", f"{nm} {m}")
        for k, v, x in outs:
            D.leaks(nm, key, X, k, v, x)
            if k == "ret" and variant(v) == "Ok":
                o = [o for o in X.refs(x, v) if o in x.made]
                if not o: D.bad(key + ":ret", f"{nm}: Ok does not hold the constructed value")
    # init_field and its guard
    p = one(F, "macro_internal::init_field")
    X, outs, bad = D.go(p, [("obj", "dest"), ("u", "ctor")], U, "init_field")
    for m in sorted(bad): D.bad("init_field:" + m, f"init_field {m}")
    D.exits("init_field", "init_field", X, outs, lambda k, v: "U" if k == "unw" else "I")
    for k, v, x in outs:
        if k != "ret": continue
        x = x.copy(); x.mem[("G", 0)] = v
        for k2, _, y in X.drop(x, ("L", ("G", 0), ()), F.bodies[p].ty(0)):
            if y.bad or y.obj["dest"] != "U": D.bad("init_field:guard", "the guard init_field returns does not drop the field exactly once")
    # reconstruct, assign: the old value must be replaced or the process must abort
    p = one(F, "ctor::reconstruct")
    X, outs, bad = D.go(p, [("obj", "dest"), ("u", "ctor")], I, "reconstruct")
    for m in sorted(bad): D.bad("reconstruct:" + m, f"reconstruct {m}")
    D.exits("reconstruct", "reconstruct", X, outs, lambda k, v: "I")
    n = 0
    for q in sorted(q for q in F.bodies if re.search(r"ctor::<.* as (?:[\w:]+::)?(Unpin)?Assign<.*>>::(unpin_)?assign$", q)):
        b = F.bodies[q]
        n += 1; key = "assign:" + re.sub(r".* as ", "", q)[:60]
        try: X, outs, bad = D.go(q, [("obj", "dest"), ("u", "src")], I, key)
        except Broken as e:
            if "has no model" in str(e): continue      # forwards to another Assign implementation
            raise
        for m in sorted(bad): D.bad(f"{key}:{m}", f"{key} {m}")
        D.exits(key, key, X, outs, lambda k, v: "I")
    floor(ctx, "Assign implementations", n, 3)
    p = one(F, "ctor::abort_on_unwind")
    X, outs, bad = D.go(p, [("u", "f")], U, "abort_on_unwind")
    if any(k == "unw" for k, _, _ in outs): D.bad("abort_on_unwind", "abort_on_unwind lets a panic of its callback escape")
def slots(ctx, F, D):
    ad = [a for n, a in F.adts.items() if n == "ctor::Slot"]
    if len(ad) != 1: raise Broken("anchor ctor::Slot")
    fs = {f: t for f, t in fields(ad[0])}
    flag = [f for f, t in fs.items() if t == "bool"]; sto = [f for f, t in fs.items() if "MaybeUninit" in t]
    if len(flag) != 1 or len(sto) != 1: raise Broken(f"Slot has fields {fs}")
    flag, sto = flag[0], sto[0]
    R = ("S", "slot")
    def setup(live):
        def f(X, st):
            st.obj["dest"] = "I" if live else "U"
            st.mem[R] = ("agg", "ctor::Slot", "Slot", ((flag, ("c", int(live))), (sto, ("sto", "dest"))))
        return f
    ps = sorted(p for p in F.bodies if re.match(r"^ctor::Slot::<\w+>::\w+$", p)) + [p for p in F.bodies if re.search(r"<Slot<\w+> as .*Drop>::drop$", p)]
    n = 0
    for p in ps:
        b = F.bodies[p]; nm = last(p)
        if not b.argc or "Slot<" not in b.ty(1): continue
        byval = not ("&" in b.ty(1))
        if byval: continue
        n += 1
        res = {}
        for live in (False, True):
            key = f"slot:{nm}"
            args = [("addr", R, ())] + [("u", f"arg{i}") for i in range(2, b.argc + 1)]
            X, outs, bad = D.go(p, args, setup(live), key, f"Slot::{nm} on {'an occupied' if live else 'an empty'} slot")
            errs = [(f"{key}:{m}", f"Slot::{nm} on {'an occupied' if live else 'an empty'} slot {m}") for m in sorted(bad)]
            for k, v, x in outs:
                s, fl = x.obj["dest"], X.read(x, ("L", R, ("." + flag,)))
                at = "a panic" if k == "unw" else f"returning {variant(v)}" if variant(v) else "returning"
                if nm == "drop" and "Drop>" in p:
                    if s == "I": errs.append((f"{key}:{k}:leak", f"dropping a Slot leaves its value live ({at})"))
                    continue
                if fl[0] != "c": raise Broken(f"Slot::{nm}: the flag is {fl}")
                if bool(fl[1]) != (s == "I"): errs.append((f"{key}:{k}:{variant(v) or ''}:flag", f"Slot::{nm}: {at} leaves the slot marked {'occupied' if fl[1] else 'empty'} while its value is {WORD[s]}" + ("; it is dropped again later" if fl[1] else "")))
                if k != "ret": continue
                if nm in ("as_opt", "as_opt_mut") and variant(v) != ("Some" if live else "None"): errs.append((f"{key}:opt", f"Slot::{nm} returns {variant(v)} for {'an occupied' if live else 'an empty'} slot"))
                if nm == "clear" and s == "I": errs.append((f"{key}:kept", "Slot::clear leaves the value in place"))
                if variant(v) in ("Ok", "Some") or v[0] in ("obj", "addr"):
                    if s != "I" : errs.append((f"{key}:ret", f"Slot::{nm} hands out a value that is not live"))
                if nm in ("replace", "try_replace") and variant(v) != "Err" and s != "I": errs.append((f"{key}:lost", f"Slot::{nm} returns without a value"))
                if nm == "try_replace" and variant(v) == "Err" and s == "I": errs.append((f"{key}:kept", "Slot::try_replace keeps a value after an error"))
            res[live] = errs
        # hidden `unsafe_*` methods have a precondition on the slot: they must be sound from one of the states
        if nm.startswith(("unsafe_", "try_unsafe_")) and not all(res.values()): continue
        for errs in res.values():
            for k, m in errs: D.bad(k, m)
    floor(ctx, "Slot methods", n, 7)
    p = one(F, "Slot::<T>::unsafe_new")
    X, outs, bad = D.go(p, [], lambda X, st: None, "slot:new")
    for k, v, x in outs:
        if k != "ret": continue
        f = dict(v[3]) if v[0] == "agg" else {}
        if f.get(flag) != ("c", 0) or f.get(sto, ("?",))[0] != "sto" or x.obj.get(f[sto][1]) != "U": D.bad("slot:new", "a new Slot is not empty")
def fields(a):
    for v in a["variants"]:
        for f in v["fields"]: yield f[0], f[1]
def run(ctx):
    F = ctx.facts()
    D = Driver(ctx, F)
    ctor_impls(ctx, F, D); macros(ctx, F, D); free(ctx, F, D); slots(ctx, F, D)
