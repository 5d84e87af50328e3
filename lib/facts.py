"""Loading and pretty-printing of the extracted program facts."""
import json, os, re, sys

class Body:
    __slots__ = ("path", "kind", "file", "lo", "hi", "argc", "locals", "dbg", "caps", "blocks", "crate", "_cache")
    def __init__(self, d, crate):
        for k in ("path", "kind", "file", "lo", "hi", "argc", "locals", "dbg", "caps", "blocks"):
            setattr(self, k, d[k])
        self.crate = crate
        self._cache = {}
    def ty(self, l): return self.locals[l][0]
    def name(self, l): return self.locals[l][1] if len(self.locals[l]) > 1 else None
    def succs(self, i, unwind=False):
        t = self.blocks[i]["t"]
        out = []
        if t["t"] == "sw":
            for v, b in t["vs"]: out.append(b)
            out.append(t["ot"])
        elif t.get("to") is not None: out.append(t["to"])
        if unwind and isinstance(t.get("uw"), int): out.append(t["uw"])
        return out
    def where(self, line=None):
        f = os.path.normpath(self.file)
        if f.startswith("/repo/"): f = f[6:]
        while not os.path.exists("/repo/" + f) and "/" in f: f = f.split("/", 1)[1]
        return f"{f}:{line if line else self.lo}"

class Facts:
    def __init__(self, d):
        self.crates = {}
        self.bodies = {}
        self.adts = {}
        self.fns = {}
        self.foreign = []
        self.impls = []
        self.traits = {}
        self.consts = {}
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"): continue
            j = json.load(open(os.path.join(d, f)))
            c = j["crate"]
            self.crates[c] = j["root"]
            for b in j["bodies"]:
                self.bodies[b["path"]] = Body(b, c)
            for a in j["adts"]: self.adts[a["path"]] = a
            for a in j["fns"]: self.fns[a["path"]] = a
            for a in j["foreign"]: self.foreign.append(a)
            for a in j["impls"]: a["crate"] = c; self.impls.append(a)
            for a in j["traits"]: self.traits[a["path"]] = a
            for a in j["consts"]: self.consts[a["path"]] = a

        self.canonical_calls()
    def canonical_calls(self):
        """a call through a re-exported path (`crate::Type::f`) names the body at its defining path"""
        by = {}
        for p in self.bodies: by.setdefault((p.split("::", 1)[0], tuple(p.split("::")[-2:])), []).append(p)
        memo = {}
        def canon(fn):
            if fn in self.bodies: return fn
            if fn.startswith("<"):
                # an impl item of another crate: `<k::T as Trait>::m` is listed as `k::<T as Trait>::m`
                k = fn[1:].split("::", 1)[0]
                c = k + "::<" + fn[1:].replace(k + "::", "", 1)
                snippet = re.match(r"<[\w:]*Snippets?(<[^<>]*>)? as ", fn)
                return c if c in self.bodies and snippet and fn.rsplit("::", 1)[-1] in ("default", "add_assign", "add", "from", "from_iter", "extend") else fn
            if fn not in memo:
                c = by.get((fn.split("::", 1)[0], tuple(fn.split("::")[-2:])), ()) if fn.count("::") > 1 else ()
                memo[fn] = c[0] if len(c) == 1 else fn
            return memo[fn]
        for b in self.bodies.values():
            for bb in b.blocks:
                f = bb["t"].get("f") if bb["t"]["t"] == "call" else None
                if f:
                    for k in ("fn", "rs"):
                        if k in f: f[k] = canon(f[k])

def pp_place(b, p):
    s = f"_{p[0]}"
    n = b.name(p[0])
    if n: s += f"({n})"
    for e in p[1:]:
        s = f"(*{s})" if e == "*" else s + e
    return s
def pp_op(b, o):
    if "c" in o: return pp_place(b, o["c"])
    if "m" in o: return "move " + pp_place(b, o["m"])
    if "k" in o:
        k = o["k"]
        if "fn" in k: return "fn " + k["fn"]
        if "clo" in k: return "clo " + k["clo"]
        for x in ("s", "ch", "v", "raw"):
            if x in k: return repr(k[x]) + (":" + k["ty"] if x == "raw" else "")
        return f"const<{k.get('def','')}:{k['ty']}>"
    return str(o)
def pp_rv(b, r):
    k = r["r"]
    if k == "use": return pp_op(b, r["o"])
    if k in ("ref", "ptr"): return ("&mut " if r["mut"] else "&") + ("raw " if k == "ptr" else "") + pp_place(b, r["p"])
    if k == "cast": return f"{pp_op(b, r['o'])} as {r['ty']} ({r['k']})"
    if k == "bin": return f"{r['k']}({pp_op(b, r['a'])}, {pp_op(b, r['b'])})"
    if k == "un": return f"{r['k']}({pp_op(b, r['o'])})"
    if k == "disc": return f"disc({pp_place(b, r['p'])}) {r['en']}"
    if k == "agg":
        nm = r.get("adt") and r["adt"] + "::" + r["var"] or r.get("clo") or ("tuple" if "tup" in r else "arr")
        return nm + "{" + ", ".join((f"{n}: " if n else "") + pp_op(b, o) for n, o in zip(r.get("fs") or [None] * len(r["os"]), r["os"])) + "}"
    return json.dumps(r)
def pp(b, cleanup=False, out=sys.stdout):
    print(f"== {b.path} [{b.kind}] {b.file}:{b.lo}-{b.hi} argc={b.argc} caps={b.caps} dbg={b.dbg}", file=out)
    for i, l in enumerate(b.locals):
        print(f"   _{i}: {l[0]}" + (f"  // {l[1]}" if len(l) > 1 else ""), file=out)
    for i, bb in enumerate(b.blocks):
        if bb["c"] and not cleanup: continue
        print(f" bb{i}{' (cleanup)' if bb['c'] else ''}:", file=out)
        for p, r, ln in bb["s"]:
            if r["r"] in ("live", "dead"): continue
            print(f"    {pp_place(b, p)} = {pp_rv(b, r)}", file=out)
        t = bb["t"]; k = t["t"]
        if k == "call":
            f = t["f"]
            fn = f.get("fn") or f.get("clo") or "ind " + pp_op(b, f.get("ind", {}))
            if f.get("rs"): fn += " => " + f["rs"]
            ga = "<" + ", ".join(f["ga"]) + ">" if f.get("ga") else ""
            print(f"    {pp_place(b, t['d'])} = {fn}{ga}({', '.join(pp_op(b, a) for a in t['a'])}) -> bb{t['to']} uw {t['uw']} @{t['ln']} {t.get('mac','')}", file=out)
        elif k == "sw": print(f"    switch {pp_op(b, t['o'])} : {t['vs']} else bb{t['ot']} @{t['ln']} {t.get('mac','')}", file=out)
        elif k == "drop": print(f"    drop {pp_place(b, t['p'])}: {t['ty']} -> bb{t['to']} uw {t['uw']}", file=out)
        else: print(f"    {k} {t.get('to','')} @{t['ln']}", file=out)

if __name__ == "__main__":
    F = Facts(sys.argv[1])
    for p in sorted(F.bodies):
        if len(sys.argv) > 2 and all(a in p for a in sys.argv[2:]):
            pp(F.bodies[p])
