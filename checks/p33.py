"""Headers behind names. Every C++ name of the standard library or of Crubit's support library that a function of the generator writes is found in the compiled `quote!` code of its MIR; a must-analysis with per-function summaries finds the headers certainly recorded before or after it on every path that produces text; an unmet name is passed on to every caller. A name that comes with a specialization is met by that specialization's header, which every specialization recorded must bring along."""
from core import *
from gen import last
import os, re, json
from collections import defaultdict
import names
RULE = "on every path that produces text, a generator function that writes a name of std::, crubit::, rs_std:: or a CRUBIT_ macro records - itself, through what it calls, or in every caller - a header that declares it; a recorded specialization comes with its support header"
LEVEL = "other"
CRATES = ("cc_bindings_from_rs_generate", "cc_bindings_from_rs_database", "cc_bindings_from_rs_query", "cc_bindings_from_rs_crubit_attr")
STD = {"remove_cvref_t": "type_traits", "in_place_t": "utility", "in_place": "utility", "forward": "utility", "move": "utility", "swap": "utility", "pair": "utility", "array": "array", "optional": "optional", "nullopt": "optional", "nullopt_t": "optional", "string_view": "string_view", "ostream": "ostream", "bit_cast": "bit", "destroy_at": "memory", "construct_at": "memory", "addressof": "memory", "memcpy": "cstring", "memmove": "cstring", "strong_ordering": "compare", "weak_ordering": "compare", "partial_ordering": "compare", "byte": "cstddef", "nullptr_t": "cstddef", "max_align_t": "cstddef", "tuple": "tuple", "get": "tuple", "make_tuple": "tuple"}
for w in ("8", "16", "32", "64", "ptr"): STD["int%s_t" % w] = STD["uint%s_t" % w] = "cstdint"
KNOWN = {"std::" + k: {f"<{v}>"} for k, v in STD.items()}
KNOWN["std::size_t"] = {"<cstddef>", "<cstring>"}; KNOWN["offsetof"] = {"<cstddef>"}
BORNE = {"rs_std::StrRef", "std::get", "std::make_tuple", "std::tuple", "rs_std::impl"}   # spelled again for a value whose type was formatted: the type brings the header
FAMILY = ("RsStdSpecializationArgs", "EnumSpecializationKind")
UNDER = re.compile(r'"s": "([\w/]+\.h)"')

class Headers:
    "what the support library's headers declare and include"
    def __init__(h, root):
        h.text = {}
        for r, _, fs in os.walk(root):
            for f in fs:
                if f.endswith(".h"):
                    t = open(os.path.join(r, f)).read()
                    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
                    h.text[os.path.relpath(os.path.join(r, f), root)] = re.sub(r"//[^\n]*", "", t)
        if len(h.text) < 15: raise Broken(f"only {len(h.text)} support headers found")
        h.decl = defaultdict(set)
        for n, t in h.text.items():
            for m in re.finditer(r"^\s*#\s*define\s+((?:CRUBIT|crubit)_\w+)", t, re.M): h.decl[m[1]].add(n)
            t = re.sub(r"^\s*#.*?(?<!\\)$", "", t, flags=re.M)
            for m in re.finditer(r"\b(?:class|struct|concept|enum\s+class|enum|using|union)\s+(?:CRUBIT_\w+\s*(?:\([^)]*\)|)\s*|\[\[[^\]]*\]\]\s*|alignas\([^)]*\)\s*)*([A-Za-z_]\w*)\s*(?:final\s*)?[:{=<;]", t): h.decl[m[1]].add(n)
            for m in re.finditer(r"^[^\n=;]*\b(?:void|auto|bool|constexpr|decltype\(auto\)|(?:std::)?\w+(?:<[^\n]*>)?[&*]*)\s+&?\*?(\w+)\s*\(", t, re.M): h.decl[m[1]].add(n)
            for m in re.finditer(r"\bconstexpr\s+\w[\w:<>]*\s+(\w+)\s*[={]", t): h.decl[m[1]].add(n)
    def reach(h, n):
        s, w = set(), [n]
        while w:
            x = w.pop()
            if x in s: continue
            s.add(x)
            if x in h.text: w += re.findall(r'^\s*#\s*include\s+["<](?:support/)?([^">]+)[">]', h.text[x], re.M)
        return {x if x in h.text else f"<{x}>" for x in s}
class Known(dict):
    def __init__(k, h): k.h = h
    def __contains__(k, n): return k.get(n) is not None
    def get(k, n, d=None):
        if n in KNOWN: return KNOWN[n]
        if n.startswith("std::is_"): return {"<type_traits>"}
        if n.startswith(("crubit::", "rs_std::", "rs::", "CRUBIT_")) or n.startswith("crubit_") and "::" not in n: return set(k.h.decl.get(n.rsplit("::", 1)[-1], ())) or None
        return d
    __getitem__ = get

class Check:
    def __init__(c, ctx):
        c.ctx = ctx; F = c.F = ctx.facts()
        c.H = Headers(os.path.join(REPO, "support")); c.K = Known(c.H)
        c.ctors = {}
        for p, b in F.bodies.items():
            m = re.match(r"code_gen_utils::CcInclude::(\w+)$", p)
            if m and b.ty(0).endswith("CcInclude") and not b.argc:
                s = {x for k in b.blocks for x in re.findall(r'"s": "([\w/.]+)"', json.dumps(k))}
                if len(s) == 1: c.ctors[p] = {f"<{s.pop()}>"}
        floor(ctx, "named standard headers", len(c.ctors), 8)
        c.N = names.Names(F, CRATES, c.K, c.headers)
        c.supp = {}
        P = [p for p in c.N.bodies if last(p) == "support_header" and "RsStdTemplateSpecialization" in p]
        if len(P) != 1: raise Broken("RsStdTemplateSpecialization::support_header not found")
        c.spec = P[0]
        for i in c.N.g[c.spec].live:
            for s in UNDER.findall(json.dumps(c.N.bodies[c.spec].blocks[i])):
                v = [x for x in c.N.variants(c.spec, i) if x != "Enum"]
                if len(v) == 1: c.supp[v[0]] = s
        floor(ctx, "kinds of specialization with a header", len(c.supp), 4)
        for v, s in c.supp.items():
            ctx.obligation(f"header of {v}: {s}")
            if s not in c.H.text: ctx.violate("header:" + v, c.spec, f"the header of {v}, {s}, does not exist")
        c.fl = {}; c.callers = defaultdict(list); c.entry = set()
        for p, g in c.N.g.items():
            for i in g.live:
                t = g.b.blocks[i]["t"]
                if t["t"] == "call":
                    for f in (t["f"].get("rs"), t["f"].get("fn")):
                        if f in c.N.bodies: c.callers[f].append((p, i)); break
                    for a in t["a"]:
                        f = (a.get("k") or {}).get("fn")
                        if f in c.N.bodies: c.callers[f].append((p, i))
                for pl, r, ln in g.b.blocks[i]["s"]:      # a function pointer, such as a query's provider
                    if r["r"] == "cast" and isinstance(r.get("o"), dict): c.entry.add((r["o"].get("k") or {}).get("fn"))
        floor(ctx, "functions entered through a pointer", len(c.entry & set(c.N.bodies)), 20)
    def headers(c, fn, s):
        if fn in c.ctors: return c.ctors[fn]
        if fn.endswith("::support_header"):
            if "RsStdTemplateSpecialization" in fn: return {"@spec"}
            if s: return c.H.reach(s)
    def flow(c, p, cut=frozenset()):
        if (p, cut) not in c.fl: c.fl[p, cut] = c.N.flow(p, cut)
        return c.fl[p, cut]
    def ok(c, p, i, hs):
        "the block's own path, and what its guards imply elsewhere, certainly records one of the headers"
        for v in c.N.variants(p, i):
            if v in c.supp and c.H.reach(c.supp[v]) & hs: return True
        for k in (False, True):
            cut = frozenset(c.N.pruned(p, c.N.assume(p, i))) if k else frozenset()
            b, a = c.flow(p, cut); b, a = b[i], a[i]
            if b is names.TOP or a is names.TOP or (a | b) & hs: return True
        return False
    def up(c, p, hs):
        "the entry points - functions nothing calls, and those called through a pointer - that reach p with nothing on the way recording one of the headers"
        seen, w, out = set(), [p], set()
        while w:
            p = w.pop()
            if p in seen: continue
            seen.add(p); cs = c.N.made.get(p, []) or c.callers.get(p, [])
            if not cs or p in c.entry: out.add(p)
            w += [q for q, i in cs if q not in seen and not c.ok(q, i, hs)]
        return out
    def credit(c):
        "building the description of a specialization counts as its header: whoever records it must record the header too"
        for p, g in c.N.g.items():
            for i in g.live:
                for pl, r, ln in g.b.blocks[i]["s"]:
                    if r["r"] == "agg" and r.get("var") in c.supp and any(f in str(r.get("adt")) for f in FAMILY):
                        out = c.N.generated(p); out[i] = set(out.get(i, ())) | {x for x in c.H.reach(c.supp[r["var"]])}
        c.N._must.clear()
    def borne(c):
        "functions that spell a type: reached by direct calls from format_ty_for_cc"
        P = [p for p in c.N.bodies if last(p) == "format_ty_for_cc" and "BindingsGenerator" not in p]
        if not P: raise Broken("format_ty_for_cc not found")
        s, w = set(), list(P)
        while w:
            p = w.pop()
            if p in s: continue
            s.add(p)
            for i in c.N.g[p].live:
                t = c.N.bodies[p].blocks[i]["t"]
                if t["t"] == "call": w += [f for f in (t["f"].get("rs"), t["f"].get("fn")) if f in c.N.bodies and "format_type" in f]
                w += [r["clo"] for pl, r, ln in c.N.bodies[p].blocks[i]["s"] if r["r"] == "agg" and r.get("clo") in c.N.bodies]
        return s

def run(ctx):
    c = Check(ctx); N = c.N
    c.credit(); spell = c.borne(); n = 0; seen = set()
    for p in sorted(N.bodies):
        es = N.emissions(p); strs = any(h == "rs_std::StrRef" for _, _, _, h in es)
        for i, ln, full, hit in es:
            if hit == "std::string_view" and strs and p not in spell: continue     # StrRef's header has it
            if hit is None:
                if full.split("::")[0] in ("crubit", "rs_std"): ctx.violate(f"unknown:{full}", p, f"`{full}` is written, but no support header declares it")
                continue
            if hit in BORNE and p not in spell: continue
            n += 1; hs = c.K.get(hit)
            ctx.obligation(f"{p}: {hit} needs {' or '.join(sorted(hs)[:4])}"); seen.add(hit)
            if c.ok(p, i, hs): continue
            for r in sorted(c.up(p, hs)):
                ctx.violate(f"name:{hit}:{last(p)}", f"{p} (line {ln})", f"writes `{hit}`, but {'nothing' if r == p else 'its caller ' + r + ' neither'} records {' or '.join(sorted(hs)[:3])} on some path that produces text")
    floor(ctx, "names written", n, 150); floor(ctx, "distinct names", len(seen), 40)
    k = 0
    for p in sorted(N.bodies):
        g = N.g[p]
        for i in sorted(g.live):
            t = g.b.blocks[i]["t"]
            if t["t"] != "call" or last(t["f"].get("fn", "")) != "insert" or len(t["a"]) < 2: continue
            o = g.origin(t["a"][1])
            if not (o and o[0] == "r" and o[1]["r"] == "agg" and o[1].get("var") == "RsStd"): continue
            if "CrubitAbiType" in N.bodies[p].ty(0): continue          # the type is formatted as well
            k += 1; ctx.obligation(f"{p}: a specialization is recorded with its header")
            if not c.ok(p, i, {"@spec"}) and c.up(p, {"@spec"}):
                ctx.violate(f"specialization:{last(p)}", p, "records a specialization of a support template without the header that declares the template")
    floor(ctx, "places that record a specialization", k, 2)
