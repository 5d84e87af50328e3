"""The four generators that between them fix a thunk's calling convention - generate_thunk_decl (C++ declaration), generate_thunk_impl (Rust signature and body) and generate_thunk_call (C++ call), with everything they call inlined - are interpreted abstractly on the compiler's MIR for every feasible valuation of what they ask about a type (kind, bridging, C-ABI compatibility, drop glue, feature flags). Both the C++ and Rust token templates they emit are classified by convention, and the classes must agree."""
from core import *
from thunks import *
RULE = "for every valuation of a parameter's / return type's properties, the convention read off the C++ declaration, the Rust signature, the Rust body and the C++ call are the same one"
LEVEL = "other"
AGREE_PARAM = [  # (D, R, V, C) each a set of acceptable classes of one convention
    ({"VAL"}, {"VAL"}, {"VAL"}, {"VAL"}),
    ({"BUF"}, {"BUF"}, {"BUF"}, {"BUF/moved", "BUF/copied"}),
    ({"TUP"}, {"TUP"}, {"TUP"}, {"TUP"}),
    ({"PTR"}, {"PTR", "VOIDP"}, {"PTR", "CONV"}, {"PTR/moved", "PTR/lent", "PTR/slot"}),
    ({"P1"}, {"VOIDP"}, {"P1", "CONV"}, {"P1"}),
]
AGREE_RET = [
    ({"VAL"}, {"VAL"}, {"VAL"}, {"VAL"}),
    ({"BUF"}, {"BUF"}, {"BUF"}, {"BUF"}),
    ({"TUP"}, {"PTR"}, {"TUP"}, {"TUP"}),
    ({"PTR"}, {"PTR"}, {"PTR", "PTR/conv"}, {"PTR/slot", "PTR/union", "PTR/local"}),
    ({"FUT"}, {"FUT"}, {"FUT"}, {"FUT"}),
]
SIDES = ("C++ declaration", "Rust signature", "Rust body", "C++ call")
def known(c): return c and not any(x.startswith("?") for x in c)
def verdict(table, obs):
    """None = undetermined, "" = agree, text = disagreement"""
    for row in table:
        if all(o and o <= r for o, r in zip(obs, row)): return ""
    # compatible so far: some row accepts every known class
    k = [(i, {x for x in o if not x.startswith("?")}) for i, o in enumerate(obs)]
    for row in table:
        if all(o <= row[i] for i, o in k): return None
    return ", ".join(f"{SIDES[i]}: {'/'.join(sorted(o)) or 'none'}" for i, o in enumerate(obs))

def observe(C, role, v, feat, ctor=False, is_async=False):
    val = dict(param=dict(base), ret=dict(base), feat=feat)
    val[role] = dict(v)
    t = C.templates(val, ctor=ctor, is_async=is_async)
    ptr = v["br"] in ("lptr", "eptr")
    if role == "param": return cls_decl_param(t["decl"], ptr), cls_rs_param(t["impl"]), cls_rs_body_param(t["impl"]), cls_cc_arg(t["call"], ptr)
    if ctor: return ret_decl(t["decl"]), ret_rs_sig(t["impl"]), ret_rs_body(t["impl"])
    return ret_decl(t["decl"]), ret_rs_sig(t["impl"]), ret_rs_body(t["impl"]), ret_cc(t["call"])

def observe_elem(C, v):
    tuple_ = dict(base, kind="Tuple", cabi=False, drop=v["drop"])
    t = C.templates(dict(param=tuple_, ret=tuple_, nested=v, feat=set()))
    return elem_rs_param(t["impl"]), elem_cc_param(t["call"]), elem_rs_ret(t["impl"]), elem_cc_ret(t["call"])
def ctor_rows():
    out = []
    for drop in (False, True):
        for cabi in (True, False):
            out.append((dict(br="none", cabi=cabi, kind="Adt", drop=drop), set()))
        for br in ("none", "comp"):
            out.append((dict(br=br, cabi=False, kind="Adt", drop=drop, opt=True), {"AlwaysSpecializeGenericsInCppApiFromRust"}))
    return out

CTOR_USERS = ("generate_trait_thunks", "generate_thunk_decl", "generate_thunk_impl")
def ctor_sites(F):
    """functions that ask for a constructor thunk (is_constructor = true at a call of a thunk generator)"""
    idx = {}
    for n in CTOR_USERS:
        p = one(F, "::" + n, GEN); b = F.bodies[p]
        i = next((i for i in range(1, b.argc + 1) if b.name(i) == "is_constructor"), None)
        if i is None: raise Broken(f"{n}: no is_constructor parameter")
        idx[p] = i - 1
    out = {}
    for p, b in F.bodies.items():
        if GEN not in p: continue
        for bb in b.blocks:
            t = bb["t"]
            if t["t"] == "call" and t["f"].get("fn") in idx:
                a = t["a"][idx[t["f"]["fn"]]]
                if a.get("k", {}).get("v") in (1, "1", True, "true"): out.setdefault(p.split("::{closure")[0], b.where(t["ln"]))
    return out
CALLRE = re.compile(r"(\* this = )?(?:__crubit_internal :: )?⟨[^⟩]*(?:exactly_one|get|thunk_name)[^⟩]*⟩ \(")
def site_calls(C, path, cabi, drop=False):
    """the C++ statements in which the function's C++ constructor body calls the thunk: {VAL, PTR, ?...}"""
    val = dict(param=dict(base), ret=dict(base, kind="Adt", cabi=cabi, drop=drop), feat=set())
    A = AI(C.F, oracle=Valuation(val), opaque=lambda f: opaque(f, OPAQUE + CTOR_USERS))
    r = A.run(path, C.args(path))
    out = set()
    for x in subterms(r):
        if x.op != "agg" or "cc_details" not in x.a[1]: continue
        for y in alts(x.a[2 + x.a[1].index("cc_details")]):
            if y.op != "agg" or "tokens" not in y.a[1]: continue
            for s in flat(A, y.a[2 + y.a[1].index("tokens")]):
                s = text(s)
                # only constructor definitions: `X :: X ( .. ) { .. }`
                for m in re.finditer(r":: ⟨([^⟩]*)⟩ \( (?![^)]*\) \{ if)", s):
                    j = balanced(s, s.index("(", m.end() - 2))
                    k = s.find("{", j)
                    if k < 0 or s[j:k].strip() or "operator" in s[max(0, m.start() - 12):m.start()]: continue
                    body = s[k:balanced(s, k)]
                    for c in CALLRE.finditer(body):
                        i = c.end() - 1
                        args = body[i + 1:balanced(body, i) - 1]
                        al = [a.strip() for a in split_alts_top(args)]
                        last_this = {a == "this" or a.endswith(", this") for a in al}
                        if c.group(1) and last_this == {False}: out.add("VAL")
                        elif not c.group(1) and last_this == {True}: out.add("PTR")
                        else: out.add("?" + body[c.start():c.start() + 80])
    return out

def run(ctx):
    F = ctx.facts(harness=False)
    C = Cells(F)
    impl = {r: F.bodies[C.paths[k]].where() for r, k in (("param", "decl"), ("ret", "decl"))}
    cells = [(r, v, f, False) for r in ("param", "ret") for v, f in rows()]
    cells += [("param", dict(base, kind="Adt", rref=True, drop=d), set(), False) for d in (False, True)]
    cells += [("ret", v, f, True) for v, f in rows()]
    def go(x):
        r, v, f, a = x
        return observe(C, r, v, f, is_async=a)
    undetermined, n = [], 0
    for (r, v, f, a), obs in zip(cells, parallel(go, cells)):
        what = f"{'parameter' if r == 'param' else 'future output' if a else 'return value'}: {label(v, f)}" + (", C++ rvalue-reference wrapper" if v.get("rref") else "")
        ctx.obligation(what + " -> " + " | ".join("/".join(sorted(o)) for o in obs)[:200])
        d = verdict(AGREE_PARAM if r == "param" else AGREE_RET, obs)
        if d is None: undetermined.append(what + str(obs)[:300])
        elif d: ctx.violate(f"thunk-convention:{r}{'-async' if a else ''}:{v['kind']}:{v['br']}:{'cabi' if v['cabi'] else 'nocabi'}", impl[r], f"the generators disagree on how the thunk passes a {what}: {d}")
        else: n += 1
    # tuple elements
    erow = elem_rows()
    for v, (rp, cp, rr, cr) in zip(erow, parallel(lambda v: observe_elem(C, v), erow)):
        what = f"tuple element: {label(v, set())}"
        ctx.obligation(what + " -> " + " | ".join("/".join(sorted(o)) for o in (rp, cp, rr, cr))[:200])
        for kind, a, b, tab in (("argument", rp, cp, ({"VAL"}, {"VAL"}, {"PTR"}, {"PTR/moved", "PTR/lent", "PTR/slot"}, {"TUP"}, {"TUP"})), ("result", rr, cr, ({"WRITE"}, {"PTR/slot", "PTR/local"}, {"TUP"}, {"TUP"}))):
            pairs = list(zip(tab[::2], tab[1::2]))
            if any(a and b and a <= x and b <= y for x, y in pairs): n += 1
            elif any({z for z in a if z[0] != "?"} <= x and {z for z in b if z[0] != "?"} <= y for x, y in pairs): undetermined.append(f"{what} {kind} {a} {b}")
            else: ctx.violate(f"thunk-convention:element-{kind}:{v['kind']}:{'cabi' if v['cabi'] else 'nocabi'}", impl["param"], f"C++ and Rust disagree on how a tuple {kind}'s element is passed ({what}): Rust {'/'.join(sorted(a))}, C++ {'/'.join(sorted(b))}")
    # constructor thunks
    crow = ctor_rows()
    declared = {}
    for (v, f), obs in zip(crow, parallel(lambda x: observe(C, "ret", x[0], x[1], ctor=True), crow)):
        what = f"constructor result: {label(v, f)}" + (", Option" if v.get("opt") else "")
        ctx.obligation(what + " -> " + " | ".join("/".join(sorted(o)) for o in obs)[:200])
        clear = [{x for x in o if x[0] != "?"} for o in obs]
        if obs[0] in ({"VAL"}, {"PTR"}) and all(o == obs[0] for o in obs):
            n += 1
            if not v.get("opt"): declared[v["cabi"], v["drop"]] = obs[0]
        elif any(all(k <= {w} for k in clear) for w in ("VAL", "PTR")): undetermined.append(what + str(obs)[:300])
        else: ctx.violate(f"ctor-thunk-convention:{'option' if v.get('opt') else 'adt'}:{v['br']}:{'cabi' if v['cabi'] else 'nocabi'}", impl["ret"], f"a {what} must be returned by value on both sides or written to the object under construction on both, but {', '.join(f'{SIDES[i]}: ' + '/'.join(sorted(o)) for i, o in enumerate(obs))}")
    sites = ctor_sites(F)
    floor(ctx, "constructor_thunk_users", len(sites), 3)
    scells = [(p, c, d) for p in sorted(sites) for c in (True, False) for d in (False, True)]
    for (p, cabi, drop), got in zip(scells, parallel(lambda x: site_calls(C, *x), scells)):
        where = sites[p]; want = declared.get((cabi, drop), set())
        ty = f"{'' if cabi else 'not '}C-ABI compatible by value, {'needs' if drop else 'no'} drop"
        ctx.obligation(f"C++ constructor emitted by {last(p)}, type {ty} -> {'/'.join(sorted(got))}"[:200])
        if got and got == want: n += 1
        elif not want or not got or (any(g[0] == "?" for g in got) and {g for g in got if g[0] != "?"} <= want): undetermined.append(f"{p} {cabi} {drop} {got}")
        else: ctx.violate(f"ctor-call-convention:{last(p)}:{'cabi' if cabi else 'nocabi'}:{'drop' if drop else 'nodrop'}", where, f"the C++ constructor emitted for a type that is {ty} calls its thunk as {'/'.join(sorted(got))}, but the thunk is declared as {'/'.join(want)}")
    complete_loops(ctx, C)
    ctx.cov["interpreter_steps"] = C.steps
    ctx.cov["valuations"] = len(cells) + len(crow) + len(erow)
    ctx.cov["undetermined"] = undetermined[:10]
    if not ctx.viol: floor(ctx, "conventions_decided", n, len(cells) + len(crow) + 2 * len(erow) + len(scells))
