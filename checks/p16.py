"""generate_adt and the generators of rs_std::{Option,Result,Tuple,Vec}, with the queries and helpers they use inlined, are interpreted abstractly on the compiler's MIR for every combination of (needs drop, Copy, Clone, Default, Unpin). The special member functions of the C++ class each of them emits - declaration, definition and static_asserts - are read off the emitted token templates and compared with what the traits of the Rust type permit."""
from core import *
from thunks import *
from emit import *
RULE = "per generator and trait combination: destructor, copy, move and default members are exactly those the Rust traits permit, a member is declared = default only together with its triviality static_assert, and user-provided members call the matching trait thunk"
LEVEL = "other"
N = r"(?:⟨[^⟩]*⟩|[A-Za-z_]\w*)"
CUTS = tuple(x for x in CUT if x != "has_move_ctor_and_assignment_operator")
OPAQUE16 = ("generate_fields", "generate_associated_item", "generate_adt_based_ctors", "generate_into_impls", "generate_trait_operator_impls", "generate_constructor_impls",
    "generate_ord_and_partialord_impls", "generate_display_impl", "generate_into_iterator_impls", "generate_cpp_enum", "generate_doc_comment", "generate_must_use_tag", "generate_deprecated_tag",
    "generate_unsupported_def", "repr_attrs", "make_thunk_name", "symbol_canonical_name", "escape_non_identifier_chars", "compute_vec_layout_offsets", "literal_of_tag_ty", "post_analysis_typing_env")
GENS = ("generate_adt", "specialize_option", "specialize_result", "specialize_tuple", "specialize_vec")
TRAITS = {"drop_trait": "Drop", "clone_trait": "Clone", "Symbol#Default": "Default"}
def trait_of(t):
    x = show(t)
    c = {v for k, v in TRAITS.items() if k in x}
    return c.pop() if len(c) == 1 else None
def tok(s): return T("cat", T("empty"), T("tok", s))
class Traits:
    def __init__(self, v, thunks_ok): self.v, self.thunks_ok = v, thunks_ok
    def __call__(self, t):
        if t.op != "call": return None
        n = last(t.a[0]); v = self.v; A = [x for x in t.a[1:] if isinstance(x, T)]
        if n == "needs_drop": return boolc(v["drop"])
        if n in ("type_is_copy_modulo_regions", "is_copy"): return boolc(v["copy"])
        if n == "is_unpin": return boolc(v["unpin"])
        if n == "does_type_implement_trait":
            k = trait_of(A[2]) if len(A) > 2 else None
            return boolc(v[k.lower()]) if k else None
        if n in ("clone_trait", "drop_trait") and "Option" not in t.a[0]: return some(T("mark", n))
        if n == "get_diagnostic_item": return some(T("mark", A[-1].a[0] if A[-1].op == "const" else "?"))
        if n == "get_attrs": return ok(T("agg", "CrubitAttrs::CrubitAttrs", ("cpp_enum",), NONE))
        if n == "generate_trait_thunks":
            k = next((trait_of(a) for a in A if trait_of(a)), "?")
            s = T("agg", "TraitThunks::TraitThunks", ("method_name_to_cc_thunk_name", "cc_thunk_decls", "rs_thunk_impls"), T("mark", "thunks:" + k), snippet(T("tok", f"DECLS:{k}")), T("agg", "RsSnippet::RsSnippet", ("tokens", "extern_c_decls"), tok(f"IMPLS:{k}"), T("default")))
            # `does not implement` is decided here as the real function does
            if k in ("Clone", "Default") and not v[k.lower()]: return T("fail")
            return ok(s) if self.thunks_ok or k == "Drop" else T("fail")
        if n == "exactly_one" and A and "thunks:" in show(A[0]): return ok(T("tok", "THUNK:" + re.search(r"thunks:(\w+)", show(A[0])).group(1)))
        if n == "get" and A and A[0].op == "mark" and str(A[0].a[0]).startswith("thunks:"): return some(T("tok", "THUNK:" + A[0].a[0][7:] + ":" + re.sub(r".*#", "", str(A[1].a[0]))))
        if n == "into_values" and A: return A[0]
        if n == "thunk_returns_by_value": return FALSEc
        return None
def clean(s):
    s = re.sub(r'__COMMENT__ ("(?:[^"\\]|\\.)*"|⟨[^⟩]*⟩)', "", s).replace("__NEWLINE__", "")
    return re.sub(r"\s+", " ", re.sub(r"⟨([A-Za-z_]\w*)⟩", r"\1", s)).strip()
def bare(s):
    """the literal tokens outside of template argument lists"""
    s = re.sub(r"⟨[^⟩]*⟩|[«»¦]|\btokens\b", " ", s)
    while True:
        t = re.sub(r"<[^<>;{}]*>", " ", s)
        if t == s: break
        s = t
    s = re.sub(r"\s+", " ", s).strip(" ,")
    return s if re.search(r"[^\w\s]", s) else ""
def cname(main):
    """the class's own name: the one its destructor is declared with"""
    c = set(re.findall(r"~ (%s) \( \)" % N, main))
    return re.escape(c.pop()) if len(c) == 1 else None
def end(m): return (m or "").strip(" =") or "user"
TAIL = r" (?:noexcept )?(= (?:default|delete) )?;"
def declared(main, N):
    """special members declared in the class body: kind -> list of default/delete/user"""
    out = {}
    for kind, pat in (("dtor", r"~ " + N + r" \( \)" + TAIL), ("copy-ctor", r"(?<![=~>] )" + N + r" \( const " + N + r" & (?:\w+ )?\)" + TAIL), ("copy-assign", r"operator = \( const " + N + r" & (?:\w+ )?\)" + TAIL),
            ("move-ctor", r"(?<![=~>] )" + N + r" \( " + N + r" && (?:\w+ )?\)" + TAIL), ("move-assign", r"operator = \( " + N + r" && (?:\w+ )?\)" + TAIL), ("default-ctor", r"(?<![~&*>] )(?<!const )" + N + r" \( \)" + TAIL),
            ("relocate-ctor", N + r" \( :: crubit :: UnsafeRelocateTag , " + N + r" && \w+ \)" + TAIL)):
        for m in re.finditer(pat, main): out.setdefault(kind, []).append(end(m.group(1)))
    return out
def body_at(s, i):
    """initialiser list and body following the parameter list that ends at i"""
    m = re.match(r" ?(?:noexcept )?(: [^{]*)?\{", s[i:])
    if not m: return None
    k = i + m.end() - 1
    return (m.group(1) or "").strip(), s[k + 1:balanced(s, k) - 1].strip()
def defined(det, N):
    out = {}
    for kind, pat in (("dtor", r":: ~ " + N + r" \( \)"), ("copy-ctor", r":: " + N + r" \( const " + N + r" & (\w+) \)"), ("copy-assign", r":: operator = \( const " + N + r" & (\w+) \)"),
            ("move-ctor", r":: " + N + r" \( " + N + r" && (\w+) \)"), ("move-assign", r":: operator = \( " + N + r" && (\w+) \)"), ("default-ctor", r":: " + N + r" \( \)"),
            ("relocate-ctor", r":: " + N + r" \( :: crubit :: UnsafeRelocateTag , " + N + r" && (\w+) \)")):
        for m in re.finditer(pat, det):
            b = body_at(det, m.end())
            if b is not None: out.setdefault(kind, []).append((m.group(1) if m.re.groups else "", *b))
    return out
TRIVIAL = {"dtor": "is_trivially_destructible", "copy-ctor": "is_trivially_copy_constructible", "copy-assign": "is_trivially_copy_assignable", "move-ctor": "is_trivially_move_constructible", "move-assign": "is_trivially_move_assignable"}
def asserted(det, kind): return re.search(r"static_assert \( (?::: )?std :: (?:%s_v <|is_trivially_copyable_v <)" % TRIVIAL[kind], det) is not None
def norm_call(b): return re.sub(r"(?:__crubit_internal :: |(?::: )?crubit :: |(?::: )?std :: )", "", b)
def guarded(body, other, call):
    o = rf"(?:& {other}|addressof \( {other} \))"
    return re.fullmatch(rf"if \( (?:this != {o}|{o} != this) \) \{{ {call} \}} return \* this ;", body) or re.fullmatch(rf"if \( (?:this == {o}|{o} == this) \) (?:\{{ )?return \* this ; (?:\}} )?{call} return \* this ;", body)
def judge(kind, how, x, det, dropper):
    """is the definition of a user-provided special member what it has to be?"""
    other, init, body = x; b = norm_call(body)
    if kind == "dtor": return re.fullmatch(dropper, b) is not None
    if kind == "default-ctor": return re.fullmatch(r"THUNK:Default \( this \) ;", b) is not None and not init
    if kind == "copy-ctor": return re.fullmatch(rf"THUNK:Clone:clone \( {other} , this \) ;", b) is not None and not init
    if kind == "copy-assign": return guarded(b, other, rf"THUNK:Clone:clone_from \( \* this , {other} \) ;") is not None
    if kind == "move-ctor": return re.fullmatch(r": " + N + r" \( \)", init) is not None and re.fullmatch(rf"(?:\* this = move \( {other} \)|MemSwap \( \* this , {other} \)) ;", b) is not None
    if kind == "move-assign": return re.fullmatch(rf"MemSwap \( \* this , {other} \) ; return \* this ;", b) is not None
    if kind == "relocate-ctor": return re.fullmatch(rf"memcpy \( this , & {other} , sizeof \( (?:{other}|\* this|{N}) \) \) ;", b) is not None and not init
def expected(v, gen, thunks):
    drop = v["drop"]
    e = {"dtor": "user" if drop or gen == "specialize_vec" else "default"}
    copy = "default" if v["copy"] else "user" if v["clone"] and thunks else "delete"
    e["copy-ctor"] = e["copy-assign"] = copy
    mv = "default" if not drop else "user" if v["default"] and v["unpin"] else None if v["clone"] else "delete"
    e["move-ctor"] = e["move-assign"] = mv
    if gen in ("generate_adt", "specialize_tuple", "specialize_vec"): e["default-ctor"] = "user" if v["default"] and thunks else "delete"
    e["relocate-ctor"] = "user"
    return e
DROPPER = {"generate_adt": r"THUNK:Drop \( (?:\* )?this \) ;", "specialize_option": r"(?:this -> )?reset \( \) ;", "specialize_result": r"(?:this -> )?Reset \( \) ;",
    "specialize_tuple": r"« destroy_at \( reinterpret_cast < .* \* > \( storage_ \+ (?:⟨[^⟩]*⟩|\w+) \) \) ; »", "specialize_vec": r"⟨[^⟩]*make_thunk_name[^⟩]*⟩ \( this \) ;"}
def combos():
    import itertools
    for drop, copy, clone, default, unpin in itertools.product((False, True), repeat=5):
        if copy and (drop or not clone): continue      # Copy: Clone, and excludes drop glue
        yield dict(drop=drop, copy=copy, clone=clone, default=default, unpin=unpin)
def lab(v): return ", ".join(k if x else "not " + k for k, x in (("needs drop", v["drop"]), ("Copy", v["copy"]), ("Clone", v["clone"]), ("Default", v["default"]), ("Unpin", v["unpin"])))
def analyse(F, Q, gen, v, thunks):
    p = one(F, "::" + gen, "generate_bindings")
    A = AI(F, oracle=Traits(v, thunks), opaque=lambda f: last(f) in CUTS or last(f) in OPAQUE16 or "arc_anyhow" in f or "error_report" in f, depth=18, alias=Q)
    A.optional = True
    r = A.run(p)
    full = {k: set() for k in SLOTS}
    for key, ss in emitted(A, r).items():
        for s in ss if isinstance(ss, list) else ():
            for k in SLOTS: full[k] |= {clean(x) for x in s.get(k, ())}
    parts = []
    for seq in A.collected:
        if len(seq) < 3 or any(rep for rep, x in seq): continue
        for rep, x in seq:
            for key, ss in emitted(A, x).items():
                for s in ss if isinstance(ss, list) else ():
                    parts.append({k: sorted({clean(y) for y in s.get(k, ())} or {""}) for k in SLOTS})
    return full, parts, A.steps, A.partial
def run(ctx):
    F = ctx.facts(harness=False)
    Q = Queries(F)
    cells = [(g, v, t) for g in GENS for v in combos() for t in (True, False)]
    und, n, steps = [], 0, 0
    where = {g: F.bodies[one(F, "::" + g, "generate_bindings")].where() for g in GENS}
    for (gen, v, thunks), (full, parts, st, partial) in zip(cells, parallel(lambda x: analyse(F, Q, *x), cells)):
        steps += st
        name = gen.removeprefix("generate_").removeprefix("specialize_")
        what = f"{'the class of a Rust type' if name == 'adt' else 'rs_std::' + name.capitalize()} ({lab(v)}{'' if thunks else '; trait thunks not expressible'})"
        exp = expected(v, gen, thunks)
        bad = [("partial", f"`{how}` in {last(fn)} leaves elements out of a sequence the class is generated from") for fn, how in sorted(partial)]
        # every part reaches the class
        for p in parts:
            for k in SLOTS:
                for x in p[k]:
                    if bare(x) and not any(bare(x) in bare(y) for y in full[k]): bad.append(("dropped", f"a {k} fragment is generated but not emitted: {x[:80]}"))
        mains = [x for x in full["main_api"]]
        if not mains or len(full["cc_details"]) < 1: und.append(what + " nothing emitted"); continue
        alld = " ".join(full["cc_details"]); allr = " ".join(full["rs_details"])
        cns = {cname(m) for m in mains}
        cn = cns.pop() if len(cns) == 1 else None
        if cn is None:
            ctx.violate(f"special-members:{name}:dtor", where[gen], f"{what}: the class does not declare exactly one destructor"); continue
        for kind, want in exp.items():
            # declarations in each alternative of the whole class
            for m in mains:
                d = declared(m, cn).get(kind, [])
                if want is None:
                    if d: bad.append((kind, f"declares a {kind} ({'/'.join(d)}) although moves have to fall back to the copy operations"))
                elif not d:
                    if kind == "default-ctor" or kind in ("dtor", "copy-ctor", "copy-assign", "move-ctor", "move-assign", "relocate-ctor"): bad.append((kind, f"has no {kind}, but needs one that is {want}"))
                elif set(d) != {want}: bad.append((kind, f"{kind} is {'/'.join(sorted(set(d)))}, must be {want}"))
            defs = defined(alld, cn).get(kind, [])
            if want == "user":
                if not defs: bad.append((kind, f"{kind} is declared but not defined"))
                for x in defs:
                    if not judge(kind, want, x, alld, DROPPER[gen]): bad.append((kind, f"{kind} does not do what it must: {' '.join(y for y in x[1:] if y)[:140]}"))
                for t, k2 in (("Drop", "dtor"), ("Clone", "copy-ctor"), ("Default", "default-ctor")):
                    if kind == k2 and (kind != "dtor" or gen == "generate_adt"):
                        if f"DECLS:{t}" not in alld: bad.append((kind, f"the {t} thunk is called but not declared"))
                        if f"IMPLS:{t}" not in allr: bad.append((kind, f"the {t} thunk is called but not implemented"))
                if kind == "dtor" and gen == "specialize_vec" and "drop_in_place (" not in allr: bad.append((kind, "the drop thunk does not drop the vector"))
            elif defs: bad.append((kind, f"{kind} must be {want or 'absent'} but is defined"))
            if want == "default" and not (kind == "dtor" and gen == "specialize_tuple") and not asserted(alld, kind): bad.append((kind, f"{kind} is defaulted without asserting that it is trivial"))
        ctx.obligation(what + " -> " + ", ".join(f"{k}: {x or 'absent'}" for k, x in exp.items()))
        if bad:
            for k, msg in bad[:6]: ctx.violate(f"special-members:{name}:{k}", where[gen], f"{what}: {msg}")
        else: n += 1
    # the drop thunk itself
    p = one(F, "::generate_trait_thunks", "generate_bindings")
    A = AI(F, opaque=lambda f: opaque(f, ("make_thunk_name", "generate_thunk_decl", "generate_thunk_impl", "symbol_canonical_name", "post_analysis_typing_env")), depth=18)
    txt = set()
    for x in subterms(A.run(p)):
        if x.op == "agg" and "rs_thunk_impls" in x.a[1]:
            for y in alts(field(x, "rs_thunk_impls")):
                tk = A.proj(y, ".tokens", {})
                if tk is not None: txt |= {text(s) for s in flat(A, tk)}
    drops = [t for t in txt if "drop_in_place" in t]
    ctx.obligation("Rust drop thunk emitted by generate_trait_thunks: " + (drops[0][:160] if drops else "none"))
    for t in drops:
        for m in re.finditer(r'extern "C" fn \S+ \( (\w+) : \* mut ⟨[^⟩]*⟩ \) \{(.*?)\} »?', t + " »"):
            if len(re.findall(r"drop_in_place \( %s \)" % m.group(1), m.group(2) + "}")) != 1: ctx.violate("special-members:drop-thunk", F.bodies[p].where(), f"the drop thunk must drop its argument exactly once: {m.group(0)[:150]}")
    if not drops: ctx.violate("special-members:drop-thunk", F.bodies[p].where(), "no drop thunk that calls drop_in_place is emitted")
    ctx.cov["interpreter_steps"] = steps; ctx.cov["undetermined"] = und[:10]
    if not ctx.viol: floor(ctx, "classes_decided", n, len(cells))
