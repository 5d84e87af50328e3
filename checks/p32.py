"""The generators of rs_std::Option, Result, Tuple and Vec are interpreted abstractly on the compiler's MIR, for both tag encodings and each choice of untagged variant. rustc's layout (variant indices, discriminants, niche start, field offsets, size, alignment) is replaced by distinct numbers; every literal in the emitted C++ must be the number that the Rust layout rules prescribe at that place."""
from core import *
from thunks import *
from emit import *
import containers
from itertools import product
import importlib.util
_s = importlib.util.spec_from_file_location("p16", os.path.join(os.path.dirname(os.path.abspath(__file__)), "p16.py")); p16 = importlib.util.module_from_spec(_s); _s.loader.exec_module(p16)
CUTS, clean, tok = p16.CUTS, p16.clean, p16.tok
RULE = "per container, tag encoding and untagged variant: tests and setters of the tag use the discriminant or niche value of the right variant at the tag's offset, payload pointers point at that variant's field with its type, const and non-const accessors agree, storage has rustc's size and alignment, Vec's accessors read its pointer and length and check the index, every tuple element is constructed, converted and destroyed once at its own offset"
LEVEL = "other"
SIZE, ALIGN, TAGOFF, NICHE, START, PTR, LEN = 976, 16, 200, 1000, 2, 440, 456
IDX = {"OptionSome": 5, "OptionNone": 6, "ResultOk": 5, "ResultErr": 6}
def discr(i): return 70 + i
def varoff(i): return 320 + 16 * i
class Num:
    """the numbers of the layout at hand"""
    def __init__(self, roles): self.roles = roles                 # {field of the variant-index helper: lang item}
    def __call__(self, t, d=0):
        if d > 30 or not isinstance(t, T): return None
        N = lambda x: self(x, d + 1)
        if t.op == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool): return t.a[0]
        if t.op == "bin":
            a, b = N(t.a[1]), N(t.a[2])
            if None in (a, b): return None
            return {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(t.a[0].replace("WithOverflow", "").replace("Unchecked", ""))
        if t.op == "field":
            x, n = t.a
            if n in ("niche_start",): return NICHE
            if n in ("start", "end") and "niche_variants" in show(x): return START if n == "start" else 99
            if n == "ptr_offset": return PTR
            if n == "len_offset": return LEN
            if n == "tag_field": return 3
            if n in self.roles and x.op == "call": return IDX[self.roles[n]]
            if n in ("0", "val", "abi", "raw"): return N(x)
            return None
        if t.op in ("var", "cast"): return N(t.a[0])
        if t.op == "call":
            f = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
            if f in ("bytes", "as_usize", "as_u32", "into", "from", "as_u64", "index", "clone", "unwrap", "try_into", "expect", "as_u128") and A: return N(A[0])
            if f in ("strict_sub", "sub", "wrapping_sub", "checked_sub") and len(A) == 2:
                a, b = N(A[0]), N(A[1]); return None if None in (a, b) else a - b
            if f in ("strict_add", "add", "wrapping_add") and len(A) == 2:
                a, b = N(A[0]), N(A[1]); return None if None in (a, b) else a + b
            if f == "start" and "niche_variants" in show(A[0]): return START
            if f == "offset" and len(A) == 2:
                fs, i = A
                b = fs
                while b.op in ("field", "call") and not (b.op == "call" and last(b.a[0]) in ("fields", "for_variant")): b = b.a[0] if b.op == "field" else next((x for x in b.a[1:] if isinstance(x, T)), T("top"))
                if b.op != "call": return None
                if last(b.a[0]) == "for_variant":
                    v, k = N([x for x in b.a[1:] if isinstance(x, T)][1]), N(i)
                    return varoff(v) if v is not None and k == 0 else None
                k = N(i)
                if k is not None: return TAGOFF if k == 3 else 500 + k
                return None
            if f == "discriminant_for_variant": 
                v = N(A[2]) if len(A) > 2 else None
                return None if v is None else discr(v)
            if f == "size" and re.search(r"\.layout\)$", show(t)): return SIZE
            if f == "align" and re.search(r"\.layout\)$", show(t)): return ALIGN
        return None
def tyname(x):
    s = show(x)
    m = re.findall(r"(some_ty|ok_ty|err_ty|tag_type_cc|@Vec)", s)
    return {"some_ty": "SOME", "ok_ty": "OK", "err_ty": "ERR", "@Vec": "ITEM", "tag_type_cc": "TAG"}[m[-1]] if m else "ELEM" if "@Tuple" in s else None
class Std:
    def __init__(self, args, kind, enc, untagged, endian, roles): self.disc_ = {"args": args, "kind": kind, "tag_encoding": enc, "endian": endian}; self.untagged, self.num = untagged, Num(roles)
    def __call__(self, t):
        if t.op == "disc":
            x = t.a[0]; s = show(x)
            if x.op == "arg": return frozenset({"RsStd"})
            if x.op == "field" and x.a[1] in self.disc_ and self.disc_[x.a[1]]: return frozenset({self.disc_[x.a[1]]})
            if x.op == "var" or x.op == "field" or x.op == "call":
                if re.search(r"variants\([^()]*layout\)$", s): return frozenset({"Multiple"})
            return None
        if t.op == "field":
            if t.a[1] in ("for_cc",) and (n := tyname(t.a[0])): return snippet(T("tok", n))
            if t.a[1] == "tag_type_cc": return snippet(T("tok", "TAG"))
            return None
        if t.op in ("bin", "eq"):
            k, x, y = t.a if t.op == "bin" else ("Eq", *t.a)
            if k not in ("Eq", "Ne"): return None
            u = [z for z in (x, y) if "untagged_variant" in show(z)]
            if len(u) != 1: return None
            o = self.num(y if u[0] is x else x)
            if o is None: return None
            return boolc((o == self.untagged) == (k == "Eq"))
        if t.op != "call": return None
        n = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
        if n in ("eq", "ne") and len(A) == 2:
            u = [z for z in A if "untagged_variant" in show(z)]
            o = self.num(A[1] if u and u[0] is A[0] else A[0]) if len(u) == 1 else None
            return None if o is None else boolc((o == self.untagged) == (n == "eq"))
        if n == "literal_of_tag_ty":
            v = next((v for v in (self.num(a) for a in A[1:]) if v is not None), None)
            ty = next((show(a) for a in A if "tag_type" in show(a)), "?")
            return T("cat", T("empty"), T("tok", f"#t{v if v is not None else '?'}" + ("" if ty.endswith("tag_type_rs") else "!")))
        if n.endswith("_unsuffixed"):
            v = self.num(A[0])
            if v is None and A[0].op == "index": return T("tok", "#i")
            if v is None and re.search(r"^(?:\w|::)*bytes\(.*offset\(.*fields\([^()]*\), index\(", show(A[0])): return T("tok", "#off_i")
            return T("tok", "#" + (str(v) if v is not None else "?"))
        return None
SELF = dict(drop=True, copy=False, clone=False, default=False, unpin=True)
def index_helpers(F, Q):
    """{helper: {field: lang item}}: which variant the fields of the struct returned by a helper that looks at variants' lang items stand for"""
    out = {}
    for fn in sorted(F.bodies):
        if "generate_template_specialization" not in fn or "{" in last(fn): continue
        rt = F.bodies[fn].ty(0)
        if "VariantInd" not in rt and "VariantIdx" not in rt: continue
        per = {}
        for li in IDX:
            def oracle(t, li=li):
                if t.op != "call": return None
                n = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
                if n == "from_def_id": return some(T("agg", "LangItem::" + li, ()))
                return None
            A = AI(F, oracle=oracle, opaque=lambda f: False, depth=10, alias=Q); A.lenient = True
            try: r = A.run(fn)
            except Exception as e: raise Broken(f"{fn}: {e}")
            for x in alts(r) if r is not None else ():
                if x.op != "agg": continue
                for n, v in zip(x.a[1], x.a[2:]):
                    if n and v.op != "bot": per.setdefault(n, set()).add(li)
        if per: out[fn] = per
    return out
def emit_all(F, Q, o, helpers):
    ops = set(p16.OPAQUE16) | {last(h) for h in helpers}
    A = AI(F, oracle=Both(o, p16.Traits(dict(SELF, drop=True), True)), opaque=lambda f: last(f) in CUTS or last(f) in ops, depth=22, alias=Q); A.optional = True
    r = A.run(one(F, "::generate_template_specialization", "generate_bindings"))
    out = {k: set() for k in SLOTS}
    for key, ss in emitted(A, r, spell=("main_api", "cc_details")).items():
        for s in ss if isinstance(ss, list) else ():
            for k in SLOTS: out[k] |= {clean(x) for x in s.get(k, ())}
    return out, A.partial
class Both:
    def __init__(self, *os): self.os = os
    def __call__(self, t):
        for o in self.os:
            r = o(t)
            if r is not None: return r
def shape_rules(ctx, what, o):
    ctx.obligation(1)
    for s in o["main_api"]:
        if not re.search(r"alignas \( #%d \)" % ALIGN, s): ctx.violate(f"{what}:alignas", what, "the C++ type is not aligned as the Rust type is")
        if len(re.findall(r"unsigned char \w+ \[ #\S+ \]", s)) != 1 or not re.search(r"unsigned char \w+ \[ #%d \]" % SIZE, s): ctx.violate(f"{what}:storage", what, "the storage of the C++ type does not have the size of the Rust type")
def ir_rules(ctx, what, args, kind, enc, untagged, o, want, flags=()):
    """compile what is emitted and analyse its IR; violations of kind `want` are reported"""
    def report(cls, key, msg):
        if cls in want: ctx.violate(f"{what}:{key}", what, msg)
    errs, done = [], 0
    for m, d in sorted(product(o["main_api"], o["cc_details"]))[:4]:
        if args == "Vec": e = containers.vec(ctx, m, d, PTR, LEN, report, flags)
        else:
            vs = {"Option": {"some": "OptionSome", "none": "OptionNone"}, "Result": {"ok": "ResultOk", "err": "ResultErr"}}[kind]
            lit = lambda i: discr(i) if enc == "Direct" else NICHE + i - START
            e = containers.enum(ctx, what, kind, m, d, {v: lit(IDX[l]) for v, l in vs.items()}, {v: varoff(IDX[l]) for v, l in vs.items() if v != "none"}, TAGOFF, {v: enc == "Direct" or IDX[l] != untagged for v, l in vs.items()}, report, flags)
        if e: errs.append(e)
        else: done += 1
    if not done: raise Broken(f"{what}: what is emitted does not compile:\n" + errs[0][:1500])
def tuple_rules(ctx, o):
    det = o["cc_details"]
    seen = {"construct": 0, "convert": 0, "destroy": 0}
    for s in det:
        for what, pat in (("construct", r"construct_at \( reinterpret_cast < (\w+) \* > \( storage_ \+ #(\S+) \) , (?:: : )?(?:std :: )?move \( (?:std :: )?get < #(\S+) > \( tuple \) \) \) ;"), ("convert", r"(?:std :: )?move \( \* reinterpret_cast < (\w+) \* > \( storage_ \+ #(\S+) \) \)"), ("destroy", r"destroy_at \( reinterpret_cast < (\w+) \* > \( storage_ \+ #(\S+) \) \) ;")):
            ms = [m for m in re.finditer(pat, s)]
            if not ms: continue
            ctx.obligation(1); seen[what] += 1
            for m in ms:
                if m[1] != "ELEM" or m[2] != "off_i" or (m.lastindex > 2 and m[3] != "i"): ctx.violate(f"Tuple:{what}", "Tuple", f"an element is not {what}ed with its own type, offset and position")
            loops = re.findall(r"«([^«»]*)»", s)
            if not any(re.search(pat, l) for l in loops): ctx.violate(f"Tuple:{what}-all", "Tuple", f"not every element is {what}ed")
            if len(ms) != 1 and what != "convert": ctx.violate(f"Tuple:{what}-once", "Tuple", f"an element is {what}ed more than once")
            if any("∅" in l for l in loops): ctx.violate(f"Tuple:{what}-all", "Tuple", "some elements are left out")
        rest = re.sub(r"#(off_i|i)\b", "", s)
        if re.search(r"storage_ \+ #", rest): ctx.violate("Tuple:offset", "Tuple", "the storage of a tuple is accessed at something other than the offset of an element")
    for k, n in seen.items():
        if not n: ctx.violate(f"Tuple:{k}", "Tuple", f"no element is {k}ed")
def parse_rules(ctx, F):
    """which type, layout and tag a specialisation is generated from"""
    fn = one(F, "generate_template_specialization::parse_rs_std_template_specialization")
    for B in ("Option", "Result", "Vec", None):
        def o(t):
            if t.op == "disc":
                s = show(t.a[0])
                if t.a[0].op == "call" and last(t.a[0].a[0]) == "variants": return frozenset({"Multiple"})
                if t.a[0].op == "call" and last(t.a[0].a[0]) == "kind": return frozenset({"Adt" if B else "Tuple"})
            if t.op == "call":
                n = last(t.a[0])
                if n == "new" and "BridgedBuiltin" in t.a[0]: return some(T("agg", "BridgedBuiltin::" + B, ())) if B else None
                if n == "any": return FALSEc
            return None
        A = AI(F, oracle=o, opaque=lambda f: last(f) in CUTS or last(f) in ("parse_unit_in_specialization", "get_layout", "try_from_ty", "forward_declare_type", "replace_all_regions_with_static", "should_receive_bindings"), depth=22, alias=lambda f: None)
        r = A.run(fn); what = B or "Tuple"
        aggs = {x for x in subterms(r) if x.op == "agg" and x.a[0].endswith("RsStdTemplateSpecialization")}
        if not aggs: raise Broken(f"no specialization of {what} is produced")
        for x in aggs:
            g = dict(zip(x.a[1], x.a[2:])); self_, lay, args = g.get("self_ty_rs"), g.get("layout"), g.get("args")
            if None in (self_, lay, args): raise Broken("RsStdTemplateSpecialization: fields")
            ctx.obligation(1)
            ls = [y for y in subterms(lay) if y.op == "call" and last(y.a[0]) == "get_layout"]
            if len(ls) != 1 or ls[0].a[-1] is not self_: ctx.violate(f"{what}:layout-of", what, "the layout a specialization is generated from is not the layout of its type")
            if any(y.op == "index" or (y.op == "call" and last(y.a[0]) == "type_at") for y in subterms(self_)): ctx.violate(f"{what}:self", what, "a specialization is generated for another type")
            for y in subterms(args):
                if y.op == "agg" and "EnumSpecialization" in y.a[0] or y.op == "agg" and y.a[0].endswith("::Vec"):
                    for n, v in zip(y.a[1], y.a[2:]):
                        want = {"some_ty": 0, "ok_ty": 0, "err_ty": 1, "0": 0}.get(n)
                        if n == "0" and not y.a[0].endswith("::Vec") or want is None: continue
                        ctx.obligation(1)
                        got = {z.a[-1].a[0] for z in subterms(v) if z.op == "call" and last(z.a[0]) == "type_at" and z.a[-1].op == "const"}
                        if got != {want}: ctx.violate(f"{what}:{n}", what, f"the type of the payload of {what} is not its type argument {want}")
                if y.op == "agg" and "tag_type_rs" in y.a[1]:
                    d = dict(zip(y.a[1], y.a[2:])); ctx.obligation(1)
                    t = d["tag_type_rs"]
                    if not any(z.op == "field" and z.a[1] == "tag" and lay in set(subterms(z)) for z in subterms(t)): ctx.violate(f"{what}:tag-type", what, "the tag's type is not that of the tag in the type's layout")
                    c = [z for z in subterms(d["tag_type_cc"]) if z.op == "call" and last(z.a[0]) == "format_ty_for_cc"]
                    if len(c) != 1 or t not in c[0].a: ctx.violate(f"{what}:tag-type", what, "the tag's C++ type is not that of its Rust type")
def some_payloads(A, t):
    """the values a loop-carried Option can hold"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "mu" and x in A.mu:
            init, steps = A.mu[x]; todo += [y for y in (init, *steps) if y is not None]
        elif x.op == "alt": todo += list(x.a)
        elif x.op == "agg" and vname(x.a[0]) == "Some": out.add(x.a[2])
        elif x.op == "field" and x.a[0].op == "var": todo.append(x.a[0].a[0])
    return out
def vec_offsets(ctx, F, Q):
    """the offsets of a Vec's pointer and length"""
    def offset_of(t, layout_ok):
        """the list whose element's offset t is"""
        if t.op == "call" and last(t.a[0]) in ("bytes", "into"): return offset_of(t.a[1], layout_ok)
        if t.op == "call" and last(t.a[0]) == "offset" and t.a[2].op == "index" and t.a[1].op == "call" and last(t.a[1].a[0]) == "fields" and layout_ok(t.a[1]): return t.a[2].a[0]
        return None
    def elems(t): return {x.a[0] for x in subterms(t) if x.op == "elem"}
    fn = one(F, "::compute_vec_layout_offsets"); w = "Vec"
    for K, U in (("Uint", "Usize"), ("Uint", "U64"), ("Adt", None), ("Ptr", None)):
        def o(t):
            if t.op == "disc":
                x = t.a[0]
                if x.op == "call" and last(x.a[0]) == "kind": return frozenset({"Adt" if "elem" not in show(x) else K})
                if "@Uint.0" in show(x): return frozenset({U})
                if x.op == "call" and last(x.a[0]) == "find_pointer_field_offset": return frozenset({"Some" if K == "Adt" else "None"})
            return None
        A = AI(F, oracle=o, opaque=lambda f: last(f) in ("find_pointer_field_offset", "normalize_ty"), depth=22, alias=Q); A.lenient = True
        for r in alts(A.run(fn)):
            if r.op != "agg": raise Broken("compute_vec_layout_offsets")
            g = dict(zip(r.a[1], r.a[2:]))
            for n, when in (("len_offset", K == "Uint" and U == "Usize"), ("ptr_offset", K == "Adt")):
                ctx.obligation(1); v = g.get(n)
                if v is None: raise Broken("compute_vec_layout_offsets: " + n)
                vals = some_payloads(A, v)
                if bool(vals) != when: ctx.violate(f"Vec:{n}", w, f"{n} is taken from a field that is not the {'length' if n[0] == 'l' else 'pointer'}" if vals else f"{n} is not taken from the {'length' if n[0] == 'l' else 'pointer'} field"); continue
                for x in vals:
                    if n == "ptr_offset":
                        parts = [x.a[1], x.a[2]] if x.op == "bin" and x.a[0].startswith("Add") else []
                        base = [p for p in parts if p.op == "call" and last(p.a[0]) in ("bytes", "offset")]
                        nest = [y for p in parts for y in subterms(p) if y.op == "call" and last(y.a[0]) == "find_pointer_field_offset"]
                        if len(base) != 1 or len(nest) != 1 or (l := offset_of(base[0], lambda z: "layout" in show(z))) is None or l not in elems(nest[0]): ctx.violate("Vec:ptr_offset", w, "the offset of a Vec's pointer is not that of its field plus that inside the field")
                    elif offset_of(x, lambda z: "layout" in show(z)) is None: ctx.violate("Vec:len_offset", w, "the offset of a Vec's length is not that of the field")
    fn = one(F, "::find_pointer_field_offset_impl")
    off = lambda t: t.op == "arg" and t.a[0] == 3 or show(t).startswith("$3")
    for K in ("RawPtr", "Pat", "Adt"):
        def o(t):
            if t.op == "disc":
                x = t.a[0]
                if x.op == "call" and last(x.a[0]) == "kind": return frozenset({K})
                if x.op == "call" and last(x.a[0]).startswith("find_pointer"): return frozenset({"Some"})
            if t.op == "call" and last(t.a[0]) == "is_enum": return FALSEc
            return None
        A = AI(F, oracle=o, opaque=lambda f: last(f) in ("normalize_ty", "get_layout"), depth=22, alias=Q, rec=1)
        r = A.run(fn); ctx.obligation(1)
        calls = [e for e in A.events if e.fn and last(e.fn) == last(fn)]
        if K == "RawPtr":
            if not all(x.op == "agg" and vname(x.a[0]) == "Some" and off(x.a[2]) for x in alts(r)): ctx.violate("Vec:nested:RawPtr", w, "the offset of a raw pointer is not the offset it is found at")
            continue
        if not calls: ctx.violate(f"Vec:nested:{K}", w, f"a pointer inside a {K} is not found"); continue
        for e in calls:
            o3 = e.args[2]
            if K == "Pat":
                if not off(o3): ctx.violate("Vec:nested:Pat", w, "the offset of a pointer inside a pattern type is wrong")
                continue
            ok_ = o3.op == "bin" and o3.a[0].startswith("Add")
            if ok_:
                p = [x for x in o3.a[1:] if not off(x)]
                l = offset_of(p[0], lambda z: any(y.op == "call" and last(y.a[0]) == "get_layout" and show(y.a[-1]).startswith("$2") for y in subterms(z))) if len(p) == 1 else None
                ok_ = l is not None and l in elems(e.args[1])
            if not ok_: ctx.violate("Vec:nested:Adt", w, "the offset of a pointer in a nested field is not the sum of the offsets on the way to it")
def cells():
    for e in ("Little", "Big"):
        for k in ("Option", "Result"):
            yield "Enum", k, "Direct", 0, e
            yield "Enum", k, "Niche", 5, e
        yield "Enum", "Result", "Niche", 6, e
    yield "Tuple", None, None, 0, "Little"
    yield "Vec", None, None, 0, "Little"
def run(ctx):
    F = ctx.facts(); Q = Queries(F)
    H = index_helpers(F, Q)
    roles = {}
    for fn, per in H.items():
        for n, lis in per.items():
            ctx.obligation(1)
            if len(lis) != 1: ctx.violate(f"variant-index:{n}", last(fn), f"{n} may be the index of several variants: {', '.join(sorted(lis))}")
            elif roles.setdefault(n, min(lis)) != min(lis): raise Broken(f"variant-index field {n} is ambiguous")
    floor(ctx, "variant-index fields", len(roles), 4)
    for (args, kind, enc, u, order), (o, partial) in parallel(lambda c: (c, emit_all(F, Q, Std(*c, roles), H)), list(cells())):
        what = (kind or args) + (f" ({enc}{'' if enc == 'Direct' or kind == 'Option' else ', untagged ' + ('Ok' if u == 5 else 'Err')})" if enc else "")
        if not o["main_api"] or not o["cc_details"]: raise Broken(f"nothing emitted for {what}")
        for fn, ad in partial: ctx.violate(f"{what}:{ad}", what, f"{last(fn)} leaves elements out ({ad})")
        shape_rules(ctx, what, o)
        if args == "Tuple": tuple_rules(ctx, o)
        else: ir_rules(ctx, what if order == "Little" else what + " on a big-endian target", args, kind, enc, u, o, ("layout",))
    parse_rules(ctx, F); vec_offsets(ctx, F, Q)
    ctx.count("layout cells", sum(1 for _ in cells()))
