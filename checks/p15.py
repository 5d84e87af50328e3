"""The generators of class bodies (generate_fields for structs, unions, repr(C) and opaque enums, generate_adt around it, and the rs_std specialisations) are interpreted abstractly on the compiler's MIR. Sizes, offsets and visibility of the field at hand are enumerated; every literal in the emitted tokens is named by the layout quantity it is computed from. The emitted members and layout assertions are compared with that layout."""
from core import *
from thunks import *
from emit import *
import importlib.util
_s = importlib.util.spec_from_file_location("p16", os.path.join(os.path.dirname(os.path.abspath(__file__)), "p16.py")); p16 = importlib.util.module_from_spec(_s); _s.loader.exec_module(p16)
CUTS, clean, tok = p16.CUTS, p16.clean, p16.tok
RULE = "every generated class asserts its size, alignment and the offset of every non-empty field (C++) and of every public field (Rust) with the numbers of rustc's layout, places each field with its own type or as bytes of its own size, and never widens a field's visibility"
LEVEL = "other"
OPAQUE15 = ("generate_doc_comment", "generate_deprecated_tag", "repr_attrs", "format_cc_ident", "anonymous_field_ident", "get_tag_size_with_padding", "scalar_value_to_string", "field_def_is_pub_and_stable", "is_bridged_type", "get_layout", "unkeyword_cpp_ident", "expect_format_cc_ident")
def nm(t, d=0):
    """short structural name of a number: the layout quantity it is"""
    if d > 8: return "?"
    if t.op in ("mark", "tok"): return str(t.a[0])
    if t.op == "const": return str(t.a[0])
    if t.op == "arg": return str(t.a[1])
    if t.op == "field" and not str(t.a[1]).isdigit(): return str(t.a[1])
    if t.op in ("field", "var", "skipped"): return nm(t.a[0], d + 1)
    if t.op == "alt": return "|".join(sorted({nm(x, d + 1) for x in t.a}))
    if t.op == "bin": return f"({nm(t.a[1], d + 1)}{ {'Sub': '-', 'Add': '+', 'Mul': '*'}.get(t.a[0], t.a[0]) }{nm(t.a[2], d + 1)})"
    if t.op == "call": return last(t.a[0]) + "(" + ",".join(nm(x, d + 1) for x in t.a[1:] if isinstance(x, T))[:80] + ")"
    if t.op == "elem": return "elem(" + nm(t.a[0], d + 1) + ")"
    return t.op

SIZE, ALIGN, TAG, VSIZE, VALIGN = 101, 103, 3, 107, 109
def owner(t):
    """which of two consecutive fields a term is about"""
    return 1 if "elem2(" in show(t) else 0
class Layout:
    """the layout at hand: two consecutive fields fs[0], fs[1] (dicts ok public size offset next pad); everything else stays symbolic"""
    def __init__(self, kind, ek, fs, reprc, vsize=VSIZE): self.kind, self.ek, self.fs, self.reprc, self.vsize = kind, ek, fs, reprc, vsize
    def num(self, t):
        if t.op == "const" and isinstance(t.a[0], int): return t.a[0]
        if t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul"):
            a, b = self.num(t.a[1]), self.num(t.a[2])
            if a is None or b is None: return None
            return {"Add": a + b, "Sub": a - b, "Mul": a * b}[t.a[0]]
        n = nm(t)
        if n in ("size_in_bytes", "alignment_in_bytes") : return SIZE if n[0] == "s" else ALIGN
        if "get_tag_size_with_padding" in n: return TAG
        if "LAYOUT_SIZE" in n: return SIZE
        if "LAYOUT_ALIGN" in n: return ALIGN
        return None
    def __call__(self, t):
        if t.op == "field":
            n, base = t.a[1], t.a[0]
            if n in ("is_public", "type_info", "cpp_type", "offset", "offset_of_next_field", "cc_name", "rs_name", "size"):
                f = self.fs[owner(base)]; k = str(owner(base) + 1); b = show(base)
                if n == "is_public": return boolc(f["public"])
                if n == "offset": return T("const", f["offset"], "int")
                if n == "offset_of_next_field": return T("const", f["next"], "int")
                if n in ("cc_name", "rs_name"): return tok(n + k)
                if n == "cpp_type": return snippet(T("tok", "TYPE" + k))
                if n == "size" and "type_info" in b: return T("const", f["size"], "int")
                if n == "size" and "variant_fields" in b or n == "size" and "fields" in b: return T("const", self.vsize, "int")
            return None
        if t.op == "disc":
            x = t.a[0]
            if x.op == "field" and x.a[1] == "type_info": return frozenset({"Ok" if self.fs[owner(x)]["ok"] else "Err"})
            return None
        if t.op in ("bin", "eq"):
            k, x, y = t.a if t.op == "bin" else ("Eq", *t.a)
            if k not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return None
            a, b = self.num(x), self.num(y)
            if a is None or b is None: return None
            return boolc({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[k])
        if t.op != "call": return None
        n = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
        if n == "adt_kind": return T("agg", "ty::AdtKind::" + self.kind, ())
        if n == "get_enum_kind": return some(T("agg", "EnumKind::" + self.ek, ())) if self.ek else NONE
        if n.endswith("_unsuffixed"):
            v = self.num(A[0])
            return T("tok", "#" + (nm(A[0]) if v is None else str(v)))
        if n == "contains" and A and "repr_attrs" in show(A[0]): return boolc(self.reprc)
        if n == "is_empty" and A and re.search(r"variant_fields|fields\b|variants\b", show(A[0])): return FALSEc
        if n == "kythe_annotations": return FALSEc
        if n == "generate_deprecated_tag": return NONE
        if n == "format_ty_for_cc": return ok(snippet(T("tok", "TAG_T")))
        return None
SELF = dict(drop=False, copy=True, clone=True, default=False, unpin=True)
class Both:
    def __init__(self, *os): self.os = os
    def __call__(self, t):
        for o in self.os:
            r = o(t)
            if r is not None: return r
def interpret(F, Q, lay, twice=False):
    fields = lambda f: f in F.bodies and F.bodies[f].ty(0).startswith("std::vec::Vec<std::vec::Vec<")
    ops = set(OPAQUE15) | set(p16.OPAQUE16) - {"generate_fields"}
    A = AI(F, oracle=Both(lay, p16.Traits(SELF, True)), opaque=lambda f: last(f) in CUTS or last(f) in ops or fields(f) or "arc_anyhow" in f or "error_report" in f, depth=22, alias=Q)
    A.optional, A.twice = True, twice
    r = A.run(one(F, "::generate_adt", "generate_bindings"))
    out = {k: set() for k in SLOTS}
    for key, ss in emitted(A, r, spell=("main_api",)).items():
        for s in ss if isinstance(ss, list) else ():
            for k in SLOTS: out[k] |= {clean(x) for x in s.get(k, ())}
    return out, A.partial
def items_of(s, name):
    """(member, access) pairs of the class body that follows the last special member; member = field | blob | padding | other"""
    toks = re.sub(r"\s+", " ", s).split(" ")
    out, acc, depth = [], "public", 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in ("public", "private") and i + 1 < len(toks) and toks[i + 1] == ":" and depth == 0: acc = t
        if t == "{": depth += 1
        if t == "}": depth -= 1
        out.append((t, acc, depth)); i += 1
    return out
ASSERT = re.compile(r"static_assert \( (?:#(\S+) == offsetof \( ([^()]*?) , ([^(),]*?) \)|offsetof \( ([^()]*?) , ([^(),]*?) \) == #(\S+)) ")
def cc_asserts(s):
    """[(class, member, value)] outside of and inside loops; `∅` marks a loop that may assert nothing for some element"""
    out = []
    for m in ASSERT.finditer(s):
        out.append((m[2], m[3], m[1]) if m[1] else (m[4], m[5], m[6]))
    return out
def skips(s, pat):
    """does an element of the loop that contains pat go without it?"""
    for m in re.finditer(r"«([^«»]*)»", s):
        if pat in m[1] and any(pat not in a for a in m[1].split("¦")): return True
    return False
RSA = re.compile(r"offset_of ! \( ([^()]*?) , ([^(),]*?) \)(?: == #(\S+))?")
def rs_asserts(s):
    out = []
    for m in re.finditer(r"assert ! \( ([^;]*?) \) ;", s):
        o = re.search(r"offset_of ! \( (.*?) , ([^(),]*?) \)", m[1]); v = re.findall(r"#(\S+)", m[1])
        if o: out.append((o[2], v[0] if len(v) == 1 else "?", "==" in m[1]))
    return out
def fld(ok=True, public=True, size=4, offset=8, pad=7):
    return dict(ok=ok, public=public, size=size if ok else size + pad, offset=offset, next=offset + size + pad)
def tag(f): return ("supported" if f["ok"] else "unsupported") + " " + ("public" if f["public"] else "private") + (" zero-sized" if f["next"] == f["offset"] else "")
def class_rules(ctx, what, o):
    """the assertions about the class as a whole"""
    cc, rs = sorted(o["cc_details"]), sorted(o["rs_details"])
    for k, xs, pats in (("cc_details", cc, ((r"static_assert \( sizeof \( [^()]* \) == #%d " % SIZE, "sizeof"), (r"static_assert \( alignof \( [^()]* \) == #%d " % ALIGN, "alignof"))),
                        ("rs_details", rs, ((r"assert ! \( [^;]*size_of :: < [^;]* > \( \) == #%d \) ;" % SIZE, "size_of"), (r"assert ! \( [^;]*align_of :: < [^;]* > \( \) == #%d \) ;" % ALIGN, "align_of")))):
        ctx.obligation(1)
        for p, w in pats:
            if not xs or not all(re.search(p, re.sub(r"« [^»]* »", " ", x)) for x in xs): ctx.violate(f"{what}:{w}", what, f"the {k} of a {what} do not assert {w} with the number of rustc's layout")
    ctx.obligation(1)
    if not any(re.search(r"alignas \( #%d \)" % ALIGN, x) for x in o["main_api"]): ctx.violate(f"{what}:alignas", what, f"the C++ class of a {what} is not aligned as the Rust type is")
def assert_rules(ctx, what, ek, f, o, reprc):
    """offset assertions for one field"""
    key = f"{what}:{tag(f)}"
    omitted = f["next"] == f["offset"]
    for x in o["cc_details"] or ("",):
        got = [(m, v) for _, m, v in cc_asserts(x) if m == "cc_name1"]
        ctx.obligation(1)
        want = not omitted and (ek != "ReprC" or f["ok"])
        if omitted and got: ctx.violate(key + ":offsetof", what, f"the C++ bindings assert the offset of a {tag(f)} field, which has no member")
        elif want and not got: ctx.violate(key + ":offsetof", what, f"no static_assert checks the C++ offset of a {tag(f)} field")
        elif want and skips(x, "cc_name1"): ctx.violate(key + ":offsetof-some", what, f"some {tag(f)} fields get no static_assert of their C++ offset")
        for m, v in got:
            if v != str(f["offset"]): ctx.violate(key + ":offsetof-value", what, f"the C++ offset of a {tag(f)} field is asserted to be something other than its Rust offset")
        if ek == "ReprC":
            ctx.obligation(1)
            tagged = [v for c, m, v in cc_asserts(x.replace("¦", "static_assert ( x ) ; ¦")) if v == str(TAG)]
            if not re.search(r"static_assert \( (#%d == offsetof|offsetof \( [^()]* \) == #%d )" % (TAG, TAG), x): ctx.violate(f"{what}:payload", what, "no static_assert checks where the payload of a repr(C) enum starts")
    for x in o["rs_details"] or ("",):
        got = rs_asserts(x)
        if ek == "ReprC": continue
        ctx.obligation(1)
        if f["public"] and not got: ctx.violate(key + ":offset_of", what, f"the Rust half does not assert the offset of a {tag(f)} field")
        elif not f["public"] and got: ctx.violate(key + ":offset_of", what, f"the Rust half names a {tag(f)} field, which it cannot access")
        for n, v, e in got:
            if v != str(f["offset"]) or not e: ctx.violate(key + ":offset_of-value", what, f"the Rust half asserts a wrong offset for a {tag(f)} field")
        if skips(x, "rs_name1"): ctx.violate(key + ":offset_of-some", what, f"some {tag(f)} fields get no assertion of their Rust offset")
def members(ctx, what, fs, x, reprc, pads):
    """the members of two consecutive fields in the class body x"""
    m = re.search(r".*UnsafeRelocateTag[^;]*;(.*)", x)
    body = m[1] if m else x
    seq = items_of(body.replace("«", " ").replace("»", " "), None)
    text_ = " ".join(t for t, _, _ in seq)
    pos = 0
    for k, f in enumerate(fs):
        n, t = f"cc_name{k + 1}", f"TYPE{k + 1}"
        key = f"{what}:{tag(f)}"
        ctx.obligation(1)
        at = [i for i, (w, _, d) in enumerate(seq) if w == n]
        if f["next"] == f["offset"]:
            if at: ctx.violate(key + ":member", what, f"a {tag(f)} field takes up space in the C++ class")
            continue
        if len(at) != 1: ctx.violate(key + ":member", what, f"a {tag(f)} field has {len(at)} members in the C++ class"); continue
        i = at[0]; acc = seq[i][1]
        w = [y for y, _, _ in seq]
        blob = re.search(r":: std :: array < unsigned char , #(\S+) > $", " ".join(w[max(0, i - 12):i]) + " ")
        if f["ok"]:
            typed = w[i - 1] == t or (w[i - 1] == "}" and re.search(r"struct \{ (?:(?!\}).)*%s value ; \} $" % t, " ".join(w[max(0, i - 14):i]) + " "))
            if not typed: ctx.violate(key + ":type", what, f"a {tag(f)} field is not a member of its own C++ type")
            if not f["public"] and acc != "private": ctx.violate(key + ":access", what, f"a private field is public in the C++ class")
            if f["public"] and acc != "public": ctx.violate(key + ":access", what, f"a public field is private in the C++ class")
        else:
            if not blob: ctx.violate(key + ":type", what, f"a {tag(f)} field is not replaced by bytes"); continue
            if blob[1] != str(f["next"] - f["offset"]): ctx.violate(key + ":bytes", what, f"a {tag(f)} field is replaced by a number of bytes other than its own")
            if acc != "private": ctx.violate(key + ":access", what, f"the bytes of a {tag(f)} field are public")
        if what != "struct": continue
        pad = f["next"] - f["offset"] - f["size"] if f["ok"] else 0
        nxt = seq[i:][: next((j for j, z in enumerate(w[i + 1:]) if z.startswith("cc_name")), len(w)) + 1]
        ps = re.findall(r"unsigned char \S+ \[ #(\S+) \]", " ".join(z for z, _, _ in nxt))
        if pad and pads and ps != [str(pad)]: ctx.violate(key + ":padding", what, f"the bytes between a {tag(f)} field and the next are not filled with as many bytes")
        if not pad and ps: ctx.violate(key + ":padding", what, f"padding follows a {tag(f)} field that the next one follows directly")
        if ps and [a for z, a, _ in nxt if z == "unsigned"][:1] == ["public"]: ctx.violate(key + ":padding-access", what, "padding is public")
KINDS = (("Struct", None, "struct"), ("Union", None, "union"), ("Enum", "OpaqueBlobOfBytes", "opaque enum"), ("Enum", "ReprC", "repr(C) enum"))
def cells():
    B = (True, False)
    for kind, ek, what in KINDS:
        u = dict(offset=0, pad=SIZE - 4) if kind == "Union" else {}
        for reprc in B if ek is None else (False,):
            for ok_ in B:
                if ek == "OpaqueBlobOfBytes" and ok_: continue
                for pub in B if ek != "ReprC" else (True,):
                    yield kind, ek, what, reprc, [fld(ok_, pub, **u)] * 2, False
            yield kind, ek, what, reprc, [fld(False, True, size=0, pad=0, **({"offset": 0} if u else {}))] * 2, False
        if ek == "ReprC": continue
        if ek == "OpaqueBlobOfBytes": yield kind, ek, what, False, [fld(False, False)] * 2, "one"; continue
        for reprc in B:
            one_ = [fld(a, b, size=4, offset=u.get("offset", 8), pad=p) for a in B for b in B for p in ((u["pad"],) if u else (7, 0) if a else (7,))]
            two_ = [fld(a, b, size=5, offset=u.get("offset", 32), pad=p) for a in B for b in B for p in ((u["pad"] - 1,) if u else (12, 0) if a else (12,))]
            for f in one_:
                for g in two_: yield kind, ek, what, reprc, [f, g], True
def run(ctx):
    F = ctx.facts(); Q = Queries(F)
    def job(c):
        kind, ek, what, reprc, fs, tw = c
        return c, interpret(F, Q, Layout(kind, ek, fs, reprc), tw is True)
    seen = set()
    for (kind, ek, what, reprc, fs, tw), (o, partial) in parallel(job, list(cells())):
        w = what if ek or not reprc else f"repr(C) {what}"
        if not o["main_api"] or not o["cc_details"] or not o["rs_details"]: raise Broken(f"nothing emitted for a {w}")
        for fn, ad in partial: ctx.violate(f"{w}:{ad}", w, f"{last(fn)} leaves fields of a {w} out of a sequence ({ad})")
        if not tw:
            class_rules(ctx, w, o); assert_rules(ctx, w, ek, fs[0], o, reprc)
        else:
            for x in o["main_api"]: members(ctx, what, fs if tw is True else fs[:1], x, reprc, not (reprc and all(f["ok"] for f in fs)))
        seen.add(w)
    floor(ctx, "kinds of classes", len(seen), 6)
    ctx.count("layout cells", sum(1 for _ in cells()))
