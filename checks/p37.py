"""Field visibility. `field_def_is_pub_and_stable` and the constructor of the field record are interpreted abstractly on MIR for every visibility and stability; every function that emits a data member is interpreted for every value of the record's visibility, its type supported or not, and every access the C++ class body can be in; the access specifiers in the text it may return are replayed and must leave the member, the blob and the padding under the required access, and must agree with the state the next call starts from. The places that build a C++ constructor or conversion out of fields are interpreted with an inaccessible field."""
from core import *
from gen import *
import gen, itertools, re
from sym import show
from emit import flat, field as fld
import p36
from p36 import World, M, go_, fn, errs, has, vn, opaque
RULE = "a data member is emitted under public access iff its Rust field is public and not unstable; blobs and paddings are private; the tracked access equals the access the emitted text leaves behind; no constructor, conversion or enumerator is made from a member that is not public and stable"
LEVEL = "other"

def visibility(ctx, F):
    P = fn(F, "field_def_is_pub_and_stable")
    class W2(World):
        def about(w, t): return any(y.op == "arg" and y.a[0] == 2 for y in subterms(t))
    for pub, stab in itertools.product((True, False), ("none", "stable", "unstable")):
        A, r = go_(F, P, W2(None, None, public=pub, stab=stab), opaque())
        ctx.obligation(f"field: {'public' if pub else 'private'}, stability {stab}")
        good = pub and stab != "unstable"
        if good and errs(r): ctx.violate(f"field:good:{stab}", P, f"a public field (stability: {stab}) counts as inaccessible")
        if not good and not errs(r): ctx.violate(f"field:{pub}:{stab}", P, f"a {'public but unstable' if pub else 'private'} field counts as public")
def isfield(t): return t.op == "call" and last(t.a[0]) == "field_def_is_pub_and_stable"
def access(bad): return lambda t: (err(M("private")) if bad else ok(T("agg", "tuple", ()))) if isfield(t) else None
def uses(ctx, F):
    n = 0
    for bad in (False, True):
        for p, b in F.bodies.items():
            if "{" in p or "generate_bindings" not in p or not any(re.search(r"\bField<", b.ty(0)) for _ in "1") or b.ty(0).startswith("&"): continue
            A, r = go_(F, p, access(bad), opaque("field_def_is_pub_and_stable", "prepare_field_type"))
            for x in alts(r):
                v = fld(x, "is_public") if x.op == "agg" else None
                if v is None: continue
                n += 1
                ctx.obligation(f"{p}: is_public of a field that is {'not ' if bad else ''}accessible")
                if any(y is not boolc(not bad) for y in alts(v)): ctx.violate(f"record:{last(p)}:{bad}", p, f"the record of a field that is {'not ' if bad else ''}public and stable is marked {'public' if bad else 'private'}")
    floor(ctx, "constructions of a field record", n, 2)
    P = fn(F, "generate_variant_ctor")
    for d, bad, nex in (("an ordinary variant", False, False), ("a private field", True, False), ("a non-exhaustive field list", False, True)):
        def extra(t):
            if t.op == "call" and last(t.a[0]) == "is_field_list_non_exhaustive": return boolc(nex)
            return access(bad)(t)
        A, r = go_(F, P, extra, opaque("field_def_is_pub_and_stable", "generate_thunk_call", "generate_thunk_decl"))
        ctx.obligation(f"constructor from {d}")
        if d == "an ordinary variant":
            if errs(r): raise Broken("generate_variant_ctor always fails")
        elif not errs(r): ctx.violate("variant:" + d.split(" ", 1)[1], P, f"a constructor is generated for a variant with {d}")
    P = fn(F, "is_newtype_relationship")
    for bad in (False, True):
        A, r = go_(F, P, access(bad), opaque("field_def_is_pub_and_stable"))
        ctx.obligation("conversion from and into a newtype's field" + (" that is private" if bad else ""))
        if bad and any(x is not FALSEc for x in alts(r)): ctx.violate("newtype:private", P, "a type with a private field counts as a newtype of that field's type")
        if not bad and all(x is FALSEc for x in alts(r)): raise Broken("is_newtype_relationship never holds")
    P = fn(F, "generate_cpp_enum")
    class W3(World):
        def about(w, t): return any(y.op == "call" and last(y.a[0]) in ("visibility", "lookup_stability") for y in subterms(t))
    for pub, stab in (("pub", "none"), ("pub", "stable"), ("priv", "none"), ("pub", "unstable")):
        w = W3(None, lambda t: frozenset({"Const"}) if t.op == "disc" and t.a[0].op == "field" and t.a[0].a[1] == "kind" else NONE if t.op == "call" and last(t.a[0]) == "trait_impl_of_assoc" else None, public=pub == "pub", stab=stab)
        A, r = go_(F, P, w, opaque())
        got = [e for e in A.events if last(e.fn) == "const_eval_poly"]
        good = pub == "pub" and stab != "unstable"
        ctx.obligation(f"enumerator from a constant: {pub}, stability {stab}")
        if good and not got: raise Broken("generate_cpp_enum emits no enumerators")
        if not good and got: ctx.violate(f"enumerator:{pub}:{stab}", P, f"an enumerator is emitted for a constant that is {'private' if pub == 'priv' else 'unstable'}")

def replay(text, state):
    """[(declarator, access)] for the members declared by a text, and the access it ends with"""
    out, depth = [], 0
    toks = re.findall(r"⟨[^⟩]*⟩|\w+|\S", text)
    for i, t in enumerate(toks):
        if t in "{(": depth += 1
        elif t in "})": depth -= 1
        elif depth == 0 and t in ("public", "private", "protected") and toks[i + 1:i + 2] == [":"]: state = t
        elif t == "⟨cc_name⟩": out.append(("member", state))
        elif t.startswith("⟨__padding") or t.startswith("__padding"): out.append(("padding", state))
    return out, state
def emitters(ctx, F):
    n = 0
    adt = {last(p): a for p, a in F.adts.items() if last(p) in ("Field", "FieldTypeInfo") and "generate_struct" in p}
    names = lambda k: tuple(f[0] for f in adt[k]["variants"][0]["fields"]) if k in adt else ()
    if not names("Field"): raise Broken("no field record")
    for p, b in F.bodies.items():
        tys = [b.ty(i) for i in range(1, b.argc + 1)]
        if "{" in p or "generate_bindings" not in p: continue
        vis = [i for i, t in enumerate(tys) if t.startswith("&mut ") and "VisState" in t]
        fs = [i for i, t in enumerate(tys) if re.search(r"\bField<", t)]
        if len(vis) != 1 or len(fs) != 1 or "CcSnippet" not in b.ty(0): continue
        if any("Error" in t for t in tys): continue      # the fallback, reached through the others
        n += 1; EMIT.append(p)
        for sup, pub, s0 in itertools.product((True, False), (True, False), (True, False)):
            given = {"type_info": ok(T("agg", "FieldTypeInfo::FieldTypeInfo", ("size", "cpp_type"), T("const", 4, "u64"), M("cpp_type"))) if sup else err(M("why")), "cc_name": M("cc_name"), "is_public": boolc(pub), "index": T("const", 0, "usize"), "attributes": T("nil")}
            rec = T("agg", "generate_struct_and_union::Field::Field", names("Field"), *[given.get(k, T("mark", k)) for k in names("Field")])
            A = AI(F, oracle=lambda t: None, opaque=opaque(), depth=12); A.lenient = True
            st, cell = {}, (("root", "visibility"), 99)
            vty = tys[vis[0]].split("::")[-1].rstrip(">")
            st[cell] = T("agg", "generate_struct_and_union::" + vty + "::" + vty, ("is_public",), some(boolc(s0)))
            args = [T("ref", cell, ()) if i == vis[0] else rec if i == fs[0] else T("arg", i + 1, b.name(i + 1) or "") for i in range(b.argc)]
            r = A.deep(A.body(b, args, st, ("root", p)), st)
            name = {True: "public", False: "private"}
            what = f"{'supported' if sup else 'unsupported'} {name[pub]} field, access so far {name[s0]}"
            ctx.obligation(f"{last(p)}: {what}")
            ends = set()
            for x in alts(r):
                tk = fld(x, "tokens") if x.op == "agg" else None
                if tk is None: raise Broken(f"{p}: cannot read the tokens it emits")
                for it in flat(A, tk):
                    for txt in texts(it):
                        got, end = replay(txt, name[s0]); ends.add(end)
                        for kind, acc in got:
                            want = name[pub] if sup and kind == "member" else "private"
                            if acc != want: ctx.violate(f"{last(p)}:{sup}:{pub}:{s0}:{kind}", p, f"{what}: the {kind if sup or kind != 'member' else 'blob'} is declared under {acc} access")
                        if sup and not any(k == "member" for k, _ in got): raise Broken(f"{p}: no member is declared ({txt[:80]})")
            vs = A.proj(st[cell], ".is_public", st) if st[cell].op != "agg" else fld(st[cell], "is_public")
            left = set()
            for x in alts(st[cell]):
                v = fld(x, "is_public") if x.op == "agg" else None
                for y in alts(v) if v is not None else ():
                    z = y.a[2] if vn(y) == "Some" else None
                    for q in alts(z) if z is not None else (): left.add(name[bool(q.a[0])] if q.op == "const" else "?")
                    if vn(y) == "None": left.add("unknown")
            if left - {"unknown"} != ends and left != {"unknown"}: ctx.violate(f"{last(p)}:{sup}:{pub}:{s0}:state", p, f"{what}: the emitted text ends under {sorted(ends)} access, the tracked access is {sorted(left)}")
    floor(ctx, "functions that emit a data member", n, 3)
def trackers(ctx, F):
    """each class body has an access tracker of its own, which starts at the access a class body of the generated headers starts with"""
    n = 0
    emit = lambda f: any(f == p or last(f) == last(p) for p in EMIT)
    for p, b in F.bodies.items():
        if "generate_bindings" not in p or any("VisState" in b.ty(i) for i in range(0, 1)): continue
        for bl in b.blocks:
            t = bl["t"]
            if t["t"] != "call" or not t.get("d") or len(t["d"]) != 1 or "VisState" not in b.ty(t["d"][0]) or b.ty(t["d"][0]).startswith("&"): continue
            n += 1
            ctx.obligation(f"{p}: access tracker")
            made = t["f"].get("rs") or t["f"].get("fn")
            r = AI(F, oracle=lambda t: None, opaque=lambda f: False, depth=6).run(made) if made in F.bodies else None
            v = fld(r, "is_public") if r is not None and r.op == "agg" else None
            if v is not None and vn(v) == "Some" and v.a[2].op == "const" and not v.a[2].a[0]:
                ctx.violate(f"tracker:start:{last(p)}", b.where(t["ln"]), "a class body starts under public access, its tracker starts as private: a blob or private member that comes first would be public")
            for q, c in F.bodies.items():
                if q.startswith(p + "::{closure") and q[len(p):].count("{closure") > 1 and any(x["t"]["t"] == "call" and emit(x["t"]["f"].get("rs") or x["t"]["f"].get("fn") or "") for x in c.blocks):
                    ctx.violate(f"tracker:shared:{last(p)}", b.where(t["ln"]), "one access tracker is shared by several class bodies: a body that follows one ending under private access gets no `private:` of its own")
    floor(ctx, "access trackers", n, 3)
EMIT = []
def run(ctx):
    F = ctx.facts()
    broken = []
    for part in (visibility, uses, emitters, trackers):
        try: part(ctx, F)
        except Broken as e: broken.append(f"{part.__name__}: {e}")
    if broken: raise Broken("; ".join(broken))
