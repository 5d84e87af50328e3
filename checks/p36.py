"""The functions that decide what is exposed are interpreted abstractly on the compiler's MIR (calls into rustc uninterpreted) under every valuation of a small vocabulary of facts about the item: visibility, name, resolution, stability, the crubit attributes, the outcome of generating it, the granted features. A valuation under which the item must not be exposed may reach no insertion into the path map, no module enqueue and no `generate_item`; one under which it must be may reach no exit without them; an error must reach the unsupported-item report, and, with must_bind, the fatal-error sink, after which no output file is written."""
from core import *
from gen import *
import gen, itertools, names
from sym import show
RULE = "a definition's path is recorded and its module traversed iff it is public, nameable, a definition (not foreign, not a constructor) and not unstable; generate_item runs iff the item is not do_not_bind, not from an ignored file, canonical here; its error is reported as unsupported, and fatally iff must_bind; nothing with an ungranted feature survives; fatal errors imply Err before any write_file"
LEVEL = "other"
ROOT = "cc_bindings_from_rs_generate_bindings::"
M = lambda n: T("mark", n)
def has(t, m): return isinstance(t, T) and any(x is m for x in subterms(t))
def vn(x): return x.a[0].rsplit("::", 1)[-1] if x.op == "agg" else None
KINDS = ["Struct", "Enum", "Union", "Fn", "Const", "Trait", "TyAlias", "Mod"]

class World:
    """what is true of one item; the oracle of the interpreter"""
    def __init__(w, subject, extra=None, **f):
        w.s, w.extra = subject, extra
        w.f = dict(public=True, under=False, res="Def", kind="Struct", foreign=False, stab="none", attrs={}, **{}); w.f.update(f)
        w.asked = set()
    def about(w, t): return has(t, w.s)
    def eq(w, a, b):
        f = w.f
        for x, y in ((a, b), (b, a)):
            v = vn(y)
            if v == "Public" or v == "Restricted":
                if w.isvis(x): w.asked.add("vis"); return (v == "Public") == f["public"] if v == "Public" or f["public"] else None
            if v == "ForeignMod" and w.about(x): w.asked.add("foreign"); return f["foreign"]
            if v is not None and w.iskind(x): w.asked.add("kind"); return v == f["kind"]
            s = show(y)
            if s.startswith("rustc_span::Symbol#_") or s in ("'_'", '"_"'):
                if w.about(x): w.asked.add("name"); return f["under"]
            if y.op == "const" and isinstance(y.a[0], str) and y.a[0] in ("std", "core", "os"): return False
        return None
    def isvis(w, x):
        x = strip(x)
        return w.about(x) and (x.op == "field" and x.a[1] == "vis" or x.op == "call" and last(x.a[0]) in ("visibility", "local_visibility", "effective_visibility", "expect_local"))
    def iskind(w, x): return w.about(x) and (x.op == "field" and "res" in show(x) and show(x).endswith("@Def.0") or x.op == "call" and last(x.a[0]) == "def_kind")
    def isstab(w, x): return w.about(x) and any(y.op == "call" and "stability" in last(y.a[0]) for y in subterms(x))
    def __call__(w, t):
        f = w.f
        if w.extra:
            r = w.extra(t)
            if r is not None: return r
        if t.op == "disc":
            x = strip(t.a[0])
            if w.isvis(x): w.asked.add("vis"); return frozenset({"Public" if f["public"] else "Restricted"})
            if w.iskind(x): w.asked.add("kind"); return frozenset({f["kind"]})
            if w.about(x) and x.op == "field" and x.a[1] == "res": w.asked.add("res"); return frozenset({f["res"]})
            if x.op == "field" and x.a[1] == "level" and w.isstab(x): w.asked.add("stab"); return frozenset({"Unstable" if f["stab"] == "unstable" else "Stable"})
            if x.op == "field" and x.a[1] == "data" and w.about(x) and any(y.op == "call" and last(y.a[0]) == "def_path" for y in subterms(x)): w.asked.add("foreign"); return frozenset({"ForeignMod" if f["foreign"] else "TypeNs"})
            return None
        if t.op == "field" and t.a[0].op == "mark" and t.a[0].a[0] == "attrs":
            v = f["attrs"].get(t.a[1])
            if v is not None: w.asked.add(t.a[1]); return boolc(v)
            return None
        if t.op in ("eq", "ne"):
            r = w.eq(*t.a[:2])
            return None if r is None else boolc(r == (t.op == "eq"))
        if t.op != "call": return None
        n = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
        if n in ("eq", "ne") and len(A) == 2:
            r = w.eq(*A)
            return None if r is None else boolc(r == (n == "eq"))
        if n == "any" and f["foreign"] and len(A) == 2 and A[1] is TRUEc and any(y.op == "call" and last(y.a[0]) == "def_path" for y in subterms(A[0])): return TRUEc
        if n == "contains" and f["stab"] == "stable" and any(y.op == "mark" and y.a[0] == "stability" for y in subterms(t)): return FALSEc      # not one of the name-clashing SIMD features
        if n == "is_public" and w.isvis(A[0]): w.asked.add("vis"); return boolc(f["public"])
        if n in ("lookup_stability", "lookup_const_stability") and w.about(t): w.asked.add("stab"); return NONE if f["stab"] == "none" else some(T("mark", "stability", t))
        if n in ("is_unstable", "is_stable") and any(y.op == "mark" and y.a[0] == "stability" for y in subterms(A[0])): w.asked.add("stab"); return boolc((f["stab"] == "unstable") == (n == "is_unstable"))
        if n == "get_attrs" and w.about(t):
            return ok(T("mark", "attrs"))
        return None


QOPEN = ("symbol_canonical_name", "source_crate_num", "generate_item", "generate_function", "public_paths_by_def_id", "adt_needs_bindings", "repr_attrs", "crate_features", "errors", "fatal_errors", "symbol_unqualified_name")
OPQ = ("get_attrs", "normalize_ty", "generate_unsupported_def", "report_must_bind_error", "generate_adt", "generate_type_alias", "generate_const", "generate_trait", "resolve_feature_requirements", "create_type_alias_with_rs_type", "item_name_for_error_report", "generate_item_impl", "module_children", "unsupported_def_error_message", "generate_function")
def opaque(*more, but=()):
    names = (set(OPQ) | set(more)) - set(but)
    return lambda f: last(f) in names or "BindingsGenerator" in f
def fn(F, name):
    c = [p for p in F.bodies if last(p) == name and "{" not in p and "BindingsGenerator" not in p]
    if len(c) != 1: raise Broken(f"{name}: {len(c)} candidates")
    return c[0]
def go_(F, path, w, op, **k):
    A = AI(F, oracle=w, opaque=op, depth=12); A.lenient = True
    for a, b in k.items(): setattr(A, a, b)
    return A, A.run(path)

# ------------------------------------------------------------------ which paths exist
def paths(ctx, F):
    P = fn(F, "public_paths_by_def_id")
    child = T("elem", M("children"))
    def extra(t):
        if t.op != "call": return None
        n = last(t.a[0])
        if n == "module_children" and "TyCtxt" not in t.a[0]: return M("children")
        if n == "mod_def_id": return some(M("mod")) if W.f["kind"] in ("Mod", "Enum", "Trait") else NONE
        if n == "first": return NONE
        if n == "insert" and "HashSet" in t.a[0]: return TRUEc
        if n == "local_def_id" or n == "as_local": return None
        return None
    def go(**f):
        nonlocal W
        W = World(M("children"), extra, **f)
        A, r = go_(F, P, W, opaque())
        rec = [e for e in A.events if exposing(e)]
        queue = [e for e in A.events if last(e.fn) in ("push_back", "push_front", "push", "extend", "append", "insert") and "Deque" in e.fn and has_child(e.args[1:])]
        return A, r, rec, queue
    W = None
    has_child = lambda args: any(has(a, M("children")) for a in args)
    def exposing(e):
        n = last(e.fn)
        if "HashSet" in e.fn or not has_child(e.args): return False
        return n == "insert" and ("PublicPaths" in e.fn or "Entry" in e.fn or "Map" in e.fn) or n in ("or_insert", "or_insert_with", "or_default", "and_modify", "insert_entry", "push_back") or n == "new" and "PublicPaths" in e.fn
    base, _, rec, queue = go()
    if not rec: raise Broken("public_paths_by_def_id records no path of an ordinary public item")
    for need in ("vis", "res", "name"):
        pass
    bad = {"not public": dict(public=False), "named `_`": dict(under=True), "not a definition": dict(res="PrimTy"), "a module child that resolved to an error": dict(res="Err"), "inside an extern block": dict(foreign=True),
           "a constructor": dict(kind="Ctor"), "unstable": dict(stab="unstable"), "a private module": dict(public=False, kind="Mod"), "an unstable module": dict(stab="unstable", kind="Mod"), "a private enum": dict(public=False, kind="Enum"), "a private type alias": dict(public=False, kind="TyAlias")}
    for d, f in bad.items():
        A, r, rec, queue = go(**f)
        ctx.obligation(f"no path recorded for an item that is {d}")
        e = (rec + queue + [None])[0]
        if e: ctx.violate(f"paths:{d}", P, f"an item that is {d} gets {'a recorded path' if rec else 'its children traversed'} ({last(e.fn)} in {last(e.body or P)})")
    # and the others are recorded, on every way through one iteration
    for k in KINDS:
        for st in ("none", "stable"):
            A, r, rec, queue = go(kind=k, stab=st)
            ctx.obligation(f"path recorded for a public {st} {k}")
            skipped = may_skip(A, lambda x: x.op == "eff" and "HashMap" in x.a[0])
            if not rec or skipped: ctx.violate(f"paths:drops:{k}", P, f"a public item of kind {k} (stability: {st}) can be passed over without recording its path")
            if k in ("Mod", "Enum", "Trait"):
                ctx.obligation(f"children of a public {k} traversed")
                if not queue or may_skip(A, lambda x: x.op == "eff" and "Deque" in x.a[0] and last(x.a[0]).startswith(("push", "insert", "extend"))): ctx.violate(f"paths:module:{k}", P, f"a public {k} can be passed over without traversing its children")
def may_skip(A, is_eff):
    """an iteration of the innermost loop over the children that leaves the container unchanged"""
    found = False
    for m, (init, steps) in A.mu.items():
        for s in steps:
            for x in alts(s):
                if any(is_eff(y) and any(has(z, M("children")) for z in y.a if isinstance(z, T)) for y in subterms(x)): found = True
    if not found: return False
    for m, (init, steps) in A.mu.items():
        mine = [x for s in steps for x in alts(s)]
        effs = [x for x in mine if any(is_eff(y) and any(has(z, M("children")) for z in y.a if isinstance(z, T)) for y in subterms(x))]
        if effs and any(x is m for x in mine): return True
    return False


# ------------------------------------------------------------------ which paths become items
def errs(r):
    """does a result term always carry an error?"""
    return isinstance(r, T) and all(x.op == "fail" or vn(x) == "Err" for x in alts(r))
def oks(r): return isinstance(r, T) and any(x.op != "fail" and vn(x) != "Err" for x in alts(r))
def items(ctx, F):
    P = fn(F, "formatted_items_in_crate")
    def go(ignored=False, canon="here", gen="ok", **attrs):
        E, I = M("error"), M("item")
        def extra(t):
            if t.op in ("eq", "ne") and any(has(x, M("canon")) for x in t.a[:2]) and any("source_crate_num" in show(x, 9) or x is M("source") for x in t.a[:2]): return boolc((canon == "here") == (t.op == "eq"))
            if t.op != "call": return None
            n = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
            if n in ("eq", "ne") and any(has(x, M("canon")) for x in A) and any(x is M("source") for x in A): return boolc((canon == "here") == (n == "eq"))
            if n == "contains" and any("ignore_symbols_from_files" in show(x, 9) for x in A): return boolc(ignored)
            if "BindingsGenerator" in t.a[0]:
                if n == "public_paths_by_def_id": return M("paths")
                if n == "source_crate_num": return M("source")
                if n == "symbol_canonical_name": return NONE if canon == "none" else some(M("canon"))
                if n == "generate_item": return {"ok": ok(some(I)), "none": ok(NONE), "err": err(E)}[gen]
            return None
        w = World(M("paths"), extra, attrs=attrs)
        A, r = go_(F, P, w, opaque("into_canonical_and_aliases", "into_extern_aliases"))
        called = [e for e in A.events if last(e.fn) == "generate_item"]
        ali = [e for e in A.events if last(e.fn) in ("into_canonical_and_aliases", "into_extern_aliases")]
        return A, r, called, ali, E, I
    A, r, called, ali, E, I = go(do_not_bind=False)
    if not called or not has(r, I): raise Broken("formatted_items_in_crate yields nothing for an ordinary item")
    for d, k in {"annotated do_not_bind": dict(do_not_bind=True), "defined in an ignored file": dict(ignored=True, do_not_bind=False), "without a canonical name": dict(canon="none", do_not_bind=False)}.items():
        A, r, called, ali, E, I = go(**k)
        ctx.obligation(f"no bindings for an item {d}")
        if called or ali or has(r, I): ctx.violate(f"items:{d}", P, f"an item {d} still reaches {last((called + ali)[0].fn) if called + ali else 'the output'}")
    A, r, called, ali, E, I = go(canon="elsewhere", do_not_bind=False)
    ctx.obligation("items of other crates are only aliased")
    if called: ctx.violate("items:foreign", P, "an item whose canonical crate is another one is generated again")
    if not ali: ctx.violate("items:foreign-alias", P, "a re-exported item of another crate loses its aliases")
    A, r, called, ali, E, I = go(gen="err", do_not_bind=False)
    ctx.obligation("an item's error is reported as unsupported and kept in the output")
    rep = [e for e in A.events if last(e.fn) == "generate_unsupported_def" and any(has(a, E) for a in e.args)]
    if not rep or not any(isinstance(e.ret, T) and has(r, e.ret) for e in rep): ctx.violate("items:error-dropped", P, "the error of an item that cannot be bound does not reach generate_unsupported_def and the output")
    for g, k in (("ok", {}), ("err", {})):
        A, r, called, ali, E, I = go(gen=g, do_not_bind=False)
        ctx.obligation(f"no item is filtered out after generation ({g})")
        if any(x.op == "filtered" and may_none(x.a[1]) for x in subterms(r)): ctx.violate(f"items:filtered:{g}", P, f"an item whose generation {'succeeded' if g == 'ok' else 'failed'} can be left out of the output silently")
def may_none(p):
    """a filter predicate that may be false"""
    if p.op == "isv" and p.a[0].op == "disc": return any(vn(x) == "None" or x.op == "fail" for x in alts(p.a[0].a[0])) 
    return p.op == "const" and p.a[0] == 0
# ------------------------------------------------------------------ errors and must_bind
def fatal(A, E=None):
    return [e for e in A.events if last(e.fn) == "report" and any("fatal_errors" in show(a, 6) for a in e.args[:1])]
GENERATED = {"Fn": ("generate_function",), "Struct": ("adt_needs_bindings", "generate_adt"), "Enum": ("adt_needs_bindings", "generate_adt"), "Union": ("adt_needs_bindings", "generate_adt"), "Const": ("generate_const",), "Trait": ("generate_trait",), "TyAlias": ("generate_type_alias",)}
def item(ctx, F):
    P = fn(F, "generate_item")
    arg = F.bodies[P].argc
    def go(kind, gen, must, feat="ok"):
        E, I, R = M("error"), M("snippets"), M("resolved")
        def extra(t):
            if t.op == "disc" and t.a[0].op == "call" and last(t.a[0].a[0]) == "def_kind": return frozenset({kind})
            if t.op == "call":
                n = last(t.a[0])
                if n in GENERATED.get(kind, ()) and n != "generate_adt": return ok(I) if gen == "ok" else err(E)
                if n == "generate_adt": return I
                if n == "resolve_feature_requirements": return ok(R) if feat == "ok" else err(M("missing"))
                if n == "symbol_canonical_name": return some(M("canon"))
                if n == "get_attrs": return ok(T("mark", "attrs"))
            return None
        w = World(M("nothing"), extra, attrs=dict(must_bind=must))
        A, r = go_(F, P, w, opaque("unsupported_def_error_message", but=("generate_item_impl", "report_must_bind_error")))
        return A, r, E, I, R
    for kind in list(GENERATED) + ["Static"]:
        for gen, feat in (("ok", "ok"), ("err", "ok"), ("ok", "missing")):
            if kind == "Static" and gen == "ok": continue
            for must in (True, False):
                A, r, E, I, R = go(kind, gen, must, feat)
                fails = gen == "err" or feat == "missing"
                what = f"{kind}, {'unsupported' if gen == 'err' else 'feature missing' if fails else 'supported'}, {'must_bind' if must else 'no must_bind'}"
                ctx.obligation(f"generate_item: {what}")
                if fails and not errs(r): ctx.violate(f"item:lost-error:{kind}:{gen}:{feat}", P, f"{what}: generate_item can return Ok")
                if fails and must and not fatal(A): ctx.violate(f"item:must-bind:{kind}:{gen}:{feat}", P, f"{what}: no fatal error is reported")
                if fatal(A) and not (fails and must): ctx.violate(f"item:spurious-fatal:{kind}:{gen}:{feat}", P, f"{what}: a fatal error is reported")
                if not fails and (has(r, I) or not has(r, R)): ctx.violate(f"item:unresolved:{kind}", P, f"{what}: snippets are returned without having their feature requirements resolved")
    S = [x for x in F.bodies if last(x) == "generate_unsupported_def" and "{" not in x]
    for s in S:
        A, r = go_(F, s, lambda t: None, opaque("unsupported_def_error_message", but=("generate_unsupported_def",)))
        ctx.obligation("generate_unsupported_def reports its error")
        if not any(last(e.fn) == "report" and any(x.op == "arg" and x.a[1] == "err" or x.op == "arg" and x.a[0] == 3 for a in e.args for x in subterms(a)) for e in A.events): ctx.violate("unsupported:unreported", s, "generate_unsupported_def does not report its error")
def assoc(ctx, F):
    P = fn(F, "generate_associated_item")
    def go(gen="ok", feat="ok", must=False, pub=True, stab="none", tstab="none", trait=False, kind="Fn"):
        E, I, R = M("error"), M("snippets"), M("resolved")
        TR = M("trait_item")
        def extra(t):
            if t.op == "disc" and t.a[0].op == "field" and t.a[0].a[1] == "kind": return frozenset({kind})
            if t.op != "call": return None
            n = last(t.a[0])
            if n in ("is_unstable", "is_stable") and any(y.op == "mark" and y.a[0] == "stability" for y in subterms(t)): return None
            if n == "lookup_stability":
                return (NONE if tstab == "none" else some(T("mark", "stability", T("mark", tstab)))) if has(t, TR) else (NONE if stab == "none" else some(T("mark", "stability", T("mark", stab))))
            if n == "visibility": return M("visibility")
            if n == "trait_impl_of_assoc": return some(M("impl")) if trait else NONE
            if n == "get_only": return some(TR)
            if n == "generate_function" or n == "generate_const": return ok(I) if gen == "ok" else err(E)
            if n == "resolve_feature_requirements": return ok(R) if feat == "ok" else err(M("missing"))
            if n == "get_attrs": return ok(T("mark", "attrs"))
            return None
        def orc(t):
            if t.op == "call" and last(t.a[0]) in ("is_unstable", "is_stable"):
                for y in subterms(t):
                    if y.op == "mark" and y.a[0] == "stability": return boolc((y.a[1].a[0] == "unstable") == (last(t.a[0]) == "is_unstable"))
            if t.op == "call" and last(t.a[0]) == "is_public" and has(t, M("visibility")): return boolc(pub)
            if t.op == "disc" and t.a[0] is M("visibility"): return frozenset({"Public" if pub else "Restricted"})
            if t.op == "disc" and t.a[0].op == "field" and t.a[0].a[1] == "level":
                for y in subterms(t):
                    if y.op == "mark" and y.a[0] == "stability": return frozenset({"Unstable" if y.a[1].a[0] == "unstable" else "Stable"})
            return w(t)
        w = World(M("visibility"), extra, attrs=dict(must_bind=must), public=pub)
        A, r = go_(F, P, orc, opaque("unsupported_def_error_message", "avoid_colliding_types", but=("report_must_bind_error",)))
        return A, r, E, I, R
    made = lambda A: [e for e in A.events if last(e.fn) in ("generate_function", "generate_const")]
    for kind in ("Fn", "Const"):
        A, r, E, I, R = go(kind=kind)
        if not made(A): raise Broken("generate_associated_item generates nothing for an ordinary item")
        ctx.obligation(f"a public, stable associated {kind} is generated")
        if not has(r, R) or has(r, I) or any(vn(x) == "None" for x in alts(r)): ctx.violate(f"assoc:good:{kind}", P, f"a supported public associated {kind} is not returned, or not with its feature requirements resolved")
        A, r, E, I, R = go(kind=kind, trait=True, tstab="stable", stab="stable")
        ctx.obligation(f"a stable associated {kind} of a stable trait is generated")
        if not has(r, R) or any(vn(x) == "None" for x in alts(r)): ctx.violate(f"assoc:good-trait:{kind}", P, f"a supported associated {kind} of a stable trait can be skipped")
        for d, k in {"private": dict(pub=False), "unstable": dict(stab="unstable"), "whose trait item is unstable": dict(trait=True, tstab="unstable")}.items():
            A, r, E, I, R = go(kind=kind, **k)
            ctx.obligation(f"no associated {kind} that is {d}")
            if made(A) or has(r, R) or has(r, I) or any(vn(x) != "None" for x in alts(r)): ctx.violate(f"assoc:{d}:{kind}", P, f"an associated {kind} {'that is ' if 'whose' not in d else ''}{d} gets bindings")
        for gen, feat in (("err", "ok"), ("ok", "missing")):
            for must, tr in itertools.product((True, False), (False, True)):
                A, r, E, I, R = go(kind=kind, gen=gen, feat=feat, must=must, trait=tr, tstab="stable")
                what = f"associated {kind}{' of a trait impl' if tr else ''}, {'unsupported' if gen == 'err' else 'feature missing'}, {'must_bind' if must else 'no must_bind'}"
                ctx.obligation(what)
                cause = E if gen == "err" else M("missing")
                rep = [e for e in A.events if last(e.fn) == "generate_unsupported_def" and any(has(a, cause) for a in e.args)]
                if not rep or any(vn(x) == "None" for x in alts(r)): ctx.violate(f"assoc:error-dropped:{kind}:{gen}", P, f"{what}: the error is not reported as unsupported")
                if has(r, I): ctx.violate(f"assoc:unresolved:{kind}", P, f"{what}: the snippets are returned nevertheless")
                if bool(fatal(A)) != must: ctx.violate(f"assoc:must-bind:{kind}:{gen}:{must}", P, f"{what}: {'no' if must else 'a'} fatal error is reported")
# ------------------------------------------------------------------ fatal errors and output files
def outputs(ctx, F):
    P = fn(F, "run_with_tcx")
    def go(empty):
        def extra(t):
            if t.op in ("eq", "ne") and any(has(x, M("fatal")) for x in t.a) and any(strip(x).op == "const" and strip(x).a[0] == "" for x in t.a): return boolc(empty == (t.op == "eq"))
            if t.op != "call": return None
            n = last(t.a[0])
            if n == "take_string": return M("fatal")
            if n == "is_empty" and any(x is M("fatal") for x in t.a): return boolc(empty)
            if n in ("eq", "ne") and any(has(x, M("fatal")) for x in t.a if isinstance(x, T)) and any(isinstance(x, T) and strip(x).op == "const" and strip(x).a[0] == "" for x in t.a): return boolc(empty == (n == "eq"))
            if n == "len" and any(x is M("fatal") for x in t.a): return T("const", 0 if empty else 9, "usize")
            if n == "generate_bindings": return ok(M("tokens"))
            return None
        A, r = go_(F, P, extra, opaque("generate_bindings", "new_db", "take_string", "write_file", "cc_tokens_to_formatted_string", "rs_tokens_to_formatted_string", "cc_tokens_to_formatted_string_with_provenance"))
        return A, r
    A, r = go(True)
    w = [i for i, e in enumerate(A.events) if last(e.fn) in ("write_file", "write", "create")]
    g = [i for i, e in enumerate(A.events) if last(e.fn) == "generate_bindings"]
    t = [i for i, e in enumerate(A.events) if last(e.fn) == "take_string"]
    if not w or not g: raise Broken("run_with_tcx neither generates nor writes")
    ctx.obligation("fatal errors are collected between generating and writing")
    if not t or min(t) < max(g): ctx.violate("outputs:order", P, "the fatal errors are not collected after the bindings have been generated")
    A, r = go(False)
    w = [e for e in A.events if last(e.fn) in ("write_file", "write", "create")]
    ctx.obligation("nothing is written after a fatal error")
    if w: ctx.violate("outputs:written", P, "an output file is written although fatal errors were reported")
    if not errs(r): ctx.violate("outputs:success", P, "run_with_tcx can succeed although fatal errors were reported")
    for e in ("report",):
        p = [x for x in F.bodies if x.endswith("FatalErrors as ReportFatalError>::report") or "FatalErrors" in x and last(x) == "report"]
        for x in p:
            A, r = go_(F, x, lambda t: None, lambda f: False)
            g = names.Graph(F, F.bodies[x])
            rec = {i for i in g.live for t in [F.bodies[x].blocks[i]["t"]] if t["t"] == "call" and last(t["f"].get("fn", "")) in ("push_str", "push", "write_fmt", "write_str", "extend", "insert_str", "add_assign", "writeln") and any(F.bodies[x].name(2) and o and o[0] == "p" and o[1][0] == 2 for o in map(g.origin, t["a"]))}
            seen = {0}; w = [0]
            while w:
                i = w.pop()
                for q in g.succ[i] if i not in rec else ():
                    if q not in seen: seen.add(q); w.append(q)
            if rec and any(F.bodies[x].blocks[i]["t"]["t"] == "ret" for i in seen - rec): ctx.violate("fatal:skipped", x, "FatalErrors::report can return without recording its message")
            ctx.obligation("a fatal report is recorded")
            if not any(last(v.fn) in ("push_str", "push", "write_fmt", "write_str", "extend", "insert_str") and any(y.op == "arg" and y.a[0] == 2 for a in v.args for y in subterms(a)) for v in A.events): ctx.violate("fatal:unrecorded", x, "FatalErrors::report does not record its message")
# ------------------------------------------------------------------ required features
def features(ctx, F):
    ps = [p for p in F.bodies if last(p) == "resolve_feature_requirements" and "{" not in p]
    if len(ps) < 2: raise Broken("resolve_feature_requirements not found")
    for p in ps:
        if "ApiSnippets" in p:
            for which in ("main_api", "cc_details", None):
                def extra(t):
                    if t.op == "call" and last(t.a[0]) == "resolve_feature_requirements": return err(M("missing")) if which and which in show(t.a[1], 9) else ok(T("mark", "resolved", t.a[1]))
                A, r = go_(F, p, extra, lambda f: f != p and last(f) == "resolve_feature_requirements")
                ctx.obligation(f"{p}: {which or 'all granted'}")
                if which and not errs(r): ctx.violate(f"features:{which}", p, f"snippets whose {which} needs an ungranted feature survive")
                if which is None and errs(r): raise Broken("resolve_feature_requirements always fails")
        else:
            for n in (0, 1, 2):
                def extra(t):
                    if t.op == "call":
                        f = last(t.a[0])
                        if f == "ensure_crubit_feature": return ok(T("agg", "tuple", ())) if n == 0 else err(M("missing"))
                        if f in ("len", "is_empty") and not has(t, M("other")):
                            return T("const", n, "usize") if f == "len" else boolc(n == 0)
                A, r = go_(F, p, extra, lambda f: last(f) == "ensure_crubit_feature")
                ens = [e for e in A.events if last(e.fn) == "ensure_crubit_feature"]
                ctx.obligation(f"{p}: {n} missing")
                if not ens or not any("required_features" in show(a, 9) for e in ens for a in e.args[:1]): ctx.violate("features:unchecked", p, "the required features are not compared with the granted ones")
                elif n and not errs(r): ctx.violate(f"features:missing{n}", p, f"a snippet with {n} ungranted feature(s) survives")
                elif not n and errs(r): raise Broken("resolve_feature_requirements always fails")
    for p in [x for x in F.bodies if last(x) == "add_assign" and "CcPrerequisites" in x and "{" not in x]:
        A, r = go_(F, p, lambda t: None, lambda f: False)
        ctx.obligation(f"{p} keeps the required features of both sides")
        if not any("required_features" in show(e.args[0], 9) and any(y.op == "field" and y.a[1] == "required_features" and any(z.op == "arg" and z.a[0] == 2 for z in subterms(y)) for y in subterms(e.args[1])) for e in A.events if len(e.args) > 1): ctx.violate("features:dropped", p, "adding prerequisites loses the required features of the right-hand side")
def run(ctx):
    F = ctx.facts()
    broken = []
    for part in (paths, items, item, assoc, outputs, features):
        try: part(ctx, F)
        except Broken as e: broken.append(f"{part.__name__}: {e}")
    if broken: raise Broken("; ".join(broken))
