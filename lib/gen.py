"""Helpers shared by the checks that evaluate the bindings generator abstractly.

A valuation assigns values to the predicates the generator asks about a type
("is it bridged", "is it C-ABI compatible by value", its kind, ...), per *role*
(parameter, return value, tuple element).  `oracle(valuation)` answers the
interpreter's questions; everything else stays symbolic.
"""
import itertools, re
from ai import mu_field, AI, T, NONE, some, ok, err, tup, boolc, alts, alt, vname, flat, render, TRUEc, FALSEc, UNIT
from core import Broken

def find(F, *suffixes, module=""):
    """the bodies of the functions whose path ends in one of the suffixes"""
    out = [p for p in F.bodies if any(p.endswith(s) for s in suffixes) and module in p and "{closure" not in p.rsplit("::", 1)[-1]]
    return sorted(out)
def one(F, suffix, module=""):
    c = find(F, suffix, module=module)
    if len(c) != 1: raise Broken(f"anchor {suffix}: {len(c)} candidates {c[:4]}")
    return c[0]

CUT = ("format_ty_for_rs", "format_ty_for_cc", "is_bridged_type", "is_c_abi_compatible_by_value", "crate_features", "does_type_implement_trait",
       "has_move_ctor_and_assignment_operator", "support_header", "needs_drop")
def opaque(fn, extra=()):
    return fn.rsplit("::", 1)[-1] in CUT or fn.rsplit("::", 1)[-1] in extra or "arc_anyhow" in fn or "crubit_attr" in fn or "error_report" in fn

class Queries:
    """the functions behind the generator's memoised queries (`BindingsGenerator::x` is implemented by the free function `x`)"""
    def __init__(self, F):
        self.by = {}
        for p, b in F.bodies.items():
            if "cc_bindings_from_rs" in p and "{" not in p and "<" not in p and not p.startswith("cc_bindings_from_rs_database"): self.by.setdefault(last(p), []).append(p)
    def __call__(self, fn):
        if "BindingsGenerator" not in fn: return None
        c = self.by.get(last(fn), ())
        return c[0] if len(c) == 1 else None
def last(fn): return fn.rsplit("::", 1)[-1]
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen: return
    seen.add(t); yield t
    for x in t.a:
        if isinstance(x, T): yield from subterms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): yield from subterms(y, seen)

STRIP = {"replace_all_regions_with_static", "fold_with", "fold_ty", "try_normalize", "normalize_ty", "skip_normalization", "new_wip", "erase_regions", "clone"}
def strip(t):
    while t.op == "call" and last(t.a[0]) in STRIP:
        xs = [x for x in t.a[1:] if isinstance(x, T)]
        # the value argument: the one that is not the type context
        xs = [x for x in xs if not (x.op == "call" and last(x.a[0]) == "tcx") and not (x.op == "arg" and x.a[1] in ("tcx", "db")) and x.op != "agg"] or xs
        t = xs[0]
    return t
def role(t):
    """which type of the signature a term denotes"""
    t = strip(t)
    if t.op == "call":
        n = last(t.a[0])
        if n == "output" or n == "get_async_future_output_ty": return "ret"
    if t.op in ("field", "var") and isinstance(t.a[0], T): return role(t.a[0])     # e.g. `?` around it
    if t.op == "elem":
        x = strip(t.a[0])
        if x.op == "call" and last(x.a[0]) == "inputs": return "param"
        return "nested"
    if t.op == "index":
        x = strip(t.a[0])
        if x.op == "call" and last(x.a[0]) == "inputs": return "param"
        return "nested"
    return None

def flags_atom(t):
    """FlagSet::contains(_, CrubitFeature::X) -> X"""
    if t.op == "call" and last(t.a[0]) == "contains":
        for x in t.a[1:]:
            if isinstance(x, T) and x.op == "agg" and "CrubitFeature::" in x.a[0]: return vname(x.a[0])
    return None

def snippet(tok):
    return T("agg", "CcSnippet::CcSnippet", ("tokens", "prereqs"), T("cat", T("empty"), tok), T("default"))

def text(items):
    """items as text; alternatives inside groups and repetitions are rendered separately, deduplicated and joined by ¦"""
    out = []
    for x in items:
        if isinstance(x, str): out.append(x)
        elif x[0] == "hole": out.append("⟨" + holename(x[1]) + "⟩")
        elif x[0] == "grp":
            o, c = {"P": "()", "B": "{}", "K": "[]", "N": ("", "")}[x[1]]
            body = " ¦ ".join(sorted({text(y) for y in x[2]}))
            out.append(" ".join(w for w in (o, body, c) if w))
        elif x[0] == "rep": out.append("« " + " ¦ ".join(sorted({text(y) for y in x[1]})) + " »")
    return " ".join(w for w in out if w)
def texts(items, cap=64):
    """like text, but alternatives inside groups and repetitions are spelled out: one text per combination"""
    out = [""]
    for x in items:
        if isinstance(x, tuple) and x[0] == "grp":
            o, c = {"P": "()", "B": "{}", "K": "[]", "N": ("", "")}[x[1]]
            ys = list(dict.fromkeys(" ".join(w for w in (o, b, c) if w) for y in x[2] for b in texts(y, cap)))
        elif isinstance(x, tuple) and x[0] == "rep": ys = list(dict.fromkeys("« " + b + " »" for y in x[1] for b in texts(y, cap)))
        else: ys = [text((x,))]
        out = list(dict.fromkeys(a + " " + b for a in out for b in ys))
        if len(out) > cap: return [text(items)]
    return [re.sub(r" +", " ", w).strip() for w in out]
NAMERS = {"expect_format_cc_ident", "make_rs_ident", "format_cc_ident", "mk_ident", "parse_str", "new", "prepare_ident", "from_str", "format_ident", "unwrap", "expect", "as_str", "to_string", "clone", "intern", "as_ref"}
def holename(t, d=0):
    if d > 6: return "?"
    if t.op in ("tok", "mark"): return str(t.a[0])
    if t.op == "const": return str(t.a[0])
    if t.op == "fmt": return "".join(x if isinstance(x, str) else "{" + holename(x, d + 1) + "}" for x in t.a)
    if t.op == "arg": return str(t.a[1])
    if t.op == "field": return str(t.a[1]) if not str(t.a[1]).isdigit() else holename(t.a[0], d + 1)
    if t.op == "var": return holename(t.a[0], d + 1)
    if t.op == "alt":
        ns = {holename(x, d + 1) for x in t.a}
        return "|".join(sorted(ns)) if len(ns) < 4 else "?"
    if t.op == "elem": return "elem"
    if t.op == "index": return "i"
    if t.op == "agg" and len(t.a) > 2: return holename(t.a[2], d + 1)
    if t.op == "call":
        n = last(t.a[0])
        xs = [x for x in t.a[1:] if isinstance(x, T)]
        if n in NAMERS:
            for x in reversed(xs):
                h = holename(x, d + 1)
                if h not in ("?", "db", "tcx"): return h
        return n
    return "?"
_job = None
def _call(i): return _job[0](_job[1][i])
def parallel(fn, items, jobs=8):
    """map in forked processes (fn may be a closure)"""
    global _job
    from multiprocessing import get_context
    items = list(items); _job = (fn, items)
    try:
        with get_context("fork").Pool(jobs) as p: return p.map(_call, range(len(items)), chunksize=1)
    finally: _job = None
