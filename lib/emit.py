"""What a snippet generator emits: per slot (main_api, cc_details, rs_details) the rendered alternatives of its tokens."""
from gen import *
SLOTS = ("main_api", "cc_details", "rs_details")
def field(t, n):
    if t.op == "agg" and n in t.a[1]: return t.a[2 + t.a[1].index(n)]
    return None
def emitted(A, r, spell=()):
    """{variant or "": {slot: sorted texts}} for every returned snippet, by Ok / Err / plain; "fail" marks a bare error"""
    out = {}
    for x in alts(r):
        key = ""
        if x.op == "fail": out.setdefault("Err", {}); continue
        if x.op == "agg" and vname(x.a[0]) in ("Ok", "Err", "Some", "None"):
            key = vname(x.a[0]); xs = alts(x.a[2]) if len(x.a) > 2 else []
        else: xs = [x]
        for y in xs:
            d = field(y, "explicitly_deleted")
            for z in alts(d) if d is not None else [y]:
                s = {}
                for k in SLOTS:
                    f = A.proj(z, "." + k, {}) if z.op in ("mu", "upd") else field(z, k)
                    if f is None: continue
                    for w in alts(f):
                        while w.op == "field" and w.a[0].op in ("default", "field"): w = w.a[0]      # `..Default::default()`
                        tk = field(w, "tokens")
                        if tk is None: tk = T("empty") if w.op == "default" else A.proj(w, ".tokens", {}) if w.op in ("mu", "upd") or mu_field(A, w)[0] is not None else T("cat", T("empty"), T("hole", w))
                        for it in flat(A, tk): s.setdefault(k, set()).update(texts(it) if k in spell else [text(it)])
                if not s: s = {"?": {show_(z)}}
                out.setdefault(key, []) if not isinstance(out.get(key), dict) else None
                if isinstance(out.get(key), dict): out[key] = []
                out[key].append(s)
    return out
def show_(t):
    from sym import show
    return show(t)[:300]
