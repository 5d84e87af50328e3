"""`scalar_value_to_string` is interpreted abstractly on the compiler's MIR once per primitive type, with the constant's value an interval of that type: comparisons and casts in the code split the interval, so the result is a list of (interval, C++ text with a hole for the number) that covers every value. The text is judged by C++'s rules for literals (a finite partition for floats: whole, fraction, exponent, infinite, NaN). The tokens of `generate_const` and `generate_cpp_enum` are read off the same interpretation: type, name and value must belong to one item. The C++ type printed for each primitive is compiled against size and signedness assertions."""
from core import *
import core, containers, re
from gen import *
from ai import perm
import gen
from sym import show
from emit import emitted
RULE = "for every primitive type and every value interval the emitted C++ literal denotes exactly that value (integers: hole read at the type's width and sign, no value-changing cast, literal and macro wide enough; floats: finite and spelled as a floating literal of the type); string literals never put a digit behind an escaped NUL; name, type and value of a constant or enumerator come from the same item; the C++ type has the Rust type's size and signedness"
LEVEL = "other"
W = "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"
WL = "cc_bindings_from_rs/generate_bindings/lib.rs"
KINDS = {"i8": ("Int", "I8", True, 8), "i16": ("Int", "I16", True, 16), "i32": ("Int", "I32", True, 32), "i64": ("Int", "I64", True, 64), "isize": ("Int", "Isize", True, 64), "i128": ("Int", "I128", True, 128),
         "u8": ("Uint", "U8", False, 8), "u16": ("Uint", "U16", False, 16), "u32": ("Uint", "U32", False, 32), "u64": ("Uint", "U64", False, 64), "usize": ("Uint", "Usize", False, 64), "u128": ("Uint", "U128", False, 128),
         "c_char": ("ffi", "c_char", None, 8), "c_long": ("ffi", "c_long", True, 32), "c_ulong": ("ffi", "c_ulong", False, 32), "c_longlong": ("ffi", "c_longlong", True, 64), "c_ulonglong": ("ffi", "c_ulonglong", False, 64)}
MACRO = {f"{u}INT{n}_C": (not u, n) for u in ("U", "") for n in (8, 16, 32, 64)}
NAMED = {**{f"INT{n}_MIN": -(1 << n - 1) for n in (8, 16, 32, 64)}, **{f"INT{n}_MAX": (1 << n - 1) - 1 for n in (8, 16, 32, 64)}, **{f"UINT{n}_MAX": (1 << n) - 1 for n in (8, 16, 32, 64)}}
def rng(signed, w): return (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)

def kindterm(k, v):
    if k == "ffi": return T("agg", "rustc_type_ir::TyKind::Adt", ("0", "1"), T("arg", 90, "adt"), T("arg", 91, "args"))
    if v is None: return T("agg", f"rustc_type_ir::TyKind::{k}", ())
    return T("agg", f"rustc_type_ir::TyKind::{k}", ("0",), T("agg", f"rustc_type_ir::{k}Ty::{v}", ()))

class Split(Exception): pass
READ = re.compile(r"to_(i|u)(8|16|32|64|128)$")
class Reader:
    """answers the questions the code asks about one constant"""
    def __init__(s, kind, name, signed, width, lo, hi, shape=None):
        s.kind, s.name, s.signed, s.width, s.lo, s.hi, s.shape, s.bad = kind, name, signed, width, lo, hi, shape, []
    def num(s, signed, width, how):
        """the constant, read as a `width` bit number"""
        if width != s.width: s.bad.append(f"reads {width} bits of a {s.width}-bit constant ({how})")
        if s.signed is None: return T("num", how)
        if signed == s.signed: return T("num", how)
        if s.lo >= 0 and s.hi < 1 << s.width - 1: return T("num", how)
        if s.lo < 0 <= s.hi: raise Split(0)
        if s.hi >= 1 << s.width - 1 > s.lo: raise Split(1 << s.width - 1)
        return T("wrong", f"{'signed' if signed else 'unsigned'} reading of the bits ({how})")
    def ask(s, t):
        if t.op == "call":
            n = last(t.a[0])
            if "ScalarInt" in t.a[0]:
                m = READ.match(n)
                if m and s.kind != "Float": return s.num(m.group(1) == "i", int(m.group(2)), n)
                if n in ("to_target_usize", "to_target_isize"): return s.num(n == "to_target_isize", 64, n)
                if n in ("to_bits_unchecked", "to_bits", "to_uint"): return s.num(False, s.width, n)
                if n == "to_int": return s.num(True, s.width, n)
                if n in ("to_f32", "to_f64"):
                    if n[4:] != str(s.width): s.bad.append(f"{n} of an {s.name} constant ({n[3:]})")
                    return T("num", "apfloat")
                if n == "try_to_bool": return T("agg", "std::result::Result::Ok", ("0",), T("num", "bool"))
            if n == "as_str" and t.a[1].op == "const": return t.a[1]
            if n == "crate_name": return T("const", "ffi_11", "str")
            if n in ("item_name", "opt_item_name"): return T("const", s.name, "str")
            if s.shape and len(t.a) > 1 and isinstance(t.a[1], T):
                if n in ("is_finite", "is_infinite", "is_nan", "is_zero", "is_negative") and t.a[1].op == "num":
                    if n == "is_finite": return boolc(s.shape not in ("inf", "nan"))
                    if n == "is_infinite": return boolc(s.shape == "inf")
                    if n == "is_nan": return boolc(s.shape == "nan")
                if n == "contains" and len(t.a) > 2:
                    tx = chars(t.a[1], s.shape)
                    pats = [y.a[0] for y in subterms(t.a[2]) if y.op == "const"]
                    if tx is not None and pats:
                        cs = "".join(chr(p) if isinstance(p, int) else str(p) for p in pats)
                        if any(c in tx for c in cs): return TRUEc
                        return FALSEc
        if t.op == "bin" and t.a[0] == "Lt" and s.kind != "Float":
            x, y = t.a[1], t.a[2]
            if x.op == "num" and y.op == "const": return s.less(y.a[0])
            if y.op == "num" and x.op == "const":
                r = s.less(x.a[0] + 1)
                return boolc(not r.a[0])
        if t.op == "eq" and s.kind != "Float":
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if x.op == "num" and y.op == "const" and isinstance(y.a[0], int): return boolc(s.pick(x, [y.a[0]]) == y.a[0])
        return None
    def pick(s, d, labels):
        if d.op != "num" or s.kind == "Float": return None
        for l in labels:
            c = s.fix(l)
            if c < s.lo or c > s.hi: continue
            if s.lo == s.hi: return l
            raise Split(c if c > s.lo else c + 1)
        return "otherwise"
    def fix(s, c):      # a constant of the same type, printed as raw bits
        return c - (1 << s.width) if s.signed and c >= 1 << s.width - 1 else c
    def less(s, c):
        c = s.fix(c)
        if s.hi < c: return TRUEc
        if s.lo >= c: return FALSEc
        raise Split(c)
    def cast(s, v, k, ty):
        if k == "IntToInt" and v.op == "num" and s.kind != "Float":
            m = re.match(r"^([iu])(8|16|32|64|128|size)$", ty)
            if not m: return T("wrong", f"cast to {ty}")
            lo, hi = rng(m.group(1) == "i", 64 if m.group(2) == "size" else int(m.group(2)))
            if lo <= s.lo and s.hi <= hi: return v
            if s.hi < lo or s.lo > hi: return T("wrong", f"cast to {ty}")
            raise Split(lo if s.lo < lo else hi + 1)
        if k in ("IntToFloat", "FloatToInt", "FloatToFloat") and v.op == "num": return T("wrong", f"cast to {ty}")
        return v
SHAPES = {      # Display of rustc_apfloat's IeeeFloat for each class of values
    "whole": "7", "negzero": "-0", "fraction": "7.5", "exponent": "7E+30", "fracexp": "7.5E-30", "inf": "+Inf", "nan": "NaN"}
NATIVE = {"whole": "7", "negzero": "-0", "fraction": "7.5", "exponent": "70000", "fracexp": "0.00075", "inf": "inf", "nan": "NaN"}
NDEBUG = {"whole": "7.0", "negzero": "-0.0", "fraction": "7.5", "exponent": "7e30", "fracexp": "7.5e-30", "inf": "inf", "nan": "NaN"}
def chars(t, shape):
    """the text of a term for the class of floats `shape`, None if unknown"""
    if t.op == "num": return (SHAPES if t.a[0] == "apfloat" else NATIVE)[shape]
    if t.op == "fmtas" and t.a[0] == "debug" and t.a[1].op == "num" and t.a[1].a[0] != "apfloat": return NDEBUG[shape]
    if t.op == "const": return str(t.a[0])
    if t.op in ("fmt", "pushed", "cat"):
        out = [x if isinstance(x, str) else chars(x, shape) for x in t.a]
        return None if None in out else "".join(out)
    if (t.op == "eff" and t.a[0].startswith("std::string::String::push") and t.a[1] == 0) or (t.op == "call" and last(t.a[0]) == "add"):
        a = t.a[-2:]
        x, y = chars(a[0], shape), (chr(a[1].a[0]) if a[1].op == "const" and isinstance(a[1].a[0], int) else chars(a[1], shape))
        return None if x is None or y is None else x + y
    return None
FLOATLIT = re.compile(r"^-?(\d+\.\d*|\.\d+|\d+(?=[eE]))([eE][+-]?\d+)?([fFlL]?)$")

def outcomes(ctx, F, Q, fn, r):
    """[(lo, hi, alternatives, Reader)] over the whole type"""
    todo, out = [(r.lo, r.hi)], []
    while todo:
        lo, hi = todo.pop()
        if len(out) + len(todo) > 60: raise Broken(f"too many value intervals for {r.name}")
        q = Reader(r.kind, r.name, r.signed, r.width, lo, hi, r.shape)
        k = "Float" if r.kind == "Float" else r.kind
        A = AI(F, oracle=q.ask, opaque=lambda f: False, depth=14, alias=Q); A.optional = True; A.cast, A.pick = q.cast, q.pick; A.lenient = True
        sc = T("agg", "rustc_middle::mir::interpret::Scalar::Int", ("0",), T("arg", 2, "scalar"))
        try: res = A.run(fn, [T("arg", 1, "tcx"), sc, kindterm(r.kind, r.name)])
        except Split as e:
            c = e.args[0]
            if not lo < c <= hi: raise Broken(f"{r.name}: split at {c} outside [{lo}, {hi}]")
            todo += [(lo, c - 1), (c, hi)]; continue
        out.append((lo, hi, [x for x in alts(res) if x.op != "fail"] if res is not None else [], q))
    return sorted(out, key=lambda o: o[0])
def payload(x):
    return [z for z in alts(x.a[2])] if x.op == "agg" and vname(x.a[0]) == "Ok" else [x]
def integer(ctx, ty, lo, hi, t, q):
    """why the text does not denote the constant, or None"""
    if t.op == "wrong": return t.a[0]
    if t.op == "num": parts = [t]
    elif t.op == "const": parts = [str(t.a[0])]
    elif t.op == "fmt": parts = list(t.a)
    else: return f"not a number: {show(t)[:80]}"
    for p in parts:
        if isinstance(p, T):
            if p.op == "wrong": return p.a[0]
            if p.op != "num": return f"prints {show(p)[:60]}"
    text = "".join(p if isinstance(p, str) else "\0" for p in parts)
    m = re.match(r"^(\w*)\(?(\0|[\w-]+)\)?$", text) if "(" in text else None
    if text in NAMED:
        return None if lo == hi == NAMED[text] else f"prints {text} for {lo}..{hi}"
    wrap, body = (m.group(1), m.group(2)) if m else ("", text)
    body = re.sub(r"^(-?\d+)(?:[uU]?[lL]{0,2}|[lL]{1,2}[uU])$", r"\1", body)
    suf = re.match(r"^\0([uUlL]+)$", body)
    if suf: body = "\0"
    if body != "\0":
        if re.match(r"^-?\d+$", body): return None if lo == hi == int(body) else f"prints {body} for {lo}..{hi}"
        return f"prints {text!r}"
    sg, w = (None, None)
    if wrap:
        if wrap not in MACRO: return f"uses {wrap}, which is not a literal macro"
        sg, w = MACRO[wrap]
        a, b = rng(sg, w)
        if lo < a and sg or hi > b or not sg and lo < 0: return f"{wrap}({lo if lo < a else hi}) is out of range"
    if lo < -(1 << 63) or hi > (1 << 64) - 1: return f"{lo}..{hi} has no C++ literal"
    if lo == -(1 << 63): return f"prints -9223372036854775808, which is a negated out-of-range literal"
    if hi > (1 << 63) - 1 and not (wrap and not sg or suf and "u" in suf.group(1).lower()): return f"{hi} does not fit a signed literal"
    return None

def constants(ctx, F, Q):
    fn = one(F, "::scalar_value_to_string")
    ok = 0
    for ty, (k, v, sg, w) in KINDS.items():
        lo, hi = rng(False if sg is None else sg, w)
        rows = outcomes(ctx, F, Q, fn, Reader(k, v, sg, w, lo, hi))
        done = 0
        for lo, hi, res, q in rows:
            for x in res:
                for t in payload(x):
                    ctx.count("value intervals", 1); ctx.obligation(f"{ty} in {lo}..{hi}"); done += 1
                    why = (q.bad and q.bad[0]) or integer(ctx, ty, lo, hi, t, q)
                    if why: ctx.violate(f"literal:{ty}", f"{W} scalar_value_to_string", f"{ty} constant: {why}")
        ok += bool(done)
    floor(ctx, "integer types with constants", ok, 10)
    # bool
    rows = outcomes(ctx, F, Q, fn, Reader("Bool", None, False, 8, 0, 1))
    for lo, hi, res, q in rows:
        for x in res:
            for t in payload(x):
                ctx.obligation("bool")
                good = t.op == "num" and t.a[0] == "bool"
                if not good: ctx.violate("literal:bool", f"{W} scalar_value_to_string", f"a bool constant is printed as {show(t)[:80]}")
    seen = 0
    for ty, v, w in (("f32", "F32", 32), ("f64", "F64", 64)):
        for shape in SHAPES:
            for _, _, res, q in outcomes(ctx, F, Q, fn, Reader("Float", v, True, w, 0, 0, shape)):
                for x in res:
                    for t in payload(x):
                        ctx.obligation(f"{ty} {shape}"); ctx.count("float classes", 1); seen += 1
                        tx = chars(t, shape)
                        if q.bad: why = q.bad[0]
                        elif tx is None: why = f"prints {show(t)[:80]}"
                        elif shape in ("inf", "nan"): why = f"prints {tx!r}, which is not a C++ value"
                        else:
                            m = FLOATLIT.match(tx)
                            ref = SHAPES[shape]
                            why = None if m else f"prints {tx!r} for a {shape} value, which is not a floating-point literal"
                            if m and float(re.sub("[fFlL]$", "", tx)) != float(ref) and not (shape in ("exponent", "fracexp")): why = f"prints {tx!r} for {ref}"
                            if m and ty == "f64" and m.group(3) in ("f", "F"): why = "a double is printed as a float literal"
                            if m and tx.startswith("-") != ref.startswith("-"): why = f"prints {tx!r} for {ref}: the sign is lost"
                        if why: ctx.violate(f"literal:{ty}:{shape}", f"{W} scalar_value_to_string", f"{ty} constant: {why}")
    floor(ctx, "float classes", seen, 2)

# ------------------------------------------------------------------ constants and enumerators
OPQ = ("format_ty_for_cc", "format_ty_for_rs", "scalar_value_to_string", "cpp_enum_rust_underlying_type", "generate_doc_comment", "is_supported_associated_item", "format_cc_ident", "matches_qualified_name", "normalize_ty")
def items(t, calls=("item_name", "opt_item_name", "type_of", "const_eval_poly")):
    """the items whose name, type or value a term reads"""
    return {show(x.a[2]) for x in subterms(t) if x.op == "call" and last(x.a[0]) in calls and len(x.a) > 2}
def elems(t):
    """the outermost collection elements a term is built from"""
    if t.op == "elem": return {t}
    out = set()
    for x in t.a:
        if isinstance(x, T): out |= elems(x)
    return out
def toks(A, x, slot="main_api"):
    """flattened token sequences of a snippet slot"""
    for y in subterms(x):
        if y.op == "agg" and vname(y.a[0]) == "ApiSnippets" and slot in y.a[1]:
            for z in alts(y.a[2 + y.a[1].index(slot)]):
                if z.op == "agg" and "tokens" in z.a[1]: yield from flat(A, z.a[2 + z.a[1].index("tokens")])
def tok(t): return isinstance(t, str)
def hole(t): return isinstance(t, tuple) and t and t[0] == "hole"
def split(A, fl, at=";"):
    out = [[]]
    for t in fl:
        if t == at: out.append([])
        else: out[-1].append(t)
    return [o for o in out if o]
def calls(t, n): return [x for x in subterms(t) if x.op == "call" and last(x.a[0]) == n]

STRS = {"without NUL": ("ab", False), "with a NUL before a digit": ("a\0001b", True), "ending in NUL": ("ab\0", True), "with a NUL and other characters": ("\u00e9\0\u20ac7", True), "of other characters": ("\u00e9\u20ac", False), "empty": ("", False)}
def rustlit(s):     # proc_macro2's Literal::string
    out = ""
    for i, c in enumerate(s):
        if c == "\0": out += "\\x00" if s[i + 1:i + 2].isdigit() else "\\0"
        else: out += c
    return '"' + out + '"'
class Unknown(Exception): pass
def value_text(A, fl, s):
    """the C++ text of a flattened value whose holes are made from the string `s`"""
    out = []
    for t in fl:
        if tok(t): out.append(t)
        elif hole(t): out.append(strhole(t[1], s))
        elif t[0] == "grp":
            o, c = {"P": "()", "K": "[]", "B": "{}"}.get(t[1], ("", ""))
            alts_ = [value_text(A, x, s) for x in t[2]]
            if len(set(alts_)) != 1: raise Unknown(str(t)[:100])
            out.append(o + alts_[0] + c)
        elif t[0] == "rep":
            body = t[1] if isinstance(t[1], tuple) else t
            seqs = pieces(body, s)
            out += [rustlit(p) for p in seqs]
        else: raise Unknown(str(t)[:100])
    return re.sub(r" ?:: ?", "::", " ".join(out))
def base(t):
    """the string a term is a copy of"""
    while True:
        if t.op == "call" and last(t.a[0]) in ("from_utf8", "from_utf8_unchecked", "as_str", "as_ref", "deref", "to_string") and len(t.a) > 1: t = t.a[1]
        elif t.op == "var" and t.a[1] in ("Ok", "Some", "Ok/Some") or t.op == "field" and str(t.a[1]) == "0": t = t.a[0]
        else: return t
def strhole(t, s):
    if calls(t, "count") and calls(t, "chars"): return str(len(s))
    if calls(t, "encode_utf16"): return str(len(s.encode("utf-16-le")) // 2)
    n = calls(t, "len")
    if n and t.op == "call" and last(t.a[0]) in ("usize_unsuffixed", "usize_suffixed", "u64_unsuffixed", "len"):
        return str(len(s.encode()))
    if t.op == "const": return rustlit(str(t.a[0])) if t.a[1] != "int" else str(t.a[0])
    if calls(t, "split_inclusive") or calls(t, "split") or elems(t): raise Unknown(show(t)[:200])
    b = base(t)
    if b.op == "call" and last(b.a[0]) == "try_get_slice_bytes_for_diagnostics": return rustlit(s)
    raise Unknown(show(t)[:200])
def pieces(body, s):
    ts = [x[1] for x in subtuples(body) if hole(x)]
    if len(ts) != 1 or len([x for x in subtuples(body) if tok(x)]): raise Unknown(str(body)[:200])
    t = ts[0]
    cs = calls(t, "split_inclusive") or calls(t, "split") or calls(t, "split_terminator")
    if len(cs) != 1: raise Unknown(show(t)[:200])
    es = elems(t)
    if len(es) != 1 or perm(next(iter(es)).a[0]): raise Unknown(show(t)[:200])
    pat = cs[0].a[2]
    ch = chr(pat.a[0]) if pat.op == "const" and isinstance(pat.a[0], int) else pat.a[0] if pat.op == "const" else None
    if not isinstance(ch, str) or not ch: raise Unknown(show(pat))
    if last(cs[0].a[0]) != "split_inclusive":
        out = s.split(ch)
        return out[:-1] if last(cs[0].a[0]) == "split_terminator" and not out[-1] else out
    out, cur = [], ""
    for c in s:
        cur += c
        if c == ch: out.append(cur); cur = ""
    return out + ([cur] if cur else [])
def subtuples(x):
    if tok(x): yield x; return
    if hole(x): yield x; return
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple) or tok(y) and x[0] not in ("rep", "grp"): yield from subtuples(y)

def const_items(ctx, F, Q):
    fn = one(F, "::generate_const")
    seen = strs = 0
    for cls, (s, nul) in STRS.items():
        def ask(t):
            if t.op == "call" and last(t.a[0]) == "contains" and len(t.a) > 2 and calls(t.a[1], "try_get_slice_bytes_for_diagnostics"):
                p = t.a[2]
                if p.op == "const" and p.a[0] in (0, "\0"): return boolc(nul)
            if t.op == "call" and last(t.a[0]) == "is_empty" and calls(t.a[1], "try_get_slice_bytes_for_diagnostics"): return boolc(not s)
            return None
        A = AI(F, oracle=ask, opaque=lambda f: last(f) in OPQ, depth=14, alias=Q); A.optional = True
        r = A.run(fn)
        for x in alts(r):
            for fl in toks(A, x):
                fl = [t for t in fl if t not in ("__NEWLINE__", "__CAPTURE_BEGIN__", "__CAPTURE_END__")]
                if "=" not in fl: raise Broken("generate_const: no initialiser")
                i = fl.index("="); name, val = fl[i - 1], fl[i + 1:fl.index(";", i)]
                types = [t for t in fl[:i - 1] if hole(t) and calls(t[1], "format_ty_for_cc")]
                if not hole(name) or len(types) != 1 or len(val) != 1 or not hole(val[0]): raise Broken("generate_const: cannot tell type, name and value apart")
                if not {"const", "constexpr"} & {t for t in fl[:i - 1] if tok(t)}: ctx.violate("const:mutable", WL + " generate_const", "a constant is declared as a mutable variable")
                tyt, nm = types[0][1], items(name[1])
                seen += 1; ctx.obligation("constant: " + cls)
                tys = {c.a[2] for c in calls(tyt, "format_ty_for_cc")}
                for v in alts(calls(val[0][1], "parse")[0].a[1]) if calls(val[0][1], "parse") else [val[0][1]]:
                    if v.op == "fmt" or v.op == "const": raise Broken(f"generate_const: value {show(v)[:80]}")
                    vs = items(v)
                    ev = items(v, ("const_eval_poly",))
                    if not ev: ctx.violate("const:value", WL + " generate_const", f"the value of a constant is not the evaluated constant: {show(v)[:120]}"); continue
                    if len(vs | nm | items(tyt)) != 1: ctx.violate("const:item", WL + " generate_const", f"name, type and value are taken from different items: {sorted(vs | nm | items(tyt))}"); continue
                    sc = calls(v, "scalar_value_to_string")
                    if sc:
                        for c in sc:
                            k = [z.a[1] for z in subterms(c.a[3]) if z.op == "call" and last(z.a[0]) == "kind"]
                            if not k or set(k) != tys: ctx.violate("const:kind", WL + " generate_const", "the literal is printed for another type than the one declared")
                        continue
                    strs += 1; ctx.obligation("string constant " + cls)
                    try: texts_ = {value_text(A, f, s) for f in flat(A, v)}
                    except Unknown as e: raise Broken(f"string constant: {e.args[0]}")
                    for tx in sorted(texts_):
                        want = '::std::string_view("' + "".join("\\%03o" % b for b in s.encode()) + f'", {len(s.encode())})'
                        ir, e = containers.compile(ctx, "str", containers.PRE(["support/rs_std/str_ref.h"]) + f"#include <string_view>\nstatic constexpr rs_std::StrRef X = {tx};\nstatic_assert(::std::string_view(X) == {want});\n")
                        if ir is None: ctx.violate(f"string:{cls}", WL + " generate_const", f"a string constant {cls} is emitted as {tx[:80]}, which does not compile to the same string: " + next((l.split("error:")[1].strip() for l in e.splitlines() if "error:" in l), "")[:120])
    floor(ctx, "constants emitted", seen, 4); floor(ctx, "string constants emitted", strs, 4)

def enumerators(ctx, F, Q):
    fn = one(F, "::generate_cpp_enum")
    A = AI(F, oracle=lambda t: None, opaque=lambda f: last(f) in OPQ, depth=14, alias=Q); A.optional = True
    r = A.run(fn)
    seen = 0
    WE = W + " generate_cpp_enum"
    for x in alts(r):
        for fl in toks(A, x):
            if ":" not in fl: continue
            i = fl.index(":")
            und = next((t for t in fl[i + 1:] if hole(t)), None)
            body = next((t for t in fl[i + 1:] if isinstance(t, tuple) and t[0] == "grp" and t[1] == "B"), None)
            if und is None or body is None: raise Broken("generate_cpp_enum: no underlying type or body")
            u = calls(und[1], "cpp_enum_rust_underlying_type")
            if not u or not calls(und[1], "format_ty_for_cc"): ctx.violate("enum:underlying", WE, f"the underlying type of a C++ enum is {show(und[1])[:100]}, not the type of the Rust struct's field"); continue
            for seq in reps(body):
                seq = [t for t in seq if t not in ("__NEWLINE__", "__CAPTURE_BEGIN__", "__CAPTURE_END__")]
                if "=" not in seq: raise Broken("generate_cpp_enum: enumerator without a value")
                j = seq.index("="); name, val = seq[j - 1], seq[j + 1]
                if not hole(name) or not hole(val): raise Broken("generate_cpp_enum: cannot tell name and value apart")
                seen += 1; ctx.obligation("enumerator"); ctx.count("enumerators", 1)
                sc = calls(val[1], "scalar_value_to_string")
                if not sc or not calls(val[1], "const_eval_poly"): ctx.violate("enum:value", WE, f"an enumerator's value is {show(val[1])[:100]}"); continue
                e1, e2 = {z for z in outer(elems(name[1]))}, {z for z in outer(elems(sc[0].a[2]))}
                if e1 != e2 or len(e1) != 1: ctx.violate("enum:item", WE, "an enumerator's name and value come from different associated constants")
                k = {show(c) for c in calls(sc[0].a[3], "cpp_enum_rust_underlying_type")}
                if k != {show(c) for c in u}: ctx.violate("enum:kind", WE, "an enumerator's literal is printed for another type than the underlying type")
    floor(ctx, "enumerators emitted", seen, 1)
def outer(es): return es
def reps(t):
    if isinstance(t, tuple):
        if t and t[0] == "rep":
            for b in t[1:]:
                if isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, tuple) and "=" in c: yield c
                        elif isinstance(c, tuple): yield from reps(c)
            return
        for y in t: yield from reps(y)

# ------------------------------------------------------------------ primitive types
ASSERT = {"bool": "std::is_same_v<P, bool>", "f32": "std::is_same_v<P, float> && sizeof(P) == 4", "f64": "std::is_same_v<P, double> && sizeof(P) == 8", "char": "sizeof(P) == 4 && alignof(P) == 4 && !std::is_arithmetic_v<P>"}
for n, (k, v, sg, w) in KINDS.items():
    if k in ("Int", "Uint"): ASSERT[n] = f"std::is_integral_v<P> && !std::is_same_v<P, bool> && sizeof(P) == {w // 8} && std::is_signed_v<P> == {'true' if sg else 'false'}"
def primitives(ctx, F, Q):
    fn = one(F, "format_type::format_ty_for_cc")
    P = {n: (k, v) for n, (k, v, _, _) in KINDS.items() if k in ("Int", "Uint")}
    P.update(bool=("Bool", None), char=("Char", None), f32=("Float", "F32"), f64=("Float", "F64"))
    fixed = {1: kindterm("Int", "I64"), 0: kindterm("Uint", "U64")}
    jobs = sorted(P)
    def job(n):
        kt = kindterm(*P[n])
        def ask(t):
            if t.op == "call" and last(t.a[0]) == "kind":
                for c in calls(t.a[1], "to_ty"):
                    if c.a[-1].op == "const": return fixed[c.a[-1].a[0]]
                return kt
            return None
        A = AI(F, oracle=ask, opaque=lambda f: last(f) == "support_header", depth=6, alias=Q); A.optional = True
        r = A.run(fn); out = []
        for x in alts(r):
            for y in subterms(x):
                if y.op != "agg" or vname(y.a[0]) != "CcSnippet" or "prereqs" not in y.a[1]: continue
                pre = y.a[2 + y.a[1].index("prereqs")]
                inc = []
                for z in subterms(pre):
                    if z.op == "agg" and vname(z.a[0]) == "SystemHeader" and z.a[2].op == "const": inc.append(f"<{z.a[2].a[0]}>")
                    if z.op == "call" and last(z.a[0]) == "support_header" and z.a[2].op == "const": inc.append(f'"support/{z.a[2].a[0]}"')
                for f in flat(A, y.a[2 + y.a[1].index("tokens")]):
                    if f and all(tok(t) for t in f): out.append((" ".join(f), tuple(sorted(set(inc)))))
        return sorted(set(out))
    n = 0
    for ty, rows in zip(jobs, parallel(job, jobs)):
        for text_, inc in rows:
            n += 1; ctx.obligation(f"{ty} is {text_}"); ctx.count("primitive types", 1)
            src = "".join(f"#include {i}\n" for i in inc) + f"using P = {text_};\n#include <type_traits>\n" + f"static_assert({ASSERT[ty]});\n"
            ir, e = containers.compile(ctx, "prim", src)
            if ir is None: ctx.violate(f"type:{ty}", "cc_bindings_from_rs/generate_bindings/format_type.rs format_ty_for_cc", f"Rust's {ty} is {text_} in C++ (with {', '.join(inc) or 'no header'}): " + next((l.split("error:")[1].strip() for l in e.splitlines() if "error:" in l), "")[:120])
    floor(ctx, "primitive types printed", n, 12)

def run(ctx):
    F = ctx.facts(); Q = Queries(F)
    constants(ctx, F, Q)
    const_items(ctx, F, Q)
    enumerators(ctx, F, Q)
    primitives(ctx, F, Q)
