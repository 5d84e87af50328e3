"""The calling convention of a generated thunk, as each of the four generators sees it.

Cells: for every feasible valuation of what the generator asks about a type, the
convention chosen by
  D  the C++ declaration of the thunk          (generate_thunk_decl)
  R  the Rust definition's signature           (generate_thunk_impl)
  V  the Rust definition's body                (generate_thunk_impl)
  C  the C++ call of the thunk                 (generate_thunk_call)
is read off the token templates they emit.
"""
import re
from gen import *
from sym import show

GEN = "cc_bindings_from_rs"
def plt(p): return T("agg", "BridgedTypeConversionInfo::PointerLikeTransmute", ("is_pointer",), boolc(p))
EXT = T("agg", "BridgedTypeConversionInfo::ExternCFuncConverters", ("cpp_to_rust_converter", "rust_to_cpp_converter"), T("mark", "C2R"), T("mark", "R2C"))
def legacy(cpp, info): return T("agg", "BridgedType::Legacy", ("cpp_type", "include_paths", "conversion_info"), T("agg", "CcType::" + cpp, ("cpp_type",), T("mark", "cpp")), T("mark", "inc"), info)
BR = {"none": NONE, "lptr": some(legacy("Pointer", plt(True))), "lval": some(legacy("Other", plt(False))), "eptr": some(legacy("Pointer", EXT)), "eval": some(legacy("Other", EXT)),
      "comp": some(T("agg", "BridgedType::Composable", ("0",), T("agg", "BridgedTypeComposable::BridgedTypeComposable", ("cpp_type", "prereqs", "crubit_abi_type"), T("mark", "cpp"), T("default"), T("mark", "abi"))))}
BRNAME = {"none": "not bridged", "lptr": "bridged by pointer transmute", "lval": "bridged by value transmute", "eptr": "bridged by extern \"C\" converters (pointer)", "eval": "bridged by extern \"C\" converters (value)", "comp": "composably bridged"}

def roleof(t):
    t = strip(t)
    if t.op == "field" and t.a[1] == "ty" and t.a[0].op in ("elem", "index") and strip(t.a[0].a[0]).op == "arg": return "param"
    r = role(t)
    if r: return r
    if t.op == "arg":
        n = t.a[1]
        if n == "self_ty": return "ret"
        if "ret" in n: return "ret"
        if n == "ty": return "param"
    if t.op == "field" and t.a[1] == "self_ty": return "ret"
    return None

class Valuation:
    """oracle for one cell"""
    def __init__(self, v): self.v, self.unresolved = v, set()
    def get(self, t, k):
        r = roleof(t)
        if r in self.v: return self.v[r].get(k)
        self.unresolved.add((k, show(t)[:120]))
        return None
    def __call__(self, t):
        v = self.v
        if t.op == "disc":
            x = t.a[0]
            if x.op == "call" and last(x.a[0]) == "kind":
                k = self.get(x.a[1], "kind")
                return frozenset({k}) if k else None
            return None
        if t.op != "call": return None
        n = last(t.a[0]); A = [x for x in t.a[1:] if isinstance(x, T)]
        if n == "is_bridged_type":
            k = self.get(A[-1], "br")
            return ok(BR[k]) if k is not None else None
        if n == "is_c_abi_compatible_by_value":
            k = self.get(A[-1], "cabi")
            return boolc(k) if k is not None else None
        if n == "contains":
            f = flags_atom(t)
            return boolc(f in v["feat"]) if f else None
        if n == "get_async_future_output_ty": return ok(A[-1])
        if n == "format_ty_for_rs": return ok(T("cat", T("empty"), T("tok", "RS_T")))
        if n == "format_ty_for_cc": return ok(snippet(T("tok", "CC_T")))
        if n == "format_param_types_for_cc_thunk": return ok(T("list", T("agg", "CcParamTy::CcParamTy", ("snippet", "is_lifetime_bound"), snippet(T("tok", "CC_T")), FALSEc)))
        if n == "is_cpp_pointer_type": return some(T("agg", "CcConstQualifier::Mut", ())) if v["param"]["br"] in ("lptr", "eptr") else NONE
        if n == "ty_adt_def":
            r = roleof(A[0])
            if r in v: return some(T("adt", r)) if v[r]["kind"] == "Adt" else NONE
        if n == "new" and "BridgedBuiltin" in t.a[0]:
            for x in A:
                if x.op == "adt": return some(T("agg", "BridgedBuiltin::Option", ())) if v[x.a[0]].get("opt") else NONE
        if n == "needs_drop":
            k = self.get(A[0], "drop")
            return boolc(k) if k is not None else None
        if n == "matches_qualified_name": return boolc(bool(v["param"].get("rref")))
        if n == "has_move_ctor_and_assignment_operator": return some(T("mark", "mv"))
        if n == "parse_rs_std_template_specialization": return NONE
        if n == "is_empty" and "Tuple" in show(t): return FALSEc
        if n == "is_never": return FALSEc
        if n == "eq" and "Never" in show(t): return FALSEc
        if n == "does_type_implement_trait": return TRUEc
        return None

OPAQUE = ("get_async_future_output_ty", "make_rs_ident", "expect_format_cc_ident", "format_cc_ident", "is_ctor_by_value", "fn_arg_idents", "refs_to_check_for_aliasing", "make_thunk_name", "symbol_canonical_name")
class Cells:
    def __init__(self, F):
        self.F = F
        self.paths = {k: one(F, "::" + n, GEN) for k, n in (("decl", "generate_thunk_decl"), ("impl", "generate_thunk_impl"), ("call", "generate_thunk_call"))}
        from collections import Counter
        self.steps = 0; self.partial = set()
    def args(self, path, **kw):
        b = self.F.bodies[path]
        return [kw.get(b.name(i)) if b.name(i) in kw else T("arg", i, b.name(i) or "") for i in range(1, b.argc + 1)]
    def run(self, path, args, val):
        o = Valuation(val)
        A = AI(self.F, oracle=o, opaque=lambda f: opaque(f, OPAQUE), rec=2 if 'nested' in val else 1, depth=18)
        A.optional = True; r = A.run(path, args)
        self.steps += A.steps; self.partial |= A.partial
        out, failed = set(), False
        for x in alts(r):
            if x.op == "fail" or (x.op == "agg" and vname(x.a[0]) == "Err"): failed = True; continue
            if x.op == "agg" and vname(x.a[0]) == "Ok": x = x.a[2]
            if x.op == "agg" and x.a[0] in ("tuple",): x = x.a[2]
            if x.op == "agg" and "tokens" in x.a[1]: x = x.a[2 + x.a[1].index("tokens")]
            for s in flat(A, x): out.add(text(s))
        return sorted(out), failed
    def templates(self, val, ctor=False, is_async=False):
        kw = dict(is_constructor=boolc(ctor), is_async=boolc(is_async), within_template=TRUEc, self_param=T("agg", "ThunkSelfParameter::ThunkSelfParameter", ("is_trait_method", "receiver"), FALSEc, NONE))
        return {k: self.run(p, self.args(p, **kw), val)[0] for k, p in self.paths.items()}

def resolved(ts):
    """without the templates whose statements are an unresolved loop value (the zero-iteration alternative)"""
    def bare(t):
        d = 0
        for w in t.split():
            if w == "«": d += 1
            elif w == "»": d -= 1
            elif w == "⟨?⟩" and d == 0: return True
        return False
    return [t for t in ts if not bare(t)] or ts
def split_alts(s): return [x.strip().removeprefix(",").strip() for x in s.split("¦")]
def balanced(s, i):
    """s[i] is '('; index after the matching ')'"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in "({[«": d += 1
        elif s[j] in ")}]»":
            d -= 1
            if d == 0: return j + 1
    return len(s)
def call_args(s, head):
    """alternatives of the argument list following the match of `head`"""
    m = None
    for m in re.finditer(head, s): pass
    if not m: return None
    i = s.index("(", m.end() - 1)
    body = s[i + 1:balanced(s, i) - 1].strip()
    if body.startswith("«") and body.endswith("»"): body = body[1:-1]
    return {re.sub(r"\s+", " ", x) for x in split_alts(body) if x.strip()}

def cls_decl_param(ts, ptr):
    out = set()
    for t in ts:
        for a in call_args(t, r"⟨thunk_name⟩ \(") or ():
            if "__ret_ptr" in a: continue
            a = a.replace("const ", "").strip()
            out.add({"unsigned char *": "BUF", "void * *": "TUP", "void *": "PTR", "CC_T *": "PTR", "CC_T": "P1" if ptr else "VAL"}.get(a, "?" + a))
    return out
def cls_rs_param(ts):
    out = set()
    for t in ts:
        m = re.search(r'extern "C" fn ⟨thunk_name⟩ \(', t)
        if not m: out.add("?no extern \"C\" fn"); continue
        for a in call_args(t[:balanced(t, m.end() - 1)], r"⟨thunk_name⟩ \(") or ():
            if "__ret_ptr" in a: continue
            ty = re.sub(r"^\S+ : ", "", a)
            c = ("BUF" if ty == "* const core :: ffi :: c_uchar" else "TUP" if re.match(r"\* const \[ \* const core :: ffi :: c_void", ty) else "VOIDP" if re.match(r"\* (const|mut) core :: ffi :: c_void$", ty)
                 else "PTR" if re.match(r"\* (mut|const) RS_T$", ty) else "VAL" if ty == "RS_T" else "?" + ty)
            out.add(c)
    return out
def cls_rs_body_param(ts):
    out = set()
    for t in ts:
        m = re.search(r"unsafe \{ «", t)
        if not m:
            out.add("VAL"); continue
        i = m.end() - 1
        body = t[i:balanced(t, i)]
        for a in split_alts_top(body[1:-1]):
            if not a: out.add("VAL"); continue
            if re.search(r"\bdecode \(", a): out.add("BUF")
            elif re.search(r"\( \( \* .*?\) \[", a): out.add("TUP")
            elif "transmute (" in a: out.add("P1")
            elif re.search(r"⟨C2R⟩", a): out.add("CONV")
            elif re.search(r"\. read \( \)", a): out.add("PTR")
            elif re.fullmatch(r"⟨[^⟩]*⟩", a): out.add("VAL")
            else: out.add("?" + a[:80])
    return out
def split_alts_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "({[«": d += 1
        elif ch in ")}]»": d -= 1
        if ch == "¦" and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip())
    return out
def cls_cc_arg(ts, ptr):
    out = set()
    for t in resolved(ts):
        for a in call_args(t, r"⟨thunk_name⟩ \(") or ():
            if re.fullmatch(r"⟨[^⟩]*_slot⟩ \. Get \( \)", a): out.add("PTR/moved" if re.search(r"Slot ⟨[^⟩]*_slot⟩ \( \( :: std :: move \(", t) else "PTR/slot")
            elif re.fullmatch(r"& ⟨[^⟩]*⟩", a): out.add("PTR/lent")
            elif re.fullmatch(r"⟨[^⟩]*_buffer⟩", a): out.add("BUF/moved" if re.search(r"Encode < [^>]*> \( .*?:: std :: move \(", t) else "BUF/copied" if "Encode <" in t else "?buffer not encoded")
            elif re.fullmatch(r"⟨[^⟩]*_cabi⟩", a): out.add("TUP" if re.search(r"void \* ⟨[^⟩]*_cabi⟩ \[ \] = ", t) else "?tuple array missing")
            elif re.fullmatch(r"⟨[^⟩]*⟩", a) or re.fullmatch(r":: std :: move \( ⟨[^⟩]*⟩ \)", a): out.add("P1" if ptr else "VAL")
            else: out.add("?" + a[:80])
    return out
def ret_decl(ts):
    out = set()
    for t in ts:
        m = re.search(r'^(.*?)⟨thunk_name⟩ \(', t)
        if not m: out.add("?"); continue
        pre = re.sub(r'extern "C"|« [^»]*»', "", m.group(1)).strip()
        if not re.search(r'extern "C"', m.group(1)): out.add('?not extern "C"')
        rp = [a for a in call_args(t, r"⟨thunk_name⟩ \(") or () if "__ret_ptr" in a]
        if not rp: out.add("VAL" if pre == "CC_T" else "?" + pre); continue
        if pre != "void": out.add("?" + pre)
        for a in rp:
            a = a.replace("__ret_ptr", "").strip()
            out.add({"unsigned char *": "BUF", "void * *": "TUP", "void *": "PTR", "CC_T *": "PTR"}.get(a, "FUT" if "DynErasedFuture" in a and a.endswith("*") else "?" + a))
    return out
def ret_rs_sig(ts):
    out = set()
    for t in ts:
        m = re.search(r'no_mangle .*?extern "C" fn ⟨thunk_name⟩ \(', t)
        if not m: out.add('?no #[no_mangle] extern "C" fn'); continue
        j = balanced(t, m.end() - 1)
        sig = t[:j]; rty = t[j:].strip().removeprefix("->").strip().split(" {")[0].strip()
        rp = [a for a in call_args(sig, r"⟨thunk_name⟩ \(") or () if "__ret_ptr" in a]
        if not rp: out.add("VAL" if rty == "RS_T" else "?" + rty); continue
        if rty != "( )": out.add("?" + rty)
        for a in rp:
            ty = re.sub(r"^\S+ : ", "", a)
            out.add("BUF" if re.fullmatch(r"\* mut core :: ffi :: c_uchar", ty) else "PTR" if re.fullmatch(r"\* mut core :: ffi :: c_void", ty) or ty == "* mut RS_T" else "FUT" if "DynErasedFuture" in ty else "?" + ty)
    return out
def ret_rs_body(ts):
    out = set()
    for t in ts:
        b = t[t.find("{"):]
        if re.search(r"\bencode \(", b): out.add("BUF")
        elif re.search(r"DynErasedFuture :: new", b): out.add("FUT")
        elif re.search(r"let \[ .*?\] = \* \(", b): out.add("TUP")
        elif re.search(r"ptr :: write \(", b): out.add("PTR")
        elif re.search(r"⟨R2C⟩", b): out.add("PTR/conv")
        elif re.search(r"⟨__rs_return_value⟩", b): out.add("?result not written")
        else: out.add("VAL")
    return out
def ret_cc(ts):
    out = set()
    for t in resolved(ts):
        if re.search(r"Slot < :: crubit :: DynErasedFuture", t): out.add("FUT")
        elif re.search(r"unsigned char ⟨[^⟩]*⟩ \[", t): out.add("BUF" if re.search(r"return :: crubit :: internal :: Decode", t) else "?buffer not decoded")
        elif re.search(r"void \* ⟨[^⟩]*⟩ \[ \] =", t): out.add("TUP")
        elif re.search(r"Slot < CC_T > ⟨", t): out.add("PTR/slot" if "AssumeInitAndTakeValue" in t and ". Get ( )" in t else "?slot not taken")
        elif re.search(r"\bunion ⟨", t): out.add("PTR/union")
        elif re.search(r"return [^;]*⟨thunk_name⟩ \(", t): out.add("VAL")
        elif re.search(r"CC_T \* ⟨[^⟩]*⟩ = & ⟨", t): out.add("PTR/local")
        else: out.add("?" + t[-120:])
    return out
base = dict(br="none", cabi=True, kind="Int", drop=False)
def rows(thorough=False):
    """feasible valuations of one type: (label, values, features)"""
    out = []
    for lct in (False, True):
        feat = {"LayoutCompatTuple"} if lct else set()
        for asg in ((False, True) if True else (False,)):
            f2 = feat | ({"AlwaysSpecializeGenericsInCppApiFromRust"} if asg else set())
            for drop in (False, True):
                for br in BR:
                    if br == "none":
                        for kind in ("Adt", "Tuple", "Array"):
                            out.append((dict(br=br, cabi=False, kind=kind, drop=drop), f2))
                        if not drop: out.append((dict(br=br, cabi=False, kind="Ref", drop=False), f2)); out.append((dict(br=br, cabi=False, kind="RawPtr", drop=False), f2)); out.append((dict(br=br, cabi=False, kind="Char", drop=False), f2))
                        for kind in ("Adt",) + (("Int", "Bool", "Ref", "RawPtr", "FnPtr", "Char", "Float", "Uint") if not drop else ()): out.append((dict(br=br, cabi=True, kind=kind, drop=drop), f2))
                    else:
                        out.append((dict(br=br, cabi=False, kind="Adt", drop=drop), f2))
                        if br != "comp": out.append((dict(br=br, cabi=True, kind="Adt", drop=drop), f2))
    return out
def label(v, feat): return f"{v['kind']}, {BRNAME[v['br']]}, {'' if v['cabi'] else 'not '}C-ABI compatible by value, {'needs drop' if v['drop'] else 'no drop glue'}" + (f", features {'+'.join(sorted(feat))}" if feat else "")

def elem_cc_param(ts):
    out = set()
    for t in resolved(ts):
        hit = False
        for m in re.finditer(r"auto (&&|\*) ⟨[^⟩]*_cabi\}_\{elem\}⟩ = ([^;]*) ;", t):
            hit, x = True, m.group(2).strip()
            if m.group(1) == "*": out.add("TUP" if re.fullmatch(r"& ⟨[^⟩]*⟩", x) else "?" + x)
            elif re.fullmatch(r"⟨[^⟩]*_slot⟩ \. Get \( \)", x): out.add("PTR/moved" if ":: std :: move" in t[:m.start()] else "PTR/slot")
            elif re.fullmatch(r"& ⟨[^⟩]*⟩", x): out.add("PTR/lent")
            elif re.fullmatch(r"⟨[^⟩]*⟩", x): out.add("VAL")
            else: out.add("?" + x[:80])
        if hit and not re.search(r"void \* ⟨[^⟩]*_cabi⟩ \[ \] = \{ « & ⟨[^⟩]*_cabi\}_\{elem\}⟩", t): out.add("?array of element addresses missing")
        if not hit: out.add("?no element")
    return out
def elem_rs_param(ts):
    out = set()
    for t in ts:
        b = t[t.find("{ unsafe {"):]
        hits = list(re.finditer(r"\{ let (⟨[^⟩]*_\{i\}⟩) : (.*?) = \( (?:\( )?(.*?)\[ ⟨i⟩ \] as \* const (.*?) \) \. read \( \) ;(.*?)\} , »", b))
        if not hits: out.add("?no element read")
        for m in hits:
            ty, ty2, conv = m.group(2), m.group(4).split(" ¦ ")[0], m.group(5)
            if ty2 != ty: out.add(f"?read as {ty2}, declared {ty}"); continue
            c = "TUP" if re.fullmatch(r"\* const \[ \* const core :: ffi :: c_void ; ⟨[^⟩]*⟩ \]", ty) else "PTR" if re.fullmatch(r"\* (mut|const) RS_T", ty) else "VAL" if ty == "RS_T" else "?" + ty
            rd = ". read ( )" in conv
            if c == "PTR" and not rd or c == "VAL" and rd: c = "?" + c + (" read" if rd else " not read")
            out.add(c)
    return out
def elem_rs_ret(ts):
    out = set()
    for t in ts:
        m = re.search(r"let \[ .*?\] = \* \( .*?\) ;(.*)$", t)
        if not m: out.add("?no unpacking"); continue
        rest = m.group(1)
        if re.search(r"let \[ .*?\] = \* \(", rest): out.add("TUP")
        elif re.search(r"ptr :: write \(", rest): out.add("WRITE")
        else: out.add("?" + rest[:80])
    return out
def elem_cc_ret(ts):
    out = set()
    for t in resolved(ts):
        inner = t
        if re.search(r"void \* ⟨__\{\{[^⟩]*\}_\{elem\}\}_storage⟩ \[ \] =", t): out.add("TUP")
        elif re.search(r"Slot < CC_T > ⟨__\{\{[^⟩]*\}_\{elem\}\}", t): out.add("PTR/slot" if re.search(r"std :: move \( ⟨__\{\{[^⟩]*\}_\{elem\}\}[^⟩]*⟩ \) \. AssumeInitAndTakeValue", t) else "?slot not taken")
        elif re.search(r"CC_T \* ⟨__\{\{[^⟩]*\}_\{elem\}\}_storage⟩ = & ⟨", t): out.add("PTR/local" if re.search(r"\* ⟨__\{\{[^⟩]*\}_\{elem\}\}_storage⟩", t) else "?local not read")
        else: out.add("?" + t[:100])
        if not re.search(r"std :: make_tuple \(", t): out.add("?no make_tuple")
    return out
def elem_rows():
    out = []
    for drop in (False, True):
        for kind, cabi in (("Adt", False), ("Adt", True), ("Tuple", False), ("Array", False)) + ((("Int", True), ("Ref", True), ("RawPtr", True), ("Bool", True), ("Char", False), ("Char", True), ("Ref", False), ("RawPtr", False)) if not drop else ()):
            out.append(dict(br="none", cabi=cabi, kind=kind, drop=drop))
    return out

def complete_loops(ctx, C):
    """no generator of a thunk leaves out parameters, elements or arguments (skip, take, step_by, ...)"""
    for k in ("Tuple", "Array", "Adt"):
        for drop in (False, True):
            C.templates(dict(param=dict(base, kind=k, drop=drop, cabi=False), ret=dict(base, kind=k, drop=drop, cabi=False), feat=set()))
    ctx.obligation("every loop over parameters, arguments and elements visits all of them")
    for fn, how in sorted(C.partial): ctx.violate(f"thunk-partial:{last(fn.split('::{closure')[0])}:{how}", C.F.bodies[fn].where() if fn in C.F.bodies else fn, f"`{how}` leaves elements out of a sequence from which the thunk's parameters, arguments or conversions are generated")
