"""The thunk templates of property P13's abstract interpretation, for every valuation in which the type needs dropping: what C++ gives up must be moved into storage C++ never destroys and read out by Rust exactly once, and what Rust returns must be written (never assigned) into uninitialised storage and taken out exactly once."""
from core import *
from thunks import *
import importlib.util
_s = importlib.util.spec_from_file_location("p13", os.path.join(os.path.dirname(os.path.abspath(__file__)), "p13.py")); p13 = importlib.util.module_from_spec(_s); _s.loader.exec_module(p13)
RULE = "per valuation with drop glue: by-pointer arguments are std::move'd into a Slot and read() exactly once; encoded arguments are std::move'd; results are ptr::write'n / encoded once and taken from a Slot / decoded once"
LEVEL = "other"
def uses(ts, pat): return [len(re.findall(pat, t)) for t in ts]
def run(ctx):
    F = ctx.facts(harness=False)
    C = Cells(F)
    at = F.bodies[C.paths["call"]].where(); ri = F.bodies[C.paths["impl"]].where()
    cells = [(r, v, f) for r in ("param", "ret") for v, f in rows() if v["drop"] and not (v["cabi"] and v["br"] == "none")]
    def go(x):
        r, v, f = x
        val = dict(param=dict(base), ret=dict(base), feat=f); val[r] = dict(v)
        t = C.templates(val); ptr = v["br"] in ("lptr", "eptr")
        if r == "param": return cls_cc_arg(t["call"], ptr), cls_rs_body_param(t["impl"]), t
        return ret_cc(t["call"]), ret_rs_body(t["impl"]), t
    n, und = 0, []
    for (r, v, f), (cc, rs, t) in zip(cells, parallel(go, cells)):
        what = f"{'argument' if r == 'param' else 'result'}: {label(v, f)}"
        ctx.obligation(what + " -> C++ " + "/".join(sorted(cc)) + " | Rust " + "/".join(sorted(rs)))
        bad = None
        if any(x[0] == "?" for x in cc | rs) or not cc or not rs: und.append(what + f" {cc} {rs}"[:200])
        if r == "param":
            if "PTR/lent" in cc or "PTR/slot" in cc: bad = "C++ lends the argument instead of moving it out, so it is destroyed by C++ after Rust took it"
            elif "BUF/copied" in cc: bad = "C++ copies the argument into the buffer although Rust takes ownership"
            if not bad:
                for s in t["impl"]:
                    b = s[s.find("{ unsafe {"):]
                    if "PTR" in rs and any(x != 1 for x in [a.count(". read ( )") for a in split_alts_top(b[b.find("«") + 1:balanced(b, b.find("«")) - 1])]): bad = "Rust does not read the argument out exactly once"
        else:
            if "PTR/union" in cc and v["br"] not in ("lptr", "eptr"): bad = "C++ receives an owned result in a union whose destructor also destroys the moved-from value"
            if "?slot not taken" in cc: bad = "C++ never takes the result out of its slot (leak)"
            if "?buffer not decoded" in cc: bad = "C++ never decodes the result (leak)"
            if "?result not written" in rs: bad = "Rust does not write the result"
            for s in t["impl"]:
                k = s.count("ptr :: write (") + s.count("encode (") + s.count("⟨R2C⟩ (")
                if re.search(r"\* \(? ?⟨__ret_ptr⟩[^;=]*= ", s): bad = "Rust assigns to the uninitialised result storage (drops garbage)"
                if ("PTR" in rs or "BUF" in rs) and k > 1: bad = "Rust writes the result more than once"
            for s in resolved(t["call"]):
                if s.count("AssumeInitAndTakeValue") > 1: bad = "C++ takes the result twice"
        if bad: ctx.violate(f"ownership:{r}:{v['kind']}:{v['br']}:{'cabi' if v['cabi'] else 'nocabi'}", at if r == "param" or "C++" in bad else ri, f"{what}: {bad}")
        else: n += 1
    erow = [v for v in elem_rows() if v["drop"] and not v["cabi"]]
    for v, (rp, cp, rr, cr) in zip(erow, parallel(lambda v: p13.observe_elem(C, v), erow)):
        what = f"tuple element: {label(v, set())}"
        ctx.obligation(what + f" -> C++ {'/'.join(sorted(cp))}, {'/'.join(sorted(cr))}")
        if cp & {"PTR/lent", "PTR/slot"}: ctx.violate(f"ownership:element-argument:{v['kind']}", at, f"{what}: C++ lends the element instead of moving it out, so it is destroyed twice")
        elif cr & {"PTR/local", "?slot not taken"}: ctx.violate(f"ownership:element-result:{v['kind']}", at, f"{what}: C++ receives the element in storage that it also destroys, or never takes it")
        elif any(x[0] == "?" for x in cp | cr | rp | rr): und.append(what)
        else: n += 1
    # constructors: `*this` holds no value yet, so a result that needs drop must not be assigned to it
    sites = p13.ctor_sites(F)
    floor(ctx, "constructor_thunk_users", len(sites), 3)
    scells = [(p, c) for p in sorted(sites) for c in (True, False)]
    for (p, cabi), got in zip(scells, parallel(lambda x: p13.site_calls(C, x[0], x[1], True), scells)):
        what = f"constructor emitted by {last(p)} for a type with drop glue, {'' if cabi else 'not '}C-ABI compatible by value"
        ctx.obligation(what + " -> " + "/".join(sorted(got))[:100])
        if "VAL" in got: ctx.violate(f"ownership:constructor:{last(p)}:{'cabi' if cabi else 'nocabi'}", sites[p], f"{what}: the thunk's result is assigned to the uninitialised object, which drops the value that is not there")
        elif got != {"PTR"}: und.append(what)
        else: n += 1
    complete_loops(ctx, C)
    ctx.cov["valuations"] = len(cells) + len(erow); ctx.cov["undetermined"] = und[:10]
    if not ctx.viol: floor(ctx, "transfers_decided", n - len([u for u in und if not u.startswith(("tuple", "constructor"))]), len(cells) + len(erow) + len(scells))
