#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
def prop(pid, title, statement, over, qtext, why, files, mech, technique, level="other", note="", observe=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {})),
                  _t=technique, _l=level, _n=note))
def na(pid, reason): NA.append(dict(property=pid, reason=reason))

WT = "type-level encoding: compile-fail witnesses against the real crates, each paired with a compiling twin"
WN = ("Each clause is one or more client programs type-checked and borrow-checked (never run) against the crates built from /repo's current tree: the violating "
      "program must be rejected at the marked line, its one-line-different twin must be accepted. Trusts rustc; the argument is per witness family (generic positions, "
      "signatures and auto traits do not depend on the witness's concrete types).")

exec(open(os.path.join(V, "props_list.py")).read())

def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    nas = {n["property"] for n in NA}
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        i = p["id"]
        if i in nas: continue
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough", technique=p["_t"], level=p["_l"], level_note=p["_n"]))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA,
                   notes="All checks are static: they compile /repo's current tree with a fact-extracting rustc driver (MIR, items) or type-check client programs or C++ syntax trees; no code of /repo is run, except that the compiler runs its procedural macros while expanding client programs."),
              open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
main()
