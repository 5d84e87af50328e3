#!/usr/bin/env python3
"""Development helper: mkseed.py SPEC.py -- makes /verif/seeded/<id>/ from a python spec.
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], FILES={name: text} (must include demo.sh)."""
import sys, os, json, subprocess
def make(ns):
    d = f"/verif/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git","-C","/repo","status","--porcelain","-uno"],capture_output=True,text=True).stdout
    try:
        for f, old, new in ns["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."])
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    for n, t in ns["FILES"].items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t.lstrip("\n"))
    print("made", ns["ID"])
class R: pass
def seed(**k): make(k)
if __name__ == "__main__":
    g = {"seed": seed}
    exec(open(sys.argv[1]).read(), g)
