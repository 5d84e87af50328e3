"""Shared plumbing: scratch space, fact extraction, witness compilation, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TC = "nightly-2026-08-20"
sys.path.insert(0, os.path.join(VERIF, "lib"))

class Broken(Exception):
    """The analysis could not be carried out (neither 'holds' nor 'violated')."""

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.viol = []          # (key, where, message)
        self.cov = {}           # coverage counters / facts for the evidence file
        self.obl = []           # obligations (strings) examined
        self.tmp = tempfile.mkdtemp(prefix=f"vt-{pid}-", dir=os.environ.get("VERIF_SCRATCH", "/var/tmp"))
        self.level = "other"
        self.rule = ""
        self._facts = None
        self._harness = None
    # ---- reporting -------------------------------------------------------
    def violate(self, key, where, msg):
        """key identifies the construct (no line numbers); where is file:line for the reader."""
        if all(k != key for k, _, _ in self.viol): self.viol.append((key, where, msg))
    def obligation(self, s): self.obl.append(s)
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    # ---- environment -----------------------------------------------------
    def env(self, **k):
        e = {x: v for x, v in os.environ.items() if not x.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUST_BACKTRACE"))}
        e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", HOME=os.environ.get("HOME", "/root"), CARGO_PROFILE_DEV_DEBUG="0")
        e.update(k)
        return e
    def run(self, cmd, cwd=None, env=None, ok=True, timeout=800):
        r = subprocess.run(cmd, cwd=cwd, env=env or self.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        if ok and r.returncode:
            raise Broken(f"command failed ({r.returncode}): {' '.join(cmd)}\n{r.stdout[-2000:]}\n{r.stderr[-6000:]}")
        return r
    # ---- facts -----------------------------------------------------------
    def driver(self):
        p = os.path.join(self.tmp, "driver")
        if not os.path.exists(p): self.run(["bash", f"{VERIF}/driver/build.sh", p])
        return p
    def facts(self, repo=True, harness=True):
        """Compile /repo's current tree with the fact-extracting compiler driver."""
        if self._facts: return self._facts
        pre = os.environ.get("VERIF_FACTS_DIR")      # development only
        d = pre or os.path.join(self.tmp, "facts")
        if not pre:
            os.makedirs(d, exist_ok=True)
            drv = self.driver()
            if repo:
                e = self.env(VERIF_ROOTS=REPO, VERIF_FACTS=d, RUSTC_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(self.tmp, "target"))
                self.run(["cargo", "check", "--offline", "--locked", "-p", "cc_bindings_from_rs", "-p", "cargo-cpp_api_from_rust", "-p", "errors"], cwd=REPO, env=e)
            if harness:
                h = self.harness_dir()
                e = self.env(VERIF_ROOTS=f"{REPO}:{os.path.realpath(h)}/ctor_macro", VERIF_FACTS=d, RUSTC_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(self.tmp, "htarget-facts"))
                self.run(["cargo", "check", "--offline"], cwd=h, env=e)
        from facts import Facts
        self._facts = Facts(d)
        self.cov["crates_analysed"] = len(self._facts.crates)
        self.cov["function_bodies_loaded"] = len(self._facts.bodies)
        return self._facts
    def harness_dir(self):
        h = os.path.join(self.tmp, "harness")
        if not os.path.isdir(h): shutil.copytree(f"{VERIF}/harness", h)
        return h
    # ---- witnesses -------------------------------------------------------
    def harness_libs(self):
        """cargo check the support crates; {crate name: rmeta/so path} + deps dir."""
        if self._harness: return self._harness
        t = os.path.join(self.tmp, "htarget")
        r = self.run(["cargo", "check", "--offline", "--message-format=json"], cwd=self.harness_dir(), env=self.env(CARGO_TARGET_DIR=t))
        libs, dirs = {}, set()
        for l in r.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("reason") == "compiler-artifact":
                for f in j["filenames"]:
                    n = j["target"]["name"].replace("-", "_")
                    if f.endswith((".rmeta", ".so")):
                        dirs.add(os.path.dirname(f))
                        if not libs.get(n, "").endswith(".so"): libs[n] = f
        self._harness = (libs, sorted(dirs))
        return self._harness
    def rustc(self, src, out, cfgs=(), externs=(), extra=()):
        libs, deps = self.harness_libs()
        cmd = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "--error-format=json", "-A", "warnings", "-o", out]
        for d in deps: cmd += ["-L", f"dependency={d}"]
        for x in externs:
            a, _, b = x.partition("=")
            cmd += ["--extern", f"{a}={libs[b or a]}"]
        for c in cfgs: cmd += ["--cfg", c]
        r = self.run(cmd + list(extra) + [src], ok=False)
        errs = []
        for l in r.stderr.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("$message_type", "diagnostic") == "diagnostic" and j["level"] == "error" and not j["message"].startswith("aborting due"):
                lines = set()
                def add(sp):
                    while sp:
                        if os.path.basename(sp["file_name"]) == os.path.basename(src): lines.update(range(sp["line_start"], sp["line_end"] + 1))
                        sp = (sp.get("expansion") or {}).get("span")
                for sp in j["spans"]: add(sp)
                for ch in j["children"]:
                    for sp in ch["spans"]: add(sp)
                errs.append(((j.get("code") or {}).get("code") or ("lifetime" if "lifetime" in j["message"] else ""), lines, j["message"]))
        return r.returncode, errs

def parse_witnesses(path):
    """A witness file: `//# externs: a b` and `//# prelude` lines up to the first section; then sections
    `//% name | E0xxx E0yyy | claim`.  Lines ending in `//~` exist only in the violating program (and are
    where it must be rejected; `//^` marks such a place on a line of both), lines ending in `//+` only in its allowed twin, other lines in both.
    A section without error codes only has the twin."""
    pre, secs, cur = [], [], None
    ext = ""
    for l in open(path).read().splitlines():
        m = re.match(r"//# externs:\s*(.*)", l)
        if m: ext = m[1]; continue
        m = re.match(r"//% (\S+)\s*\|([^|]*)\|\s*(.*)", l)
        if m:
            cur = {"name": m[1], "expect": set(m[2].split()), "claim": m[3], "lines": []}
            secs.append(cur); continue
        (cur["lines"] if cur else pre).append(l)
    for x in secs: x["pre"], x["externs"] = pre, ext.split()
    return secs

# name-resolution errors say nothing about the rule unless the witness asks for them
NAME_ERRORS = {"E0425", "E0412", "E0432", "E0433", "E0405", "E0407", "E0422", "E0423", "E0531", "E0560", "E0658"}

def run_witnesses(ctx, files, jobs=8):
    """Each witness is compiled twice against the real crates: the twin must build, the
    violating program must be rejected with an expected error at a violating line."""
    secs = []
    for f in files:
        for x in parse_witnesses(os.path.join(VERIF, "witness", f + ".rs")):
            x["id"] = f + "/" + x["name"]; secs.append(x)
    ctx.harness_libs()
    def one(x):
        stem = os.path.join(ctx.tmp, x["id"].replace("/", "_"))
        src = x["pre"] + x["lines"]
        tw, vi = stem + "_twin.rs", stem + "_viol.rs"
        open(tw, "w").write("\n".join("" if re.search(r"//~\s*$", l) else l for l in src) + "\n")
        rc, errs = ctx.rustc(tw, stem + "_t.rmeta", (), x["externs"])
        res = []
        if rc: res.append((x["id"] + ":allowed-use-rejected", f"a use that the contract allows no longer compiles ({errs[0][0] if errs else ''} {errs[0][2] if errs else ''}): {x['claim']}"))
        if x["expect"]:
            open(vi, "w").write("\n".join("" if re.search(r"//\+\s*$", l) else l for l in src) + "\n")
            marks = {i + 1 for i, l in enumerate(src) if re.search(r"//[~^]\s*$", l)}
            rc2, errs2 = ctx.rustc(vi, stem + "_v.rmeta", (), x["externs"])
            if rc2 == 0: res.append((x["id"] + ":forbidden-use-accepted", f"a violating program now compiles: {x['claim']}"))
            elif not rc and not [e for e in errs2 if (e[1] & marks) and (e[0] in x["expect"] or e[0] not in NAME_ERRORS)]:
                res.append((x["id"] + ":rejected-for-other-reason", f"the violating program is rejected, but not by the rule it witnesses (expected {sorted(x['expect'])} at a marked line, got {[(e[0], sorted(e[1])[:3], e[2][:140]) for e in errs2[:3]]}): {x['claim']}"))
        return x, res
    with ThreadPoolExecutor(jobs) as ex:
        for x, res in ex.map(one, secs):
            ctx.obligation(f"{x['id']}: {x['claim']}")
            for k, m in res: ctx.violate(k, "witness/" + x["id"], m)
    ctx.cov["witness_programs_compiled"] = sum(2 if x["expect"] else 1 for x in secs)
    ctx.cov["forbidden_programs_rejected"] = sum(1 for x in secs if x["expect"])
    return len(secs)

def floor(ctx, name, got, least):
    """Fail closed: an analysis whose anchors have vanished has decided nothing."""
    ctx.cov[name] = got
    if got < least: raise Broken(f"{name}: only {got} found, expected at least {least} (the analysed code has moved; re-anchor the rule)")

def main(pid, fn, rule, level="other", explanation=""):
    import argparse, traceback
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(sys.argv[2:])
    ctx = Ctx(pid, a.tier)
    rc = 0
    try:
        try:
            fn(ctx)
        except Broken as e:
            print(f"ANALYSIS-INCOMPLETE property={pid}: {e}")
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
        known = {}
        kf = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l)
                if m and m[1] == pid: known[m[2]] = m[3]
        new = [v for v in ctx.viol if v[0] not in known]
        for k, w, m in ctx.viol:
            if k in known: print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        if new:
            rc = 1
            rp = f"{VERIF}/evidence/{pid}.violations.txt"
            with open(rp, "w") as f:
                for k, w, m in new: f.write(f"{k}\n  at {w}\n  {m}\n")
            for k, w, m in new[:20]: print(f"  {w}: {m} [{k}]")
            print(f"VIOLATION property={pid} replay={rp}")
        ev = {"property": pid, "tier": a.tier, "seed": ctx.seed, "level": level,
              "coverage": dict(ctx.cov, rule=rule, obligations=len(ctx.obl), discharged=max(0, len(ctx.obl) - len(ctx.viol)), items=ctx.obl[:400]) | ({"explanation": explanation} if level == "other" else {}),
              "wall_s": round(time.time() - ctx.t0, 2),
              "violations": [{"key": k, "where": w, "what": m} for k, w, m in ctx.viol]}
        if rc == 2: ev["coverage"]["incomplete"] = True
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
        if rc == 0: print(f"OK property={pid} obligations={len(ctx.obl)} wall={ev['wall_s']}s")
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    return rc
