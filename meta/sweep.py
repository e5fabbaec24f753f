#!/usr/bin/env python3
"""sweep.py [-b BUDGET] [-k KEY] PATTERN...   apply the mutants whose name matches in a scratch copy of /repo and run
their properties' checks there; prints caught / missed / no build."""
import sys, os, subprocess, fnmatch, re, time
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(v, "meta"))
from mutants import M
args = sys.argv[1:]; budget = None; key = "mut"; props = None
while args and args[0].startswith("-"):
    o = args.pop(0); a = args.pop(0)
    if o == "-b": budget = a
    if o == "-k": key = a
    if o == "-p": props = a.split(",")
R, HD, T = f"/tmp/{key}repo", f"/tmp/{key}harness", f"/tmp/{key}ht"
sh = lambda *a, **k: subprocess.run(a, check=True, **k)
for name, ps, edits in M:
    if not any(fnmatch.fnmatch(name, p) for p in args or ["*"]): continue
    sh("rsync", "-a", "--delete", "--exclude", "target", os.environ.get("SWEEP_REPO", "/repo/"), R + "/")
    sh("git", "-C", R, "checkout", "-q", "--", ".")
    ok = True
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(old) != 1:
            print(f"{name}: MISFIT {f} {s.count(old)}", flush=True); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    os.makedirs(HD, exist_ok=True)
    sh("rsync", "-a", "--delete", f"{v}/harness", f"{v}/shims", f"{v}/check.sh", f"{v}/known-findings.txt", HD + "/")
    c = os.path.join(HD, "harness/Cargo.toml"); s = open(c).read()
    open(c, "w").write(s.replace("/repo/crates", R + "/crates"))
    for q in props or ps:
        t = time.time()
        env = dict(os.environ, HARNESS_TARGET=T); env.pop("VERIF_DIR", None)
        if budget: env["HARNESS_BUDGET"] = budget
        r = subprocess.run(["bash", "./check.sh", q, "quick"], cwd=HD, env=env, capture_output=True, text=True)
        out = r.stdout + r.stderr
        what = {0: "MISSED", 1: "caught", 2: "NO BUILD"}.get(r.returncode, str(r.returncode))
        line = next((l for l in out.splitlines() if "class" in l.lower() or "violation" in l.lower()), out.strip().splitlines()[-1] if out.strip() else "")
        ln = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        print(f"{name} {q}: {what} {time.time()-t:.0f}s {line[:220]}", flush=True)
        if r.returncode == 2: print(out[-1500:], flush=True)
        if r.returncode == 1: break
    sh("git", "-C", R, "checkout", "-q", "--", ".")
