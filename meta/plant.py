#!/usr/bin/env python3
"""plant.py ID PROPERTY NEEDS BREAKS < edits   edits: blocks 'FILE\n<<<<\nold\n====\nnew\n>>>>'. Writes seeded/ID/patch.diff, meta.json."""
import sys, os, json, subprocess, re, tempfile, shutil
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(v, "seeded", id); os.makedirs(d, exist_ok=True)
t = "/tmp/plantrepo"
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", t + "/"], check=True)
subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
for f, old, new in re.findall(r"^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", sys.stdin.read(), re.S | re.M):
    p = os.path.join(t, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", t, "diff"], check=True, capture_output=True, text=True).stdout
assert diff
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
subprocess.run(["bash", os.path.join(v, "meta", "mkseed.sh"), id], check=True)
