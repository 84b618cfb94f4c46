#!/usr/bin/env python3
"""newbug.py ID PROP: reads a description from stdin (python dict literal: file, edits=[(old,new)...], needs, breaks, main) and writes seeded/ID."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def bug(id, prop, edits, needs, breaks, main):
    S = "/tmp/repo_scratch"
    subprocess.run(f"git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", shell=True, cwd=S, check=True)
    for f, old, new in edits:
        p = f"{S}/{f}"; t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
    subprocess.run("git checkout -q .", shell=True, cwd=S, check=True)
    shutil.copy(f"{V}/tools/demo.sh", f"{d}/demo.sh")
    open(f"{d}/main.rs", "w").write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
