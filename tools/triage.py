#!/usr/bin/env python3
"""triage.py BUGS.py [ID...]: tries planted changes in a scratch copy (/tmp/vtri against /tmp/repo_scratch): builds, runs the
repository's tests, replays the quick tier of the property (and of those in EXTRA) and counts the sessions that are flagged.
BUGS.py appends (id, prop, [(file, old, new)...]) to B."""
import sys, os, subprocess, re, time
S, T = "/tmp/repo_scratch", "/tmp/vtri"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
subprocess.run("rsync -a --delete --exclude .git --exclude work --exclude evidence --exclude harness/target /verif/ /tmp/vtri/ && mkdir -p /tmp/vtri/work && sed -i 's#path = \"/repo\"#path = \"/tmp/repo_scratch\"#' /tmp/vtri/harness/Cargo.toml", shell=True, check=True)
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", OPENBLAS_NUM_THREADS="1", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env["PATH"]
ns = {"B": []}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
seeds = os.environ.get("SEEDS", "1").split()
for id, prop, edits in ns["B"]:
    if want and id not in want: continue
    sh(f"git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", cwd=S)
    bad = None
    for f, old, new in edits:
        p = f"{S}/{f}"; t = open(p).read()
        if t.count(old) != 1: bad = (f, t.count(old), old[:60]); break
        open(p, "w").write(t.replace(old, new))
    if bad: print(id, "EDIT", bad, flush=True); continue
    os.utime(f"{S}/src/lib.rs")
    r = sh("cargo test --workspace --features openblas-system,stats --no-fail-fast --offline -- --test-threads 8 > /tmp/vtri/work/test.log 2>&1", cwd=S, env=env)
    sh("python3 /opt/vp/results.py /tmp/vtri/work/res.json cargo:/tmp/vtri/work/test.log")
    st = sh("python3 tools/stable.py /tmp/vtri/work/res.json", cwd=T).stdout.strip()
    if st != "missing []": print(id, "TESTS", st[:150], flush=True); continue
    r = sh("tools/rebuild.sh", cwd=T)
    res = []
    for p in prop.split():
        for s in seeds:
            r = sh(f"tools/dev.sh {p} quick {s}", cwd=T)
            log = open(f"{T}/work/dev-{p}-{s}/tr.log").read()
            sess = len(set(re.findall(r"BAD (\S+)", log))); cl = {}
            for c in re.findall(r"BAD \S+ \S+ (\S+)", log): cl[c.strip('",')] = cl.get(c.strip('",'), 0) + 1
            n = len(re.findall(r"BAD ", log))
            res.append(f"{p}/{s}: {n} " + " ".join(f"{a}={b}" for a, b in sorted(cl.items(), key=lambda x: -x[1])[:4]) + ("" if "No error" in log else " CRASH"))
    print(id, "|", " | ".join(res), flush=True)
sh("git checkout -q .", cwd=S)
