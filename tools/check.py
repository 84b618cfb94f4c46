#!/usr/bin/env python3
"""check.py PROP quick|thorough: decide one property against /repo's working tree.

 1. rebuild the harness crate (path dependency on /repo) and, if needed, the Java numerics of TLC
 2. TLC checks the abstract models of the property (spec/MC*.tla) exhaustively
 3. TLC writes scenarios (spec/Gen.tla, spec/Session.tla); the harness replays them into the real crate
 4. TLC validates the recorded executions against spec/Trace.tla; every BAD line is a violated clause
exit 0 held, 1 violated (VIOLATION line), 2 the check itself failed."""
import sys, os, json, re, subprocess, time, fnmatch, shutil, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP, TIER = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
BUDGET = float(os.environ.get("GLM_BUDGET", "600"))          # thorough: seconds of exploration
W = os.path.join(V, "work", f"check-{PROP}-{os.getpid()}")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           OPENBLAS_NUM_THREADS="1", GLM_PROP=PROP, GLM_TIER=TIER)
LIB = "/opt/veriftools/tla"

def die(msg):
    print(f"ERROR property={PROP} {msg}"); shutil.rmtree(W, ignore_errors=True); sys.exit(2)
def run(cmd, log, env=ENV, cwd=V, limit=800):
    with open(log, "w") as f:
        try: return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, timeout=limit).returncode
        except subprocess.TimeoutExpired: return 124
def tail(p, n=15): return "".join(open(p, errors="replace").readlines()[-n:])

def build():
    src = sorted(os.listdir(f"{V}/java/glm")); cls = f"{V}/java/classes/glm"
    if not os.path.isdir(cls) or any(os.path.getmtime(f"{V}/java/glm/{s}") > os.path.getmtime(cls) for s in src):
        os.makedirs(cls, exist_ok=True)
        rc = run(["javac", "-cp", f"{LIB}/tla2tools.jar:{LIB}/CommunityModules-deps.jar", "-d", f"{V}/java/classes"]
                 + [f"{V}/java/glm/{s}" for s in src], f"{W}/javac.log")
        if rc: die("javac failed\n" + tail(f"{W}/javac.log"))
        os.utime(cls)
    # force a rebuild from /repo's current tree whatever the time stamps say
    fp = f"{V}/harness/target/debug/.fingerprint"
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("ndarray-glm-"): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rc = run(["cargo", "build", "--offline"], f"{W}/cargo.log", cwd=f"{V}/harness")
    if rc: die("the harness does not build against /repo\n" + tail(f"{W}/cargo.log", 40))

def tlc(mod, cfg, log, env=ENV, args=()):
    cmd = ["java", "-Xmx8g", "-Xss64m", f"-Djava.io.tmpdir={W}", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:glm.Overrides", "-XX:+UseParallelGC",
           "-cp", f"{V}/java/classes:{LIB}/tla2tools.jar:{LIB}/CommunityModules-deps.jar", "tlc2.TLC",
           "-config", cfg, "-metadir", f"{W}/meta-{mod}-{time.time()}", *args, mod]
    rc = run(cmd, log, env=env, cwd=f"{V}/spec", limit=850)
    txt = open(log, errors="replace").read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", txt)
    return rc, txt, (tuple(map(int, m[-1])) if m else None)

def batch(seed, tag, acc):
    """generate, replay, validate once"""
    env = dict(ENV, VERIF_SEED=str(seed), GLM_OUT=f"{W}/sc-{tag}.ndjson", GLM_TRACE=f"{W}/tr-{tag}.ndjson")
    rc, txt, st = tlc("Gen", "Gen.cfg", f"{W}/gen-{tag}.log", env)
    if rc or not os.path.exists(env["GLM_OUT"]): die(f"scenario generation failed\n" + tail(f"{W}/gen-{tag}.log"))
    rc = run([f"{V}/harness/target/debug/glm-harness", env["GLM_OUT"], env["GLM_TRACE"]], f"{W}/run-{tag}.log", env)
    if rc: die(f"harness exit {rc}\n" + tail(f"{W}/run-{tag}.log"))
    sc = {}
    with open(env["GLM_OUT"]) as f:
        for line in f: x = json.loads(line); sc[x["sid"]] = line
    tr, want = {}, 0
    with open(env["GLM_TRACE"]) as f:
        for line in f:
            x = json.loads(line); tr[x["sid"]] = line; want += len(x["ev"]) + 1
            acc["sessions"] += 1; acc["kinds"][x["kind"]] += 1
            for e in x["ev"]:
                acc["events"][e["e"]] += 1
                if "out" in e: acc["outcomes"][e["e"] + ":" + e["out"] + (":" + e["err"] if e["out"] == "err" else "")] += 1
                for q in e.get("q", []): 
                    if e["e"] == "obs": acc["answers"][q["q"] + ("" if q["st"] == "ok" else ":" + q["st"])] += 1
    if set(sc) != set(tr): die(f"{len(sc)} scenarios but {len(tr)} recorded sessions")
    rc, txt, st = tlc("Trace", "Trace.cfg", f"{W}/trace-{tag}.log", env, ["-workers", "8"])
    if rc or st is None: die(f"trace validation failed (TLC exit {rc})\n" + "\n".join(l for l in txt.splitlines() if "BAD" not in l)[-3000:])
    if st[1] != want or st[2] != 0: die(f"trace validation incomplete: {st[1]} of {want} states")
    acc["states"] += st[1]; acc["transitions"] += st[0] - len(tr)
    if not acc["samples"]:
        for sid in list(sc)[:: max(1, len(sc) // 3)][:3]: acc["samples"].append(json.loads(sc[sid]))
    bad = collections.defaultdict(list)
    for sid, ev, cl in re.findall(r'"BAD (\S+) (\d+) (\S+)"', txt):
        if [int(ev), cl] not in bad[sid]: bad[sid].append([int(ev), cl])
    if "BAD " in txt and not bad: die("unreadable BAD lines")
    for sid in bad: acc["bad"].append((sid, sorted(bad[sid]), sc[sid], tr[sid], seed))
    for f in (env["GLM_OUT"], env["GLM_TRACE"]): os.remove(f)

def known():
    out = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) session=(\S+) clause=(\S+) (.*)", line.strip())
            if m and m.group(1) == PROP: out.append(m.groups()[1:])
    return out

def main():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    build()
    acc = dict(sessions=0, states=0, transitions=0, bad=[], samples=[], models={},
               **{k: collections.Counter() for k in ("events", "outcomes", "answers", "kinds")})
    models = json.load(open(f"{V}/spec/models.json")).get(PROP, [])
    for mod, cfg, when in models:
        if when == "thorough" and TIER != "thorough": continue
        rc, txt, st = tlc(mod, cfg, f"{W}/{mod}-{cfg}.log", args=["-workers", "8", "-deadlock"])
        if rc or st is None: die(f"model {mod} ({cfg}) violates its own properties (TLC exit {rc})\n{txt[-3000:]}")
        acc["states"] += st[1]; acc["transitions"] += st[0]
        acc["models"][f"{mod}/{cfg}"] = dict(distinct_states=st[1], states_generated=st[0])
    if TIER == "thorough":
        i = 0
        while i < 40 and (i == 0 or time.time() - T0 < BUDGET):
            batch(SEED * 1000 + i, f"t{i}", acc); i += 1
            if acc["bad"]: break
        batches = i
    else:
        batch(SEED, "q", acc); batches = 1
    kf, viol, notes = known(), [], set()
    for sid, cls, sc, tr, seed in acc["bad"]:
        rest = []
        for ev, cl in cls:
            hit = [k for k in kf if fnmatch.fnmatchcase(sid, k[0]) and fnmatch.fnmatchcase(cl, k[1])]
            if hit: notes.add(hit[0][2])
            else: rest.append([ev, cl])
        if rest: viol.append((sid, rest, sc, tr, seed))
    for n in sorted(notes): print(f"KNOWN-FINDING: property={PROP} {n}")
    rep = f"{V}/evidence/replay"; os.makedirs(rep, exist_ok=True)
    for old in os.listdir(rep):
        if old.startswith(PROP + "-"): os.remove(os.path.join(rep, old))
    shown = 0
    for sid, rest, sc, tr, seed in viol:
        path = f"{rep}/{sid}.json"
        if shown < 12:
            json.dump(dict(property=PROP, session=sid, seed=seed, violated=[dict(event=e, clause=c) for e, c in rest],
                           scenario=json.loads(sc), trace=json.loads(tr)), open(path, "w"))
            print(f"VIOLATION property={PROP} replay={path}")
            print(f"  session {sid} (seed {seed}): " + ", ".join(f"event {e}: {c}" for e, c in rest[:6]))
        shown += 1
    if shown > 12: print(f"  ... and {shown - 12} more sessions")
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(states=acc["states"], transitions=acc["transitions"], traces_validated_against_impl=acc["sessions"],
            batches=batches, abstract_models=acc["models"], sessions_by_kind=dict(acc["kinds"]), events=dict(acc["events"]),
            outcomes=dict(acc["outcomes"]), answers_judged=dict(acc["answers"]), samples=acc["samples"]),
        assumptions=["real numbers are evaluated in IEEE double by java/glm/Num.java; comparisons carry the stated rounding tolerances",
                     "data sets are the ones generated from the seed; see DESIGN.md for the axes"],
        wall_s=round(time.time() - T0, 2), violations=len(viol))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{PROP}.json", "w"), indent=1)
    print(f"{PROP} {TIER} seed {SEED}: {acc['sessions']} sessions, {acc['states']} states, "
          f"{sum(acc['answers'].values())} answers, {len(viol)} violating sessions, {time.time()-T0:.1f} s")
    if os.environ.get("GLM_KEEP") != "1": shutil.rmtree(W, ignore_errors=True)
    sys.exit(1 if viol else 0)
main()
