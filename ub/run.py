#!/usr/bin/env python3
"""C22: runs the histories of ub/src/hist.rs under Miri, spread over all cores.
   run.py quick|thorough [--replay FILE]"""
import hashlib, json, os, subprocess, sys, tempfile, shutil, threading, time
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
t0 = time.time()
env = dict(os.environ)
env["CARGO_TARGET_DIR"] = os.path.join(here, "target")
env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
env["CARGO_NET_OFFLINE"] = "true"
env.pop("RUSTFLAGS", None)
# as debug builds and as release builds are compiled (with and without debug assertions)
BUILDS = ["dev", "release"]
def cmd(build): return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--profile", build, "--", tier]
DEADLINE = 780 if tier == "quick" else 6000
STALL = 150

def run(build, args, out, err):
    return subprocess.Popen(cmd(build) + args, cwd=here, env=env, stdout=out, stderr=err, start_new_session=True)
def kill(p):
    try: os.killpg(p.pid, 9)
    except ProcessLookupError: pass
    p.wait()
def verdict(err):
    """What an interpreter report means: (violation?, text)."""
    i = err.find("error: ")
    text = err[i:i + 3000] if i >= 0 else err[-1500:]
    if "Undefined Behavior" in err or "abnormal termination" in err or "deadlock" in err:
        return True, text
    return False, text

for b in BUILDS:
    built = subprocess.run(cmd(b) + ["list"], cwd=here, env=env, capture_output=True, text=True)
    if built.returncode != 0:
        print("the interpreter cannot run the harness:"); print(built.stderr[-4000:]); sys.exit(2)
    names = built.stdout.split()

def single(build, scen, choices, limit=STALL):
    """Runs one history alone: (bad?, message)."""
    with tempfile.TemporaryFile("w+") as o, tempfile.TemporaryFile("w+") as e:
        p = run(build, ["at", scen, choices], o, e)
        try: p.wait(limit)
        except subprocess.TimeoutExpired:
            kill(p); return True, "the history does not end"
        o.seek(0); e.seek(0); out, err = o.read(), e.read()
    if p.returncode == 0: return False, ""
    for l in out.splitlines():
        if l.startswith("BAD "): return True, l.split(" ", 3)[3] if l.count(" ") >= 3 else l
    return verdict(err)

if "--replay" in sys.argv:
    r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    bad, msg = single(r.get("build", "dev"), r["scenario"], r["choices"])
    print("scenario", r["scenario"], "choices", r["choices"]); print(msg if bad else "the history runs without a report")
    sys.exit(1 if bad else 0)

def evidence(scens, execs, ops, states, samples, violations, exhaustive):
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    groups = {}
    for n, x in scens.items():
        g = groups.setdefault(n.split("/")[0], {"scenarios": 0, "executions": 0}); g["scenarios"] += 1; g["executions"] += x
    json.dump({"property": "C22", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
        "coverage": {"states": states, "transitions": ops, "traces_validated_against_impl": execs,
            "rule": "every history of safe operations within the listed scenarios (container, element type, dimensions, depth ^d), every argument and fault position, executed on the real code by Miri, which checks each memory access; states are distinct observed element sequences",
            "exhaustive": exhaustive, "scenarios": len(scens), "builds": ["debug assertions on", "debug assertions off"], "groups": groups, "samples": samples},
        "assumptions": ["undefined behaviour is what Miri reports (Stacked Borrows aliasing, validity, bounds, alignment, initialisation, allocation)"],
        "violations": violations, "wall_s": round(time.time() - t0, 3)}, open(os.path.join(verif, "evidence", "C22.json"), "w"), indent=1)

scens, execs, ops, states, samples = {}, 0, 0, 0, []
n = min(os.cpu_count() or 4, 16)

def explore(build):
    """All scenarios in one build; 0, 1 (violation, reported) or 2 (no answer)."""
    global execs, ops, states
    tmp = tempfile.mkdtemp(prefix="ub.")
    try: return explore_in(build, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def explore_in(build, tmp):
    global execs, ops, states
    claim = os.path.join(tmp, "claim"); os.mkdir(claim)
    procs = []
    for i in range(n):
        o, e = open(f"{tmp}/o{i}", "w+"), open(f"{tmp}/e{i}", "w+")
        procs.append((run(build, ["run", claim], o, e), f"{tmp}/o{i}", f"{tmp}/e{i}"))
    bad = None; timed_out = False
    last = [(0, time.time())] * n
    while bad is None:
        alive = False
        for i, (p, o, e) in enumerate(procs):
            rc = p.poll()
            if rc is None:
                alive = True
                s = os.path.getsize(o)
                if s != last[i][0]: last[i] = (s, time.time())
                elif time.time() - last[i][1] > STALL: bad = i
            elif rc != 0: bad = i
            if bad is not None: break
        if not alive or bad is not None: break
        if time.time() - t0 > DEADLINE: timed_out = True; break
        time.sleep(0.05)
    for p, _, _ in procs: kill(p) if p.poll() is None else None

    seen = set()
    for i in range(n):
        for l in open(procs[i][1]):
            f = l.split()
            if f and f[0] == "DONE" and len(f) == 5:
                seen.add(f[1])
                scens[f[1]] = scens.get(f[1], 0) + int(f[2]); execs += int(f[2]); ops += int(f[3])
                if build == BUILDS[0]: states += int(f[4])
            elif f and f[0] == "AT" and len(samples) < 8 and len(f) > 2: samples.append(f"{f[1]} choices={f[2]}")

    if bad is not None:
        out, err = open(procs[bad][1]).read(), open(procs[bad][2]).read()
        found = None
        for l in out.splitlines():
            if l.startswith("BAD "):
                f = l.split(" ", 3); found = (f[1], f[2], f[3])
        is_ub, text = verdict(err)
        if found is None:
            # go on from the last named history, naming each one, until it happens again
            ats = [l.split(" ") for l in out.splitlines() if l.startswith("AT ")]
            if ats:
                a = ats[-1]
                with open(f"{tmp}/fo", "w+") as o, open(f"{tmp}/fe", "w+") as e:
                    p = run(build, ["from", a[1], a[2] if len(a) > 2 else ""], o, e)
                    size, since = 0, time.time()
                    while p.poll() is None:
                        time.sleep(0.1)
                        s = os.path.getsize(f"{tmp}/fo")
                        if s != size: size, since = s, time.time()
                        elif time.time() - since > 60: kill(p); break
                if p.returncode != 0:
                    a = [l.split(" ") for l in open(f"{tmp}/fo").read().splitlines() if l.startswith("AT ")][-1]
                    b, msg = single(build, a[1], a[2] if len(a) > 2 else "", 60)
                    if b: found = (a[1], a[2] if len(a) > 2 else "", msg)
                    elif msg: print(msg)
        if found is None:
            print("a run of the interpreter failed without a report that can be reproduced: no answer"); print(text[:3000]); return 2
        rd = os.path.join(verif, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "C22-%s.json" % hashlib.sha1(repr(found[:2]).encode()).hexdigest()[:16])
        json.dump({"property": "C22", "tier": tier, "build": build, "scenario": found[0], "choices": found[1], "message": found[2]}, open(path, "w"), indent=1)
        print(f"violation in scenario {found[0]} choices {found[1]} ({build}): {found[2].splitlines()[0] if found[2] else ''}")
        for l in found[2].splitlines()[1:14]: print("   ", l)
        print(f"VIOLATION property=C22 replay={path}")
        evidence(scens, execs, ops, states, samples or [found[0]], 1, False); return 1
    if timed_out:
        print("out of time"); evidence(scens, execs, ops, states, samples, 0, False); return 2
    if seen != set(names):
        print("scenarios missing:", sorted(set(names) - seen)[:5]); return 2
    return 0

for b in BUILDS:
    code = explore(b)
    if code: sys.exit(code)
evidence(scens, execs, ops, states, samples, 0, True)
print(f"C22 {tier}: {len(scens)} scenarios, {execs} executions, {states} states, {ops} transitions, exhaustive=true in {time.time()-t0:.1f}s")
