#!/usr/bin/env python3
"""seed.py FILE...: makes /verif/seeded/<id>/ from a seed description and confirms it in a scratch copy of /repo:
the patched tree builds, passes the stable tests, and the demonstration passes without and fails with the patch.
A description is a Python file with ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (main.rs), optional FEATURES."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Run with cwd = a checkout of vecmat-rs: exit 0 when the property holds for the demonstrated case.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs" || exit 3
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vecmat = { path = "$repo"%s }
%s[profile.dev]
debug = 0%s
TOML
cd "$tmp" || exit 3
CARGO_TARGET_DIR=$tmp/target cargo build --offline --quiet@REL@ 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 4; }
timeout 120 "$tmp/target/@DIR@/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def run(path):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(ROOT, "seeded", d["ID"])
    scratch = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = scratch + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", repo)
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.rs", "w").write(d["DEMO"].lstrip())
        dep = d.get("NUM", 'num-traits = "0.2"\n') + d.get("DEPS", "")
        feats = d.get("VECMAT", "")
        open(out + "/demo.sh", "w").write((DEMO_SH % (feats, dep, d.get("PROFILE", ""))).replace("@REL@", " --release" if d.get("RELEASE") else "").replace("@DIR@", "release" if d.get("RELEASE") else "debug"))
        os.chmod(out + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % out, repo)
        if r0.returncode: return "demo FAILS on the unchanged tree: " + (r0.stdout + r0.stderr)[-1500:]
        for f, a, b in d["EDITS"]:
            p = repo + "/" + f
            s = open(p).read()
            if s.count(a) != 1: return "pattern found %d times in %s: %r" % (s.count(a), f, a)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git diff", repo).stdout
        t = sh("CARGO_TARGET_DIR=%s/t cargo test --offline 2>&1 | grep -E '^error|^test .*FAILED|test result|panicked'" % scratch, repo)
        bad = [l for l in t.stdout.splitlines() if not l.startswith("test result: ok")]
        if bad or "test result" not in t.stdout: return "tests: " + "\n".join(bad[:12] or [t.stdout[-800:]])
        r1 = sh("bash %s/demo.sh" % out, repo)
        if r1.returncode in (0, 3) or r1.returncode == 4 and not d.get("BUILD_FAIL"): return "demo does not fail with the patch: %d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-1500:])
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        return "ok (demo exit %d)" % r1.returncode
    finally:
        shutil.rmtree(scratch)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for p, r in zip(sys.argv[1:], ex.map(run, sys.argv[1:])):
        print(os.path.basename(p), ":", r)
