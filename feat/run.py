#!/usr/bin/env python3
"""C23: builds the library and the harness under every subset of the optional features and compares
what the common operations return, line by line."""
import json, os, re, subprocess, sys, time, math
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import api
VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(HERE)
FEATURES = ["std", "rand", "approx"]
COMBOS = [tuple(f for i, f in enumerate(FEATURES) if m >> i & 1) for m in range(8)]
NUM = re.compile(r"-?(?:NaN|inf|\d+(?:\.\d+)?(?:e-?\d+)?)")
NAME = lambda c: "+".join(c) or "none"

def build(c):
    """-> (ok, text, binary or None, library_ok)"""
    t = os.path.join(HERE, "target", "c%d" % COMBOS.index(c))
    env = dict(os.environ, CARGO_TARGET_DIR=t, RUSTFLAGS=os.environ.get("RUSTFLAGS", ""))
    args = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "Cargo.toml"), "-j", "2"]
    if c:
        args += ["--features", ",".join(c)]
    h = subprocess.run(args, env=env, capture_output=True, text=True)
    if h.returncode:
        return (False, h.stderr, None, "could not compile `vecmat`" not in h.stderr)
    return (True, "", os.path.join(t, "debug", "feat"), True)

def freestanding(c):
    """-> None when a program without std can use this build, else what stands in the way"""
    t = os.path.join(HERE, "target", "n%d" % COMBOS.index(c))
    args = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "nostd", "Cargo.toml"), "-j", "2"]
    if c:
        args += ["--features", ",".join(c)]
    r = subprocess.run(args, env=dict(os.environ, CARGO_TARGET_DIR=t), capture_output=True, text=True)
    if r.returncode == 0:
        return None
    m = re.search(r"duplicate lang item `panic_impl`.*?defined in crate `(\w+)`(?: \(which `(\w+)` depends on\))?", r.stderr, re.S)
    return (m.group(2) or m.group(1)) if m else "?"

MANIFEST = os.path.join(os.environ.get("VECMAT_REPO") or "/repo", "Cargo.toml")

def interface(c):
    """-> the public interface of the build, or None when rustdoc gives none"""
    doc, _ = api.document(MANIFEST, os.path.join(HERE, "target", "d%d" % COMBOS.index(c)), c)
    return doc and api.Api(doc)

KNOWN = {l.split("key=")[1].split()[0]: l.split("key=")[1].split(" ", 1)[1].strip()
         for l in open(os.path.join(VERIF, "known-findings.txt")) if l.startswith("known: property=C23 ")}

def transcript(binary, tier, only=None):
    r = subprocess.run([binary, tier] + ([only] if only else []), capture_output=True, text=True)
    d = {}
    for l in r.stdout.splitlines():
        head, _, v = l.partition(" : ")
        cls, feat, label = head.split(" ", 2)
        if label in d:      # a repeated call must answer the same
            assert d[label] == (cls, feat, v), label
        d[label] = (cls, feat, v)
    return d, r.returncode

def num(s):
    return float("nan") if s.endswith("NaN") else float(s)

def close(cls, label, x, y):
    if x == y:
        return True
    if cls == "E":
        return False
    if NUM.sub("#", x) != NUM.sub("#", y):
        return False
    a, b = [num(s) for s in NUM.findall(x)], [num(s) for s in NUM.findall(y)]
    if cls == "M":          # the order of equal zeros is not specified
        return all(p == q or (p != p and q != q) for p, q in zip(a, b))
    tol = 2e-4 if "f32" in label else 1e-10
    fin = [abs(v) for v in a + b if math.isfinite(v)]
    scale = max(fin, default=0.0)
    for p, q in zip(a, b):
        if p == q or (p != p and q != q):
            continue
        if not (math.isfinite(p) and math.isfinite(q)):
            return False
        if abs(p - q) > tol * scale:
            return False
    return True

def main():
    t0 = time.time()
    args = sys.argv[1:]
    tier = args[0] if args and args[0] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    only, combos = None, COMBOS
    if replay:
        r = json.load(open(replay))
        only = r.get("label")
        combos = [tuple(c) for c in r["features"]]
    with ThreadPoolExecutor(8) as ex:
        built = dict(zip(combos, ex.map(build, combos)))
    full = COMBOS[-1]
    viol = []      # (message, replay)
    for c in combos:
        ok, text, _, lib = built[c]
        if not ok and not lib:
            viol.append(("the library does not compile with features {%s}: %s" % (NAME(c), first(text)), {"features": [c]}))
    if not any(v[0] for v in built.values()) and not viol:
        print("the harness does not compile:"); print(next(iter(built.values()))[1][-3000:])
        return 2
    for c in combos:
        ok, text, _, lib = built[c]
        if not ok and lib:
            # some other feature set offers these operations, this one does not
            viol.append(("operations available with other feature sets are missing or differ with {%s}: %s" % (NAME(c), first(text)), {"features": [list(c)] + [list(x) for x in combos if built[x][0]][:1]}))
    good = [c for c in combos if built[c][0]]
    bare = [c for c in good if "std" not in c]
    with ThreadPoolExecutor(4) as ex:
        for c, by in zip(bare, ex.map(freestanding, bare)):
            if by is None or by == "?":      # "?": not about std, the builds above judge that
                continue
            key = "std-through-%s" % by
            if key in KNOWN and by in c:
                print("KNOWN-FINDING: property=C23 {%s}: %s" % (NAME(c), KNOWN[key]))
            else:
                viol.append(("{%s} leaves out the std feature, but the library still needs the standard library (through %s)" % (NAME(c), by), {"features": [list(c)], "label": "std"}))
    # what each build offers, apart from what its features are for
    with ThreadPoolExecutor(4) as ex:
        offers = {c: a for c, a in zip(combos, ex.map(interface, combos)) if a} if not only else {}
    effective = {c: api.effective(MANIFEST, c) for c in offers}
    differ = {}
    compared = 0
    for i, c in enumerate(list(offers)):
        for e in list(offers)[i + 1:]:
            compared += len(set(offers[c].items) | set(offers[e].items))
            for label, fx, fy in api.compare(offers[c], effective[c], offers[e], effective[e]):
                x, y = (c, e) if fx is effective[c] else (e, c)
                differ.setdefault(label, (x, y))
    for label, (x, y) in list(differ.items())[:3]:
        viol.append(("%s: offered with {%s}, but missing or different with {%s}" % (label, NAME(x), NAME(y)), {"features": [list(x), list(y)]}))
    with ThreadPoolExecutor(8) as ex:
        out = dict(zip(good, ex.map(lambda c: transcript(built[c][2], tier, only), good)))
    for c in good:
        if out[c][1]:
            viol.append(("the calls end with status %d under {%s}" % (out[c][1], NAME(c)), {"features": [list(c)]}))
    lines = execs = pairs = 0
    samples = []
    labels = {}
    for c in good:
        for l, (cls, feat, v) in out[c][0].items():
            labels.setdefault(l, (cls, feat, {}))[2][c] = v
            execs += 1
    reported = 0
    kinds = {}
    for l, (cls, feat, vs) in labels.items():
        lines += 1
        want = [c for c in good if feat == "core" or feat in c]
        miss = [c for c in want if c not in vs]
        if miss:
            reported += 1
            if reported <= 5:
                viol.append(("%s: no result under {%s}" % (l, NAME(miss[0])), {"label": l, "features": [list(miss[0]), list(next(iter(vs)))]}))
            continue
        base = want[0]
        for c in want[1:]:
            pairs += 1
            if not close(cls, l, vs[base], vs[c]):
                reported += 1
                if reported <= 5:
                    viol.append(("%s: {%s} gives %s but {%s} gives %s" % (l, NAME(base), vs[base][:200], NAME(c), vs[c][:200]), {"label": l, "features": [list(base), list(c)]}))
                break
        k = kinds.setdefault(cls, 0)
        kinds[cls] += 1
        if k % 9973 == 0 and len(samples) < 8:
            samples.append({"call": l, "results": {NAME(c): vs[c][:160] for c in want[:3]}})
    exact = sum(1 for l, (cls, feat, vs) in labels.items() if len(set(vs.values())) == 1)
    if not replay:
        for i, (m, r) in enumerate(viol[:5]):
            p = os.path.join(VERIF, "evidence", "replays", "C23-%d.json" % i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            json.dump(dict(r, property="C23", message=m), open(p, "w"), indent=1)
            if i == 0:
                print("VIOLATION property=C23 replay=%s" % p)
            print("  " + m)
        ev = {
            "property": "C23", "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": "model_checking",
            "coverage": {
                "states": lines, "transitions": pairs, "traces_validated_against_impl": execs,
                "states_are": "distinct calls (operation and operands)", "transitions_are": "comparisons of one call's result between two builds",
                "traces_are": "calls executed in the real library, over all builds",
                "configurations": len(good), "configurations_built_without_std": len(bare), "calls_identical_in_all_builds": exact, "calls_per_class": kinds,
                "interfaces_compared": len(offers), "interface_items": max((len(a.items) for a in offers.values()), default=0), "interface_item_comparisons": compared,
                "exhaustive": not viol,
                "rule": "all 8 subsets of {std, rand, approx}; each must compile, offer the same operations apart from the feature's own (every pair of the eight public interfaces, as rustdoc lists them), and return the same results: bit for bit for structure, integers, formatting and correctly rounded float operations (E), the order of equal zeros aside for extrema (M), up to the accuracy of the math library otherwise (A). Samples of a fixed word stream are compared among the builds with rand, approximate comparisons among those with approx",
                "samples": samples or [m for m, _ in viol[:1]],
            },
            "violations": len(viol), "wall_s": round(time.time() - t0, 3)}
        write(ev)
    else:
        for m, _ in viol:
            print("VIOLATION property=C23 replay=%s" % replay); print("  " + m)
    print("C23 %s: %d configurations, %d calls each up to, %d executions, %d comparisons, %d of the calls identical everywhere, %.1f s" % (tier, len(good), lines, execs, pairs, exact, time.time() - t0))
    return 1 if viol else 0

def first(t):
    for l in t.splitlines():
        if l.startswith("error"):
            return l[:300]
    return t[-300:]

def write(ev):
    p = os.path.join(VERIF, "evidence", "C23.json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, p)

if __name__ == "__main__":
    sys.exit(main())
