#!/usr/bin/env python3
"""build_violation.py ID TIER LOG: reports an explorer that no longer compiles against a library that does."""
import json, os, re, sys
i, tier, log = sys.argv[1:4]
here = os.environ["VERIF_DIR"]
text = open(log, errors="replace").read()
errs = re.findall(r"^error(?:\[E\d+\])?: .*\n +--> .*", text, re.M)[:20]
os.makedirs(here + "/evidence/replays", exist_ok=True)
path = "%s/evidence/replays/%s-build.json" % (here, i)
json.dump({"property": i, "tier": tier, "replay": "./check.sh %s %s (the explorer's calls of the public API do not compile)" % (i, tier), "errors": errs, "log": text[-20000:]}, open(path, "w"), indent=1)
level = next(c["level"] for c in json.load(open(here + "/MANIFEST.json"))["checks"] if c["property"] == i)
json.dump({"property": i, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": level,
  "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "rule": "the public operations the property speaks of do not all exist with the documented bounds, so nothing could be explored", "samples": errs[:6]},
  "violations": 1, "wall_s": 0.0}, open("%s/evidence/%s.json" % (here, i), "w"), indent=1)
print("violation: the library builds, but operations that the property speaks of are gone or accept fewer types")
print("VIOLATION property=%s replay=%s" % (i, path))
