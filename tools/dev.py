#!/usr/bin/env python3
"""dev.py HARNESS [PREFIX] [SEED] [SCALE] [--thorough]: build one harness, run the checks with that prefix."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
props, H = check.load_config()
h = sys.argv[1]
a = [x for x in sys.argv[2:] if not x.startswith("--")]
exe, err = check.build(h, H)
if not exe:
    print(err[:5000]); sys.exit(2)
tmp = tempfile.mkdtemp(prefix="vpt")
env = dict(os.environ, **check.ENV); env["VPT_TMP"] = tmp
out = tmp + "/o.json"
r = subprocess.run([exe, "--prefix", a[0] if a else "P", "--seed", a[1] if len(a) > 1 else "1", "--scale", a[2] if len(a) > 2 else "1", "--out", out, "--workers", "8",
                    "--max-seconds", "300"] + (["--thorough"] if "--thorough" in sys.argv else []), env=env, stdout=subprocess.DEVNULL)
print("rc", r.returncode)
for p in json.load(open(out))["props"]:
    print(p["name"], p["evaluated"], "nontrivial", p["nontrivial"], "distinct", p["distinct"], "discarded", p["discarded"], "%.1fs" % p["wall_s"], "FAILED" if p["failed"] else "")
    if p["failed"]:
        print("   ", {k: (str(v)[:1500]) for k, v in p.items() if k not in ("classes", "samples", "choices")})
subprocess.run(["rm", "-rf", tmp])
