#!/usr/bin/env python3
"""rep.py HARNESS PROP SEED: run one check until it fails, then replay the failing case with its output shown."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
props, H = check.load_config()
h, name = sys.argv[1:3]
exe, err = check.build(h, H)
os.makedirs("/tmp/w", exist_ok=True)
env = dict(os.environ, **check.ENV); env["VPT_TMP"] = "/tmp/w"; env["VPT_STDERR"] = "1"
subprocess.run([exe, "--only", name, "--seed", sys.argv[3] if len(sys.argv) > 3 else "1", "--out", "/tmp/w/o.json", "--workers", "8", "--max-seconds", "300"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
p = json.load(open("/tmp/w/o.json"))["props"][0]
if not p["failed"]: sys.exit("passes")
print(p["msg"][:3000])
with open("/tmp/w/r", "w") as f:
    f.write(name + (" history " + " ".join(map(str, p["history"])) if p.get("history") else "\n" + " ".join(map(str, p["choices"]))) + "\n")
r = subprocess.run([exe, "--replay", "/tmp/w/r"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(r.stdout[:6000])
