#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree
with sanitizers, runs the generated cases, shrinks and replays failures, writes
/verif/evidence/<id>.json.  Exit 0: held.  Exit 1 + VIOLATION line: violated.
Exit 2: the check itself could not run.

  check.py P01 quick|thorough
  check.py P01 replay FILE
  check.py --build-all
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
# Same language level and NDEBUG as the shipped build; sanitizers turn silent
# corruption into failures, pattern initialisation makes reads of
# uninitialised automatic variables visible and reproducible.
BASE_FLAGS = (
    "-std=c++20 -O1 -g1 -DNDEBUG -w -fno-omit-frame-pointer "
    "-ftrivial-auto-var-init=pattern "
    "-fsanitize=address,undefined -fno-sanitize-recover=all "
    "-fno-sanitize=alignment,vptr,float-divide-by-zero "
    "-DMETADATA_COMPRESSION_DEFAULT=true"
).split()
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
    "max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
    "allocator_may_return_null=0:max_allocation_size_mb=6000:"
    "detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "LC_ALL": "C",
}


def load_config():
    ns = {"__file__": os.path.join(VERIF, "catalog.py"), "__name__": "catalog"}
    for name in ("harness/config.py", "catalog.py"):
        with open(os.path.join(VERIF, name)) as f:
            exec(compile(f.read(), name, "exec"), ns)
    return ns["C"], ns["HARNESSES"]


def file_hash(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha256(f.read()).hexdigest()
    return cache[key]


def parse_deps(dfile):
    with open(dfile) as f:
        txt = f.read().replace("\\\n", " ")
    return txt.split(":", 1)[1].split()


def compile_obj(src, flags):
    """Content-hash based rebuild of one object. Returns (obj, error)."""
    cmd = [CXX] + flags + ["-c", src]
    tag = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:20]
    base = os.path.basename(src).rsplit(".", 1)[0]
    obj = os.path.join(BUILD, "obj", f"{base}-{tag}.o")
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(file_hash(p) == h for p, h in deps.items()):
                return obj, None
        except Exception:
            pass
    dfile = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dfile, "-o", obj],
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    deps = {p: file_hash(p) for p in parse_deps(dfile)}
    json.dump(deps, open(meta, "w"))
    return obj, None


def defining_files(linker_errors):
    """Source files of the repository that may define the names the linker
    misses: those that mention the last two parts of a qualified name."""
    names = set()
    for m in re.findall(r"undefined reference to `([^']*)'", linker_errors):
        m = re.sub(r"^(vtable|typeinfo|typeinfo name) for ", "", m)
        m = re.sub(r"\[abi:\w+\]", "", m.split("(")[0])
        while re.search(r"<[^<>]*>", m):
            m = re.sub(r"<[^<>]*>", "", m)
        parts = re.findall(r"~?\w+", m)
        if parts:
            names.add(tuple(p.lstrip("~") for p in parts[-2:]))
    found, weak = [], []
    for top, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d[0] != "." and d not in
                   ("test", "tests", "unit", "integration", "external", "python", "pythondp3", "build", "docs")]
        for f in files:
            if f.endswith((".cc", ".cpp", ".cxx")):
                with open(os.path.join(top, f), errors="replace") as fp:
                    words = set(re.findall(r"\w+", fp.read()))
                for n in names:
                    if n[-1] in words:
                        (found if n[0] in words else weak).append(os.path.join(top, f))
    return sorted(set(found)) or sorted(set(weak))


def extract_functions(hname, h, flags):
    """Functions of files that cannot be compiled here, on their own: the text
    of each is put in a small file.  The harness has a weak version of each
    that is used when that does not work."""
    objs = []
    for k, (path, name, prelude, prolog) in enumerate(h.get("extract", [])):
        try:
            with open(os.path.join(REPO, path)) as f:
                txt = f.read()
        except OSError:
            continue
        m = re.search(r"^[\w:<>,&* \t\n]*?\b" + re.escape(name) + r"\s*\([^;{]*\)[^;{]*\{", txt, re.M)
        if not m:
            continue
        i, depth = m.end(), 1
        while i < len(txt) and depth:
            depth += {"{": 1, "}": -1}.get(txt[i], 0)
            i += 1
        gen = os.path.join(BUILD, "gen")
        os.makedirs(gen, exist_ok=True)
        src = os.path.join(gen, f"{hname}{k}.cc")
        new = prelude + "\n" + prolog + "\n" + m.group(0).lstrip() + txt[m.end():i] + "\n" + "}" * prolog.count("{") + "\n"
        if not os.path.exists(src) or open(src).read() != new:
            open(src, "w").write(new)
        obj, err = compile_obj(src, flags)
        if obj:
            objs.append(obj)
        elif os.environ.get("VPT_EXTRACT"):
            print(err)
    return objs


def build(hname, harnesses):
    h = harnesses[hname]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "harness")]
    for d in h.get("shims", []):
        inc.append("-I" + os.path.join(VERIF, "shims", d) if d else "-I" + os.path.join(VERIF, "shims"))
    inc.append("-I" + REPO)
    flags = BASE_FLAGS + h.get("flags", []) + inc
    jobs = [os.path.join(VERIF, "harness", s) for s in h["src"]]
    repo = [os.path.join(REPO, s) for s in h.get("repo", [])]
    # A listed file that is gone was merged into another one: the linker tells
    # what is missing then.
    jobs += [s for s in repo if os.path.exists(s)]
    jobs += [os.path.join(VERIF, "shims", s) for s in h.get("shim_src", [])]
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda s: compile_obj(s, flags), jobs))
    errs = [f"--- {j}\n{e}" for j, (o, e) in zip(jobs, res) if e]
    if errs:
        return None, "\n".join(errs)
    objs = [o for o, _ in res]
    extracted = extract_functions(hname, h, flags)
    objs[len(h["src"]):len(h["src"])] = extracted
    exe = os.path.join(BUILD, hname)
    key = hashlib.sha256("\0".join(
        objs + [file_hash(o) for o in objs] + h.get("libs", [])).encode()).hexdigest()
    try:
        if os.path.exists(exe) and open(exe + ".key").read() == key:
            return exe, None
    except OSError:
        pass
    # Harness objects first, repository objects from an archive so that only
    # what is used gets linked.  When the code now also uses repository files
    # that are not listed, those that define the missing names are added.
    nh = len(h["src"]) + len(extracted)
    ar = exe + ".a"
    for _ in range(8):
        if os.path.exists(ar):
            os.unlink(ar)
        cmd = [CXX, "-fsanitize=address,undefined", "-o", exe] + objs[:nh]
        if objs[nh:]:
            subprocess.run(["ar", "crs", ar] + objs[nh:], check=True)
            cmd += ["-Wl,--start-group", ar, "-Wl,--end-group"]
        cmd += h.get("libs", []) + ["-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            break
        more = [s for s in defining_files(r.stderr) if s not in jobs]
        if not more:
            return None, r.stderr
        jobs += more
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            objs += [o for o, e in ex.map(lambda s: compile_obj(s, flags), more) if o]
    else:
        return None, r.stderr
    open(exe + ".key", "w").write(key)
    return exe, None


def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("known", []) if f["property"] == pid]


def write_evidence(pid, tier, seed, level, props, wall, violations, cfg, extra):
    ev = sum(p["evaluated"] for p in props)
    nt = sum(p["distinct"] for p in props)
    samples = []
    for p in props:
        for s in p["samples"][:2]:
            samples.append({"input": f"[{p['name']}] {s}"})
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": nt,
            "rule": cfg["rule"],
            "samples": samples[:12],
            "per_check": [
                {k: p[k] for k in ("name", "planned", "evaluated", "nontrivial",
                                   "distinct", "discarded", "wall_s", "classes")}
                for p in props],
        },
        "wall_s": round(wall, 2),
        "violations": violations,
        "assumptions": cfg.get("assumptions", []) + extra,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def main():
    props_cfg, harnesses = load_config()
    if sys.argv[1] == "--build-all":
        bad = 0
        for h in harnesses:
            t = time.time()
            exe, err = build(h, harnesses)
            print(h, "ok" if exe else "FAILED", f"{time.time()-t:.1f}s")
            if err:
                print(err[:4000])
                bad = 1
        return bad
    pid, tier = sys.argv[1], sys.argv[2]
    cfg = props_cfg[pid]
    env = dict(os.environ, **ENV)
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    runs = cfg["runs"]  # list of (harness, prefix)
    exes = {}
    for h in dict.fromkeys(h for h, _ in runs):
        exe, err = build(h, harnesses)
        if not exe:
            print(f"BUILD-ERROR harness={h}\n{err[:6000]}")
            return 2
        exes[h] = exe
    if tier == "replay":
        name = [l.split()[0] for l in open(sys.argv[3]) if l.strip() and l[0] != "#"][0]
        for h, pre in runs:
            if name.startswith(pre):
                r = subprocess.run([exes[h], "--replay", sys.argv[3]], env=env)
                return r.returncode
        return 2
    thorough = tier == "thorough"
    tmp = tempfile.mkdtemp(prefix="vpt")
    env["VPT_TMP"] = tmp
    results, errors, violations = [], [], []
    try:
        for h, pre in runs:
            out = os.path.join(tmp, "out.json")
            cmd = [exes[h], "--prefix", pre, "--seed", str(seed), "--out", out,
                   "--workers", str(os.cpu_count() or 8),
                   "--max-seconds", "600" if thorough else "90"]
            if thorough:
                cmd.append("--thorough")
            else:
                cmd += ["--scale", str(cfg.get("scale", 1))]
            r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL)
            if r.returncode not in (0, 1):
                errors.append(f"{h} exited with {r.returncode}")
                continue
            results += json.load(open(out))["props"]
            for p in results:
                if p["failed"] and not p.get("seen"):
                    p["seen"] = True
                    rdir = os.path.join(VERIF, "replays")
                    os.makedirs(rdir, exist_ok=True)
                    rp = os.path.join(rdir, p["name"] + ".replay")
                    with open(rp, "w") as f:
                        f.write(f"# property {pid}, seed {seed}, case {p['case_index']}\n")
                        f.write("# " + p["msg"].replace("\n", " ")[:3000] + "\n")
                        f.write(f"# replay: python3 {VERIF}/check.py {pid} replay {rp}\n")
                        if p.get("history"):
                            f.write(p["name"] + " history " + " ".join(map(str, p["history"])) + "\n")
                        else:
                            f.write(p["name"] + "\n" + " ".join(map(str, p["choices"])) + "\n")
                    n = 0
                    for _ in range(3):
                        rr = subprocess.run([exes[h], "--replay", rp], env=env,
                                            stdout=subprocess.DEVNULL)
                        n += rr.returncode == 1
                    if n == 3:
                        violations.append((p, rp))
                    else:
                        errors.append(f"{p['name']}: failure did not replay ({n}/3): {p['msg']}")
                elif p["msg"] == "KILLED":
                    errors.append(f"{p['name']}: worker was killed")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    total = sum(p["evaluated"] for p in results)
    for p in results:
        if not p["failed"] and (p["evaluated"] == 0 or p["distinct"] == 0):
            errors.append(f"{p['name']}: vacuous (no non-trivial case ran)")
    write_evidence(pid, tier, seed, cfg.get("level", "exploration"), results,
                   time.time() - t0, len(violations), cfg,
                   ["not evaluated: " + e for e in errors])
    for f in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    for p, rp in violations:
        print(f"  {p['name']}: {p['msg'][:1500]}")
        print(f"VIOLATION property={pid} replay={rp}")
    for e in errors:
        print("ERROR:", e)
    print(f"{pid} {tier}: {total} cases, {sum(p['distinct'] for p in results)} distinct "
          f"non-trivial, {len(violations)} violations, {time.time()-t0:.1f}s")
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
