#!/usr/bin/env python3
"""mutate.py HARNESS[,PREFIX...] FILE [FILE...] [--max N] [--jobs N] [--scale S] [--seed K] [--log F]
Mutation sampling: applies one small syntactic change at a time to a copy of
the repository, runs the harness on it and lists the changes it does not see.
A development aid for finding weak spots; no check uses it."""
import concurrent.futures as cf, hashlib, os, random, re, shutil, subprocess, sys, threading, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
opt = {"--max": "60", "--jobs": "4", "--scale": "1", "--seed": "1", "--log": "/tmp/mutants.log", "--lines": ""}
args = []
it = iter(sys.argv[1:])
for a in it:
    if a in opt: opt[a] = next(it)
    else: args.append(a)
harness, *prefixes = args[0].split(",")
files = args[1:]

SUBS = [(r"(?<![<>=!+\-*/&|])<=(?![=>])", ["<"]), (r"(?<![<>\-])>=(?![=])", [">"]),
        (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r"==", ["!="]), (r"!=", ["=="]),
        (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
        (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]),
        (r"\|=", ["=", "&="]), (r"&=", ["=", "|="]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+(?=\w)", ["--"]),
        (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
        (r"\bbegin\(\)", ["begin() + 1"]), (r"\bstd::(?:abs|fabs)\(", ["("]), (r"\bstd::conj\(", ["("]), (r"\bconj\(", ["("]),
        (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r"\bbreak;", ["continue;", ";"]), (r"\bcontinue;", [";", "break;"]),
        (r"\bif \((?!constexpr)", ["if (!(@"]), (r"\bif \((?!constexpr)", ["if (true || (@", "if (false && (@"]),
        (r"\breal\(\)", ["imag()"]), (r"\bimag\(\)", ["real()"]), (r"\.front\(\)", [".back()"]), (r"\.back\(\)", [".front()"]),
        (r"(?<=[=(,] )-(?=\w)", ["+"]), (r"(?<![\w.])!(?=[\w(])", [""]), (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]), (r"\bround\b", ["floor"]),
        (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]), (r"(?<![\w.])(\d+\.\d*)(?![\w])", ["x2"])]

def strip(line):
    """Blanks out string/char literals and comments with the same length."""
    s = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'', lambda m: "\x00" * len(m.group()), line)
    i = s.find("//")
    return s if i < 0 else s[:i] + "\x00" * (len(s) - i)

def mutants(path, rel):
    src = open(path).read().split("\n")
    out, incomment = [], False
    for n, l in enumerate(src):
        t = l.strip()
        if incomment:
            incomment = "*/" not in t
            continue
        if t.startswith("/*"):
            incomment = "*/" not in t
            continue
        if not t or t[0] == "#" or t.startswith(("using ", "namespace", "template", "static_assert", "assert", "friend")): continue
        if "assert(" in t or "throw" in t or "cerr" in t: continue
        z = strip(l)
        for pat, reps in SUBS:
            for m in re.finditer(pat, z):
                if pat.startswith(r" <") or pat.startswith(r" >"):
                    if "template" in z or "std::vector<" in z[:m.start()] and ">" in z[m.end():] and False: continue
                for r in reps:
                    if r in ("+1", "-1"):
                        v = int(m.group(1)) + (1 if r == "+1" else -1)
                        if v < 0: continue
                        new = l[:m.start()] + str(v) + l[m.end():]
                    elif r == "x2":
                        new = l[:m.start()] + "(" + m.group(1) + " * 2 + 1)" + l[m.end():]
                    elif r.endswith("@"):
                        depth, k = 1, m.end()
                        while k < len(z) and depth:
                            depth += (z[k] == "(") - (z[k] == ")")
                            k += 1
                        if depth: continue
                        new = l[:m.start()] + r[:-1] + l[m.end():k - 1] + "))" + l[k:]
                    else:
                        new = l[:m.start()] + r + l[m.end():]
                    out.append((rel, n, l, new))
        # Statement deletion.
        prev = src[n - 1].strip() if n else ""
        if re.match(r"^[\w:\.\[\]\->\*\(\)]+.*;$", t) and not re.match(r"^(return|const|auto|int|size_t|double|float|std::|bool|unsigned|static|case|break|continue|class|struct|virtual|using|typedef|explicit|\w+ \w+;)", t) \
           and (prev.endswith((";", "{", "}", ":")) or not prev or prev.startswith("//")):
            out.append((rel, n, l, l[:len(l) - len(l.lstrip())] + ";"))
    return out

repo0 = "/repo" if not os.environ.get("VP_REPO") else os.environ["VP_REPO"]
allm = []
for f in files:
    m = mutants(os.path.join(repo0, f), f)
    if opt["--lines"]:
        a, b = map(int, opt["--lines"].split("-"))
        m = [x for x in m if a <= x[1] + 1 <= b]
    random.Random(opt["--seed"] + f).shuffle(m)
    # spread over the lines
    m = m[:int(opt["--max"])]
    allm += m
print(len(allm), "mutants", flush=True)
local = threading.local()
lock = threading.Lock()
wid = [0]
pidbase = os.getpid()
def setup():
    with lock:
        local.n = wid[0]; wid[0] += 1
    local.repo = f"/tmp/mw{pidbase}_{local.n}"
    local.build = local.repo + "_build"
    shutil.rmtree(local.repo, ignore_errors=True)
    shutil.copytree(repo0, local.repo, ignore=shutil.ignore_patterns(".git", "_build", "docs", "scripts"), symlinks=True)
    os.makedirs(local.build, exist_ok=True)
RUN = r'''
import sys, os, json, subprocess, tempfile
sys.path.insert(0, %r)
import check
props, H = check.load_config()
check.BASE_FLAGS = [f for f in check.BASE_FLAGS if f != "-g1"]
h, scale, *pre = sys.argv[1:]
exe, err = check.build(h, H)
if not exe: print("BUILD", err[:300]); sys.exit(3)
tmp = tempfile.mkdtemp(prefix="vpm")
env = dict(os.environ, **check.ENV); env.update(VPT_TMP=tmp, VPT_NOSHRINK="1", VPT_FAILFAST="1")
cmd = [exe, "--scale", scale, "--out", tmp + "/o", "--workers", "1", "--max-seconds", "60"]
for p in pre: cmd += ["--prefix", p]
try:
    r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=800)
    rc = r.returncode
except subprocess.TimeoutExpired:
    rc = 9
if rc == 1:
    try:
        p = json.load(open(tmp + "/o"))["props"][-1]; print(p["name"], p["msg"][:150].replace("\n", " "))
    except Exception: pass
subprocess.run(["rm", "-rf", tmp])
sys.exit(rc)
''' % VERIF
logf = open(opt["--log"], "a")
count = {}
def run(m):
    if not hasattr(local, "repo"): setup()
    rel, n, old, new = m
    path = os.path.join(local.repo, rel)
    orig = open(path).read()
    L = orig.split("\n"); L[n] = new
    open(path, "w").write("\n".join(L))
    env = dict(os.environ, VP_REPO=local.repo, VP_BUILD=local.build)
    r = subprocess.run([sys.executable, "-c", RUN, harness, opt["--scale"]] + prefixes, env=env, capture_output=True, text=True)
    open(path, "w").write(orig)
    k = {0: "SURVIVED", 1: "killed", 3: "nobuild"}.get(r.returncode, "rc%d" % r.returncode)
    with lock:
        count[k] = count.get(k, 0) + 1
        logf.write(f"{k} {rel}:{n+1}: {old.strip()}  ==>  {new.strip()}   [{r.stdout.strip()[:160]}]\n"); logf.flush()
        if k not in ("killed", "nobuild"):
            print(f"{k} {rel}:{n+1}: {old.strip()[:110]}  ==>  {new.strip()[:110]}", flush=True)
with cf.ThreadPoolExecutor(int(opt["--jobs"])) as ex:
    list(ex.map(run, allm))
print(count)
for i in range(wid[0]):
    shutil.rmtree(f"/tmp/mw{pidbase}_{i}", ignore_errors=True); shutil.rmtree(f"/tmp/mw{pidbase}_{i}_build", ignore_errors=True)
