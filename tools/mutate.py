#!/usr/bin/env python3
"""Development aid: small random changes to the functions a check encodes; prints those the check stays quiet on.
mutate.py PID N SEED [JOBS]"""
import json, os, random, re, shutil, subprocess, sys, threading
pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 2
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = json.load(open(V + "/evidence/%s.json" % pid))
names = {}
for f in ev["functions_encoded"]:
    m = re.search(r"((?:\w+::)*)(~?\w+)\(", f)
    if m: names[m.group(2)] = 1
SKIP = re.compile(r"PRINT_|^\s*//|^\s*\*|^\s*/\*|boost::posix|rT\d|assert\(|std::exit|^\s*#|std::cout|printf|^\s*}\s*$|^\s*$|throw|^\s*(private|public|protected)")
cand = []
for rel in ev["files_encoded"]:
    p = "/repo/" + rel
    if not os.path.exists(p): continue
    L = open(p, errors="replace").read().split("\n")
    i = 0
    while i < len(L):
        l = L[i]
        cpp = rel.endswith(".cpp")
        m = re.match(r"^(?:[\w:<>&,*~ ]*[ &*])?(?:\w+::)+(~?\w+)\(", l) if cpp else re.match(r"^ {0,2}(?:[\w:<>&,* ]+[ &*])(\w+)\(", l)
        if m and m.group(1) in names and not re.match(r"^\s*(return|if|for|while|else)", l):
            ind = len(l) - len(l.lstrip())
            if l.rstrip().endswith(";"): i += 1; continue
            if "{" in l and l.count("{") == l.count("}"):
                cand.append((rel, i)); i += 1; continue
            j = i + 1
            while j < len(L) and not L[j].startswith(" " * ind + "}"):
                if not SKIP.search(L[j]): cand.append((rel, j))
                j += 1
            i = j
        i += 1
OPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
       (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\.transpose\(\)", [""]), (r"_fej\(\)", ["()"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\b0\.5\b", ["1.0"]), (r"\b2\b", ["3", "1"]), (r"\b3\b", ["2", "0"]), (r"\b1\b", ["2", "0"]), (r"\b0\b", ["1"]), (r"if \(", ["if (true || ", "if (false && "]), (r"-(?=[a-z])", [""]),
       (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\+\+", ["--"]), (r"\.at\(0\)", [".at(1)"]), (r"\bRot\(\)", ["Rot_fej()"]), (r"\bpos\(\)", ["pos_fej()"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]),
       (r"\.first\b", [".second"]), (r"\bvalue\(\)", ["fej()"]), (r"\bfej\(\)", ["value()"]), (r"\bbegin\(\)", ["end()"])]
def mutants():
    out = []
    for rel, i in cand:
        l = open("/repo/" + rel, errors="replace").read().split("\n")[i]
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps: out.append((rel, i, l, l[:m.start()] + r + l[m.end():]))
        if re.match(r"^\s*[\w\.\->\[\]\(\):&, ]+( [\+\-\*]?= .*|\(.*\));\s*$", code) and not re.match(r"^\s*(return|const|auto|double|int|bool|size_t|std::|Eigen::\w+ ?[<&]?\w*)", code):
            out.append((rel, i, l, "; // deleted " + l.strip()))
    return out
M = mutants()
random.Random(seed).shuffle(M)
# one mutant per line first
seen, A, B = set(), [], []
for m in M: (B if (m[0], m[1]) in seen else A).append(m); seen.add((m[0], m[1]))
M = (A + B)[:n]
print("%s: %d candidate lines, %d mutants run" % (pid, len(cand), len(M)), flush=True)
lock = threading.Lock(); stat = {"caught": 0, "uncompilable": 0, "survived": 0}
def work(k):
    d = "/tmp/sc/mut-%s-%d" % (pid, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for q in ("ov_core", "ov_init", "ov_msckf", "ov_eval"): shutil.copytree("/repo/%s/src" % q, "%s/%s/src" % (d, q))
    while True:
        with lock:
            if not M: break
            rel, i, old, new = M.pop(0)
        p = d + "/" + rel; t = open("/repo/" + rel, errors="replace").read().split("\n"); t[i] = new
        open(p, "w").write("\n".join(t))
        try:
            r = subprocess.run(["python3", V + "/tools/run.py", pid], env=dict(os.environ, VF_REPO=d, VF_NOEVIDENCE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, errors="replace")
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, o = "timeout", ""
        shutil.copyfile("/repo/" + rel, p)
        with lock:
            if rc == 1: stat["caught"] += 1; continue
            if rc == 0: stat["survived"] += 1
            else: stat["uncompilable"] += 1
            if rc == 0 or "error:" not in o:
                print("%s %s:%d\n   - %s\n   + %s   %s" % ("SURVIVED" if rc == 0 else "rc=%s" % rc, rel, i + 1, old.strip(), new.strip(), "" if rc == 0 else o[-200:]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
T = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
[t.start() for t in T]; [t.join() for t in T]
print("%s: %s" % (pid, stat))
