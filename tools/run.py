#!/usr/bin/env python3
"""Decide one property: lift /repo's current sources to symbolic scalars, compile, explore, discharge with the solver,
replay every counterexample on the real code, write the evidence.

  run.py ID [--thorough] [--case NAME ...] [--keep] [-v]        decide property ID
  run.py ID --replay FILE                                        re-run a recorded counterexample on the real code
Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: the check itself could not run."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import lift as lifter  # noqa: E402

PKGS = ["ov_core", "ov_init", "ov_msckf", "ov_eval"]
ENGINE = os.path.join(VERIF, "engine")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".build")
EIGEN = "/usr/include/eigen3"
CXX = shutil.which("clang++", path="/usr/bin:/usr/local/bin") or shutil.which("clang++") or "clang++"
NPROC = min(8, os.cpu_count() or 8)
DEFS = ["-DROS_AVAILABLE=0", "-DENABLE_ARUCO_TAGS=0"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def read(p):
    with open(p, errors="replace") as f:
        return f.read()


def header(path, key, default=""):
    m = re.search(r"^//\s*%s:(.*)$" % key, read(path), re.M)
    return m.group(1).strip() if m else default


def pkg_order(pkg):
    o = {"ov_core": ["ov_core"], "ov_init": ["ov_init", "ov_core"], "ov_msckf": ["ov_msckf", "ov_core", "ov_init"], "ov_eval": ["ov_eval", "ov_core"]}
    return o[pkg]


class Build:
    def __init__(self, pid, keep=False, verbose=False):
        self.pid = pid
        self.verbose = verbose
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        if not keep:
            atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.harness = os.path.join(HARNESS, pid + ".cpp")
        self.pkg = header(self.harness, "VF-PKG", "ov_core")
        self.sources = header(self.harness, "VF-SOURCES").split()
        self.defs = header(self.harness, "VF-DEFS").split()
        self.unstubbed = header(self.harness, "VF-LIFT").split()
        self.extra_real = header(self.harness, "VF-REAL-SOURCES").split()
        os.makedirs(CACHE, exist_ok=True)
        self.log = []
        # one clean environment: profile runs in the engine's own files are not instrumented
        self.allow = os.path.join(self.dir, "allow.txt")
        with open(self.allow, "w") as f:
            f.write("src:*/lift/*\nfun:*\n")

    # ---- lifting
    def lift_all(self):
        root = os.path.join(self.dir, "lift")
        self.hdr_hash = hashlib.sha256()
        self.lifted_files = []
        for pkg in PKGS:
            base = os.path.join(REPO, pkg, "src")
            for r, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    if not f.endswith((".h", ".hpp", ".cpp")):
                        continue
                    p = os.path.join(r, f)
                    rel = os.path.relpath(p, REPO)
                    if f.endswith(".cpp") and rel not in self.sources:
                        continue
                    o = os.path.join(root, rel)
                    os.makedirs(os.path.dirname(o), exist_ok=True)
                    ov = os.path.join(ENGINE, "stubs/override", f)
                    t = read(ov) if os.path.exists(ov) and f in ("print.h", "opencv_yaml_parse.h") and f not in self.unstubbed else lifter.lift(read(p))
                    with open(o, "w") as g:
                        g.write(t)
                    if not f.endswith(".cpp"):
                        self.hdr_hash.update(rel.encode() + b"\0" + t.encode())
        hd = os.path.join(root, "harness")
        os.makedirs(hd, exist_ok=True)
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith(".h") or f == self.pid + ".cpp":
                t = lifter.lift(read(os.path.join(HARNESS, f)))
                with open(os.path.join(hd, f), "w") as g:
                    g.write(t)
                if f.endswith(".h"):
                    self.hdr_hash.update(f.encode() + t.encode())
        for r, ds, fs in os.walk(ENGINE):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".h") or f.endswith(".hpp"):
                    self.hdr_hash.update(read(os.path.join(r, f)).encode())
        self.root = root

    def overlay(self):
        d = os.path.join(self.dir, "eigen")
        os.makedirs(d)
        sh(["cp", "-rs", EIGEN + "/Eigen", d + "/Eigen"])
        g = os.path.join(d, "Eigen/src/Core/GeneralProduct.h")
        os.remove(g)
        t = read(EIGEN + "/Eigen/src/Core/GeneralProduct.h")
        t = re.sub(r"(struct product_type_selector<.*ret = )(?:CoeffBasedProductMode|GemvProduct|GemmProduct|OuterProduct) ", r"\g<1>77 ", t)
        with open(g, "w") as f:
            f.write(t)

    def flags(self, pkg, eigen):
        inc = ["-I" + ENGINE, "-I" + os.path.join(ENGINE, "stubs")] + ["-I%s/%s/src" % (self.root, p) for p in pkg_order(pkg)] + ["-I%s/harness" % self.root]
        return ["-std=c++14", "-w", "-O0", "-fno-access-control", "-ferror-limit=10", "-D_GLIBCXX_ASSERTIONS", "-fno-pie"] + DEFS + self.defs + inc + ["-isystem", eigen]

    def compile(self, cmd, out, key_parts):
        h = hashlib.sha256()
        for k in key_parts:
            h.update(k if isinstance(k, bytes) else k.encode())
            h.update(b"\1")
        h.update(" ".join(cmd).replace(self.dir, "@").encode())
        c = os.path.join(CACHE, h.hexdigest()[:32] + ".o")
        if os.path.exists(c):
            shutil.copyfile(c, out)
            os.utime(c)
            return None
        r = sh(cmd)
        if r.returncode != 0:
            return " ".join(cmd) + "\n" + r.stdout
        try:
            tmp = c + ".%d" % os.getpid()
            shutil.copyfile(out, tmp)
            os.replace(tmp, c)
        except OSError:
            pass
        return None

    def symbolic(self):
        t = time.time()
        self.lift_all()
        self.overlay()
        eig = os.path.join(self.dir, "eigen")
        hh = self.hdr_hash.hexdigest()
        obj = []
        errs = []
        cov = ["-fsanitize-coverage=func,trace-pc-guard", "-fsanitize-coverage-allowlist=" + self.allow]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = []
            eo = os.path.join(self.dir, "vf_sym.o")
            fs.append(ex.submit(self.compile, [CXX, "-std=c++14", "-w", "-O2", "-fno-pie", "-I" + ENGINE, "-c", ENGINE + "/vf_sym.cpp", "-o", eo], eo,
                                [read(ENGINE + "/vf_sym.cpp"), read(ENGINE + "/vf_sym.h")]))
            obj.append(eo)
            pch = os.path.join(self.dir, "vf.pch")
            r = sh([CXX] + self.flags(self.pkg, eig) + ["-x", "c++-header", ENGINE + "/vf.h", "-o", pch])
            if r.returncode != 0:
                errs.append(r.stdout)
            todo = [(os.path.join(self.root, s), s.split("/")[0]) for s in self.sources]
            todo.append((os.path.join(self.root, "harness", self.pid + ".cpp"), self.pkg))
            todo.append((os.path.join(ENGINE, "vf_eigen.cpp"), self.pkg))
            todo.sort(key=lambda s: -os.path.getsize(s[0]) if os.path.exists(s[0]) else 0)
            for src, pkg in todo:
                o = os.path.join(self.dir, re.sub(r"[/.]", "_", os.path.relpath(src, self.dir)).lstrip("_") + ".o")
                if not os.path.exists(src):
                    errs.append("missing source " + src)
                    continue
                obj.append(o)
                c = cov if "/lift/" in src else []
                fs.append(ex.submit(self.compile, [CXX, "-include-pch", pch] + self.flags(pkg, eig) + c + ["-c", src, "-o", o], o, [hh, read(src)]))
            for f in fs:
                e = f.result()
                if e:
                    errs.append(e)
        if errs:
            return None, "\n".join(errs)
        exe = os.path.join(self.dir, "sym")
        r = sh([CXX, "-no-pie", "-o", exe] + obj + ["-lboost_filesystem", "-lboost_system", "-lgmpxx", "-lgmp", "-lpthread"])
        if r.returncode != 0:
            return None, r.stdout
        self.build_s = time.time() - t
        return exe, None

    def real(self):
        """the same harness on the real code"""
        obj = []
        errs = []
        ocv = sh(["pkg-config", "--cflags", "opencv4"]).stdout.split()
        libs = sh(["pkg-config", "--libs", "opencv4"]).stdout.split()
        hh = hashlib.sha256()
        for pkg in PKGS:
            for r, ds, fs in os.walk(os.path.join(REPO, pkg, "src")):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp")):
                        hh.update(read(os.path.join(r, f)).encode())
        for d in (ENGINE, HARNESS):
            for f in sorted(os.listdir(d)):
                if f.endswith(".h"):
                    hh.update(read(os.path.join(d, f)).encode())
        hh = hh.hexdigest()

        def fl(pkg):
            return (["-std=c++17" if any("ceres" in x for x in self.sources) else "-std=c++14", "-w", "-O1", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-DVF_REAL", "-ftrivial-auto-var-init=pattern", "-I" + ENGINE] + DEFS + self.defs
                    + ["-I%s/%s/src" % (REPO, p) for p in pkg_order(pkg)] + ["-I" + HARNESS, "-I" + EIGEN] + ocv)
        todo = [(os.path.join(REPO, s), s.split("/")[0]) for s in self.sources + self.extra_real]
        if "ov_core/src/utils/print.cpp" not in self.sources:
            todo.append((os.path.join(REPO, "ov_core/src/utils/print.cpp"), "ov_core"))
        todo += [(self.harness, self.pkg), (os.path.join(ENGINE, "vf_real.cpp"), self.pkg)]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = []
            for src, pkg in todo:
                o = os.path.join(self.dir, "real_" + re.sub(r"[/.]", "_", src).lstrip("_") + ".o")
                obj.append(o)
                fs.append(ex.submit(self.compile, [CXX] + fl(pkg) + ["-c", src, "-o", o], o, [hh, read(src)]))
            for f in fs:
                e = f.result()
                if e:
                    errs.append(e)
        if errs:
            return None, "\n".join(errs)
        exe = os.path.join(self.dir, "real")
        ceres = ["-lceres", "-lglog"] if os.path.exists("/usr/lib/x86_64-linux-gnu/libceres.so") or os.path.exists("/usr/local/lib/libceres.so") else []
        r = sh([CXX, "-o", exe] + obj + libs + ceres + ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_date_time", "-lpthread"])
        if r.returncode != 0:
            return None, r.stdout
        return exe, None


def prune_cache(limit=600 << 20):
    try:
        fs = sorted((os.stat(os.path.join(CACHE, f)).st_mtime, os.stat(os.path.join(CACHE, f)).st_size, f) for f in os.listdir(CACHE))
        tot = sum(x[1] for x in fs)
        for m, s, f in fs:
            if tot <= limit:
                break
            os.remove(os.path.join(CACHE, f))
            tot -= s
    except OSError:
        pass


def run_case(exe, case, seed, thorough, budget):
    t = time.time()
    try:
        p = subprocess.run([exe, "--case", case, "--seed", str(seed), "--budget", str(budget)] + (["--thorough"] if thorough else []),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=budget * 1.3 + 45)
        out = p.stdout
        err = p.stderr
    except subprocess.TimeoutExpired as e:
        return {"case": case, "killed": True, "wall_s": time.time() - t, "stderr": ""}
    for l in out.splitlines():
        if l.startswith("VFRESULT "):
            r = json.loads(l[9:])
            r["stderr"] = err[-2000:]
            return r
    return {"case": case, "killed": True, "wall_s": time.time() - t, "stderr": (err + out)[-2000:]}


def write_replay(path, pid, case, check, ints, vals):
    with open(path, "w") as f:
        f.write("# property=%s\n# case=%s\n# check=%s\n" % (pid, case, check))
        for k, v in sorted(ints.items()):
            f.write("i %s\t%d\n" % (k, v))
        for k, v in sorted(vals.items()):
            f.write("d %s\t%.17g\n" % (k, v))


def replay(exe, case, path, verbose=False):
    env = dict(os.environ, MALLOC_PERTURB_="85")
    try:
        p = subprocess.run([exe, case, path] + (["v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 1, "REPLAY FAIL the code does not terminate\n"


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if "known" in k.get("status", "known")]


def main():
    a = sys.argv[1:]
    pid = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    verbose = "-v" in a
    only = [a[i + 1] for i, x in enumerate(a) if x == "--case"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    b = Build(pid, keep="--keep" in a, verbose=verbose)
    if "--replay" in a:
        f = a[a.index("--replay") + 1]
        case = re.search(r"^# case=(.*)$", read(f), re.M).group(1)
        exe, err = b.real()
        if not exe:
            print(err)
            return 2
        rc, out = replay(exe, case, f, True)
        print(out)
        return rc
    exe, err = b.symbolic()
    if not exe:
        print("the encoding of the current source did not build:\n" + err[-6000:])
        return 2
    cases = sh([exe, "--list"] + (["--thorough"] if thorough else [])).stdout.split()
    if only:
        cases = [c for c in cases if c in only]
    bud = header(b.harness, "VF-BUDGET", "40 400").split()
    budget = float(bud[1] if thorough else bud[0])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda c: run_case(exe, c, seed, thorough, budget), cases))
    kf = [k for k in known_findings() if k["property"] == pid]
    rex = None
    viol = []
    known_hit = []
    unconfirmed = []
    replays = 0
    scratch = bool(os.environ.get("VF_NOEVIDENCE"))  # development runs on changed copies leave no trace
    rdir = os.path.join(b.dir if scratch else os.path.join(VERIF, "evidence"), "replay")
    for r in res:
        if verbose:
            s = {k: v for k, v in r.items() if k not in ("violations", "funcs", "check_counts", "stderr")}
            print(json.dumps(s))
            if r.get("stderr"):
                print("   stderr:", r["stderr"][-600:])
        seen = set()
        for n, v in enumerate(r.get("violations", [])):
            if v["check"] in seen:
                continue
            if rex is None:
                rex, err = b.real()
                if rex is None:
                    print("the replay on the real code did not build:\n" + err[-6000:])
                    return 2
            ok = False
            for m, cand in enumerate(v["cands"] or [{}]):
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%s-%d-%d.txt" % (pid, r["case"], n, m))
                write_replay(path, pid, r["case"], v["check"], v["ints"], cand)
                rc, out = replay(rex, r["case"], path)
                replays += 1
                if rc == 1:
                    fails = [l[12:].split("\t")[0] for l in out.splitlines() if l.startswith("REPLAY FAIL ")]
                    fails = fails or ["crash"]
                    seen.add(v["check"])
                    unk = []
                    for fl in fails:
                        k = [k for k in kf if k["case"] == r["case"] and k["check"] == fl]
                        if k:
                            known_hit.append((k[0]["id"], k[0]["what"]))
                        else:
                            unk.append(fl)
                    if unk:
                        viol.append((r["case"], unk, path))
                    else:
                        os.remove(path)
                    ok = True
                    break
                if verbose:
                    print("   replay of %s/%s: rc=%d %s [%s]" % (r["case"], v["check"], rc, out.strip()[:200], v["info"]))
                os.remove(path)
            if not ok:
                unconfirmed.append("%s/%s: %s, but the real code does not show it at the reported inputs" % (r["case"], v["check"], v["info"]))
    # ---- the encoding against the implementation: satisfying inputs of explored paths, run on the real code (thorough)
    validated = 0
    bad_valid = []
    if thorough:
        if rex is None:
            rex, err = b.real()
        for r in res if rex else []:
            for n, wtn in enumerate(r.get("witnesses", [])[:6]):
                path = os.path.join(b.dir, "w.txt")
                write_replay(path, pid, r["case"], "witness", wtn["ints"], wtn["vals"])
                rc, out = replay(rex, r["case"], path)
                if rc == 0:
                    validated += 1
                elif rc == 1 and not kf:
                    bad_valid.append("%s: %s" % (r["case"], out.strip()[:200]))
                    if os.path.isdir(rdir) or not os.makedirs(rdir):
                        keep = os.path.join(rdir, "%s-%s-w%d.txt" % (pid, r["case"], n))
                        shutil.copyfile(path, keep)
                    viol.append((r["case"], [l[12:].split("\t")[0] for l in out.splitlines() if l.startswith("REPLAY FAIL ")] or ["crash"], keep))
    # ---- evidence
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)  # noqa: E731
    funcs = set()
    pcs = set(x for r in res for x in r.get("funcs", []))
    if pcs:
        import bisect
        syms = []
        for l in sh(["nm", "-C", "--defined-only", exe]).stdout.splitlines():
            q = l.split(" ", 2)
            if len(q) == 3 and q[1] in "tTwW":
                syms.append((int(q[0], 16), q[2]))
        syms.sort()
        ad = [s[0] for s in syms]
        for x in pcs:
            i = bisect.bisect_right(ad, x) - 1
            if i >= 0 and re.match(r"(?:\w+ )?(?:ov_core|ov_type|ov_msckf|ov_init|ov_eval)::", syms[i][1]):
                funcs.add(re.sub(r"vf::Sym", "Sym", syms[i][1])[:160])
    checks = tot("checks")
    proved = tot("trivial") + tot("raw_unsat") + tot("norm_unsat")
    unknown = sorted(set("%s/%s" % (r["case"], c) for r in res for c in r.get("unknown_checks", [])))
    incompl = ["%s: %s" % (r["case"], "no result (killed)" if r.get("killed") else r.get("incomplete")) for r in res if r.get("killed") or r.get("incomplete")]
    noreach = [r["case"] for r in res if not r.get("killed") and not r.get("reach")]
    ev = {
        "property": pid, "level": "model_checking", "tier": "thorough" if thorough else "quick", "seed": seed, "wall_s": round(time.time() - t0, 1),
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": replays + validated,
            "samples": [{"case": r["case"], "paths": r.get("paths"), "assertions": r.get("check_counts"), "reached_by_a_satisfying_input": sorted(r.get("reach", {}))} for r in res[:12]],
        },
        "assertions_decided": {"total": checks, "unsat_total": proved, "closed_by_identity": tot("trivial"), "unsat_on_raw_encoding": tot("raw_unsat"), "unsat_on_normal_form": tot("norm_unsat"), "unknown": tot("unknown")},
        "queries": {"total": tot("queries"), "branch_feasibility": tot("feasibility"), "solver_s": round(tot("solver_s"), 2), "solver": "z3-new (QF_NRA)"},
        "functions_encoded": sorted(funcs), "files_encoded": self_files(b), "cases": cases,
        "case_detail": [{k: r.get(k) for k in ("case", "paths", "aborted", "checks", "queries", "solver_s", "wall_s", "reach", "unknown", "incomplete", "notes")} for r in res],
        "bounds": header(b.harness, "VF-BOUNDS"), "outside": header(b.harness, "VF-OUTSIDE"),
        "assertions": sorted(set("%s/%s" % (r["case"], c) for r in res for c in r.get("check_counts", {}))),
        "inconclusive": unknown + unconfirmed, "incomplete": incompl, "cases_without_reach_witness": noreach,
        "build_s": round(b.build_s, 1),
    }
    fix_schema(ev, pid, viol, known_hit)
    if not only and not scratch:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    prune_cache()
    print("%s: %d cases, %d paths, %d assertions (%d unsat, %d unknown), %d solver queries in %.1fs; build %.1fs, total %.1fs"
          % (pid, len(cases), tot("paths"), checks, proved, tot("unknown"), tot("queries"), tot("solver_s"), b.build_s, time.time() - t0))
    for x in unknown:
        print("  undecided: " + x)
    for x in unconfirmed:
        print("  unconfirmed: " + x)
    for x in incompl:
        print("  incomplete: " + x)
    if noreach:
        print("  no reachability witness: " + ", ".join(noreach))
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k[0], k[1]))
    if viol:
        for c, f, p in viol:
            print("  case %s fails on the real code: %s" % (c, "; ".join(f)))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][2]))
        return 1
    return 0


def self_files(b):
    fs = set(b.sources)
    for m in re.findall(r'^#include "([^"]+)"', read(b.harness), re.M):
        for p in PKGS:
            if os.path.exists(os.path.join(REPO, p, "src", m)):
                fs.add("%s/src/%s" % (p, m))
                break
    return sorted(fs)


def fix_schema(ev, pid, viol, known):
    ev["violations"] = [{"case": c, "failed": f, "replay": p} for c, f, p in viol]
    ev["known_findings_seen"] = sorted(set(k[0] for k in known))


if __name__ == "__main__":
    sys.exit(main())
