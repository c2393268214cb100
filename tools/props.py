#!/usr/bin/env python3
"""The list of properties. `props.py` rewrites properties.jsonl and MANIFEST.json from it (a property is claimed once its harness exists)."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
WHY = "The existing tests are end-to-end runs on two recorded/simulated trajectories with loose accuracy gates; they execute this code at a handful of values and never compare it with its defining equation, so a wrong term, index or branch that keeps the run on track passes."


def P(id, title, statement, over, text, files, mech, why=WHY, na=None, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, files=files, mech=mech, why=why, na=na, note=note))


exec(open(os.path.join(VERIF, "tools", "proplist.py")).read())


def harness_header(pid, key):
    p = os.path.join(VERIF, "harness", pid + ".cpp")
    m = re.search(r"^//\s*%s:(.*)$" % key, open(p).read(), re.M)
    return m.group(1).strip() if m else ""


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [w for _, w in p["mech"]], "hook_needed": None}}) + "\n")
    checks = []
    na = []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(os.path.join(VERIF, "harness", p["id"] + ".cpp")):
            na.append({"property": p["id"], "reason": "no check built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 tools/run.py " + p["id"], "thorough_cmd": "python3 tools/run.py " + p["id"] + " --thorough",
                       "technique": "symbolic execution of the repository's C++ (double lifted to symbolic terms, every feasible path) with each assertion decided by Z3 over all values within the bounds; counterexamples replayed on the real code",
                       "level": "model_checking",
                       "level_note": "Bounds: " + harness_header(p["id"], "VF-BOUNDS") + ". Outside: " + harness_header(p["id"], "VF-OUTSIDE") + "." + (" " + p["note"] if p["note"] else "")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    if os.path.exists(os.path.join(VERIF, "tools/design/head.md")):
        import design
        design.main(PROPS)
    print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(checks), len(na)))


if __name__ == "__main__":
    main()
