"""DESIGN.md from design/head.md, notes.md, tail.md, the harness headers and the planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()  # noqa: E731


def main(props):
    notes = dict(re.findall(r"^(C\d+): (.*)$", rd("tools/design/notes.md"), re.M))
    o = rd("tools/design/head.md").rstrip() + "\n\n## 3. The properties\n"
    for p in sorted(props, key=lambda p: p["id"]):
        h = os.path.join(V, "harness", p["id"] + ".cpp")
        if not os.path.exists(h):
            continue
        t = open(h).read()
        g = lambda k: (re.search(r"^// VF-%s:\s*(.*)$" % k, t, re.M) or [0, ""])[1]  # noqa: E731
        o += "\n**%s %s.** %s\n*Bounds:* %s\n*Outside:* %s\n*Encoded:* %s and the headers included by `harness/%s.cpp`; budget per case %s s (quick, thorough).\n" % (
            p["id"], p["title"], notes.get(p["id"], ""), g("BOUNDS"), g("OUTSIDE"), ", ".join("`%s`" % s for s in g("SOURCES").split()), p["id"], g("BUDGET"))
    o += rd("tools/design/tail.md")
    d = os.path.join(V, "seeded")
    o += "| bug | property | what it breaks | needs |\n|---|---|---|---|\n"
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        c = lambda s: s.replace("|", "/").replace("\n", " ")  # noqa: E731
        o += "| %s | %s | %s | %s |\n" % (b, m["property"], c(m["what_it_breaks"]), c(m["needs"]))
    open(os.path.join(V, "DESIGN.md"), "w").write(o)
