#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        o = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(o) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py --all",
    "checks": [
        {
            "property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        }
        for p in props.PROPS
        if p["id"] not in {n["property"] for n in NA}
    ],
    "not_applicable": NA,
}
if getattr(props, "HOOKS", None):
    m["hooks"] = props.HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(props.PROPS), "properties")
import re  # noqa: E402

out = []
for p in props.PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* **Decided by**: %s: %s." % (p["technique"], p["note"].rstrip(".")))
    for h, v, q, t in p["parts"]:
        out.append("* **Workload**: `harness/%s.cpp` (%s), %d cases in the quick tier, %d in the thorough tier." % (h, v, q, t))
    if p["module"]:
        src = open(os.path.join(V, "checks", p["module"] + ".py")).read()
        q = re.findall(r"(\d+) if ctx.quick else (\d+)", src)
        out.append("* **Workload**: `checks/%s.py`%s." % (p["module"], ", ".join("; %s cases in the quick tier, %s in the thorough tier" % x for x in q)))
    out.append("* **Counts**: %s." % p["rule"].rstrip("."))
    out.append("* **Assumes**: %s." % "; ".join(p["assumptions"]))
    out.append("* **Beyond tests**: %s\n" % p["why"])
path = os.path.join(V, "DESIGN.md")
d = open(path).read()
a, b = d.index("<!-- properties -->") + len("<!-- properties -->"), d.index("<!-- /properties -->")
with open(path, "w") as f:
    f.write(d[:a] + "\n\n" + "\n".join(out) + "\n" + d[b:])


def fill(name, text):
    d = open(path).read()
    a, b = d.index("<!-- %s -->" % name) + len("<!-- %s -->" % name), d.index("<!-- /%s -->" % name)
    open(path, "w").write(d[:a] + "\n\n" + text + "\n\n" + d[b:])


k = json.load(open(os.path.join(V, "known_findings.json")))
fill("defects", "\n".join(["* known, not repaired (%s): %s." % (x["property"], x["what"]) for x in k["known"]] + ["* " + x.replace("fixed: property=", "repaired, ") + "." for x in k["fixed"]]))
rows = []
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    x = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append("* `%s`: %s (needs %s) -> %s" % (n, x["what_it_breaks"].rstrip("."), x["needs"].rstrip("."), x.get("caught_by", "caught by " + x["property"])))
fill("planted", "\n".join(rows))
