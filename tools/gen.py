"""Writes properties.jsonl and MANIFEST.json from mc/meta.py (the one place where properties are stated)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from mc.design_text import CAUGHT, TEXT  # noqa: E402
from mc.meta import PROPS, NOT_CLAIMED  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        **({"observe_at": p["observe"]} if "observe" in p else {})},
        }) + "\n")

checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in NOT_CLAIMED or not os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "the check for this property is not built yet")})
        continue
    checks.append({
        "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"env VERIF_TIER=thorough ./check {i}",
        "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["note"],
    })
json.dump({
    "version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": na,
    "notes": "Every check explores the real code of /repo under a controlled source of nondeterminism (mc/explore.py); no hooks in "
             "/repo are needed. quick and thorough differ by VERIF_TIER only. known_findings.jsonl lists the genuine defects.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")


def bounds(i):
    s = open(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")).read()
    m = re.search(r'^BOUNDS = (\((?:.|\n)*?"\)|".*?")\n', s, re.M)
    return eval(m.group(1))


def design():
    props = []
    for p in PROPS:
        props.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* *Decided by:* {TEXT[p['id']]}\n* *Bounds:* {bounds(p['id'])}.\n* *Beyond the tests:* {p['why']}\n")
    bugs = ["| id | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
    base = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, "meta.json")))
        bugs.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {CAUGHT.get(d, m['property'])} |")
    t = open(os.path.join(ROOT, "mc", "design.in.md")).read()
    return t.replace("@PROPS@", "\n".join(props)).replace("@BUGS@", "\n".join(bugs))


if os.path.isdir(os.path.join(ROOT, "seeded")):
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(design())
