#!/usr/bin/env python3
"""Writes properties.jsonl, mc/checks.json, MANIFEST.json and DESIGN.md from mc/table/*.py and mc/design_*.md"""
import glob, json, os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROWS = []

SCHED = dict(variant="tsan", rt=["sched.cc", "tsanrt.cc"])


def P(id, title, statement, over, text, why, files, mechanism, harnesses, technique, design, rule="", bound="", bound_thorough=None,
      level="model_checking", note="", assumptions=(), na=None):
    assert len(title) <= 80, (id, len(title))
    ROWS.append(dict(locals()))


for f in sorted(glob.glob(os.path.join(HERE, "table", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

ROWS.sort(key=lambda r: r["id"])
assert len({r["id"] for r in ROWS}) == len(ROWS)
REPO = os.environ.get("MC_REPO", "/repo")
with open(os.path.join(VERIF, "properties.jsonl"), "w") as out:
    for r in ROWS:
        for f in r["files"]:
            assert os.path.exists(os.path.join(REPO, f)), (r["id"], f)
        out.write(json.dumps({"id": r["id"], "title": r["title"], "statement": r["statement"],
                              "quantifier": {"over": r["over"], "text": r["text"]}, "why_tests_cant": r["why"],
                              "anchors": {"files": r["files"], "mechanism": [{"name": n, "where": w} for n, w in r["mechanism"]]}}) + "\n")

checks, man, na = {}, [], []
for r in ROWS:
    if r["na"]:
        na.append({"property": r["id"], "reason": r["na"]})
        continue
    for h in r["harnesses"]:
        for s in h["src"]:
            assert os.path.exists(os.path.join(VERIF, "harness", s)), s
    checks[r["id"]] = {"level": r["level"], "rule": r["rule"] or r["design"], "bound": r["bound"], "harnesses": r["harnesses"],
                       "assumptions": list(r["assumptions"])}
    if r["bound_thorough"]:
        checks[r["id"]]["bound_thorough"] = r["bound_thorough"]
    man.append({"property": r["id"], "quick_cmd": "python3 mc/check.py %s --tier quick" % r["id"],
                "thorough_cmd": "python3 mc/check.py %s --tier thorough" % r["id"], "technique": r["technique"], "level": r["level"],
                "level_note": r["note"] or ("Holds for everything inside the bounds: " + r["bound"]), "evidence_file": "evidence/%s.json" % r["id"]})
json.dump(checks, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 mc/build.py --all", "hooks": {
    "guard": "ECKIT_MC", "enable": "nothing to enable: no hook is needed, the checks compile /repo's sources as they are and interpose at link time",
    "source_commits": []}, "checks": man, "not_applicable": na,
    "notes": "Every check builds what it needs of /repo's working tree into /verif/build (ignored by git)."}, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

head = open(os.path.join(HERE, "design_head.md")).read()
tail = open(os.path.join(HERE, "design_tail.md")).read()
with open(os.path.join(VERIF, "DESIGN.md"), "w") as o:
    o.write(head)
    for r in ROWS:
        o.write("\n### %s %s\n\n%s\n\n" % (r["id"], r["title"], r["statement"]))
        if r["na"]:
            o.write("Not applicable: %s\n" % r["na"])
            continue
        o.write("*Decided by* %s. %s\n\n*Bounds (quick):* %s%s\n\n*What the tests leave open:* %s\n" % (
            r["technique"], r["design"], r["bound"], ("\n\n*Bounds (thorough):* " + r["bound_thorough"]) if r["bound_thorough"] else "", r["why"]))
        if r["assumptions"]:
            o.write("\n*Assumes:* " + " ".join(r["assumptions"]) + "\n")
    o.write("\n")
    o.write(tail)
print(len(ROWS), "properties,", len(man), "checks")
