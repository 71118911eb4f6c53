"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "src/komm/"


def P(id, title, statement, over, text, why, files, mech, technique=None, level="other", note=None, na=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                level=level, note=note, na=na, state=state)


PROPS = []
exec(open(os.path.join(V, "tools", "props.py")).read())

PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"], "anchors": {"files": [f if f.startswith("/") else K + f for f in p["files"]],
                                                      "mechanism": [{"name": n, "where": K + w} for n, w in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": K + w} for n, m, w in p["state"]]
        fh.write(json.dumps(d, ensure_ascii=False) + "\n")

man = {"version": 1, "setup_cmd": "python3 -m sa.selftest",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 -m sa.run {p['id']}", "thorough_cmd": f"python3 -m sa.run {p['id']} --tier thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"}
                  for p in PROPS if p["technique"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
       "notes": "Static analysis only: an abstract interpreter for the repository's Python/numpy subset (sa/) reads /repo/src on every run; nothing of "
                "/repo is imported or executed. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed,", len(man["not_applicable"]), "not applicable")
