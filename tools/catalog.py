#!/usr/bin/python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(VERIF, "tools", "catalog_entries.py")).read())


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "checks")) if f[0] == "c" and f[1:3].isdigit()}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": [],
           "notes": "One runner for all checks: tools/run <id> builds the C++ extension modules from /repo (against "
                    "minipybind, a stand-in for the absent pybind11) and explores checks/<id>.py. Replay a violation "
                    "with tools/run <id> --replay <path>."}
    for p in P:
        if p["id"] in built and not p["na"]:
            man["checks"].append({
                "property": p["id"], "quick_cmd": "tools/run %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough tools/run %s" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"],
                "evidence_file": "evidence/%s.json" % p["id"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(man["checks"])))


if __name__ == "__main__":
    main()
