#!/usr/bin/python3
"""Writes DESIGN.md:  python3 tools/design.py"""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog

V = catalog.VERIF


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "RULE", "ASSUMPTIONS"):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    o = [open(os.path.join(V, "tools", "design_head.md")).read(), "## Properties\n"]
    for p in catalog.P:
        o.append("### %s %s\n" % (p["id"], p["title"]))
        o.append(p["statement"] + "\n")
        path = os.path.join(V, "checks", p["id"].lower() + ".py")
        if p["na"] or not os.path.exists(path):
            o.append("Not claimed: %s\n" % (p["na"] or "no check built"))
            continue
        c = consts(path)
        o.append("* Method: %s." % p["technique"])
        o.append("* Explored: %s." % c.get("RULE", p["note"]))
        o.append("* In numbers: %s." % p["note"])
        if c.get("ASSUMPTIONS"):
            o.append("* Assumes: %s." % "; ".join(c["ASSUMPTIONS"]))
        o.append("* Beyond the tests: %s" % p["why"])
        o.append("* Anchors: %s.\n" % ", ".join("%s (%s)" % (n, w) for n, w in p["mech"]))
    o.append("## Defects found on the original tree\n")
    o.append("All were confirmed on the real code by the check named and repaired in a `fix:` commit of `/repo` unless marked as a finding.\n")
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.strip():
            o.append("* " + l.strip())
    o.append("\n## Planted bugs\n")
    o.append("Each was written from the property and the code, validated in a scratch copy (applies, builds, stable tests pass, demonstration "
             "fails with it and passes without), and run against the check of its property.\n")
    o.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    res = {}
    rp = os.path.join(V, "tools", "seed_results.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
    for s in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
        o.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), res.get(s, "?")))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
