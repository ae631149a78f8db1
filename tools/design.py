#!/usr/bin/env python3
"""
Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the property texts (tools/meta.py), the laws (harness/props) and
the planted bugs (seeded/*/meta.json).  Run by hand with the repository's python; no check needs it.
"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(HERE, "tools"), "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import meta  # noqa: E402
from design_notes import NOTES  # noqa: E402


def seeded():
    out = {}
    for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        with open(path) as f:
            m = json.load(f)
        out.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(path)), m))
    return out


def main():
    parts = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
    bugs = seeded()
    for p in meta.P:
        path = os.path.join(HERE, "harness", "props", p["id"].lower() + ".py")
        if not os.path.exists(path):
            continue
        mod = importlib.import_module("props." + p["id"].lower())
        note = NOTES[p["id"]]
        parts += ["### %s. %s" % (p["id"], p["title"]), "", p["statement"], ""]
        parts += ["- *Quantified over*: %s" % p["text"]]
        parts += ["- *Oracle*: %s" % note["oracle"]]
        parts += ["- *Generated*: %s" % note["gen"]]
        parts += ["- *Bounds*: %s" % note["bounds"]]
        parts += ["- *Cost (quick)*: %s" % note["cost"]]
        parts += ["- *What tests cannot reach*: %s" % p["why"]]
        parts += ["- *Non-trivial*: %s" % mod.RULE]
        for a in mod.ASSUMPTIONS:
            parts += ["- *Assumed*: %s" % a]
        parts += ["- *Laws*:"]
        for lw in mod.LAWS:
            n = "enumerated" if not lw.quick else "%d cases%s" % (lw.quick, " and some enumerated" if lw.enumerate_cases else "")
            parts += ["  - `%s` (%s): %s" % (lw.name, n, " ".join(lw.doc.split()))]
        if p["id"] in bugs:
            parts += ["- *Planted bugs it catches*: " + ", ".join("`%s`" % b for b, _ in bugs[p["id"]])]
        parts += [""]
    parts += ["## Planted bugs", "",
              "Each is caught by the quick check of its property at seed 1 (`VIOLATION` within seconds).", "",
              "| id | property | what it breaks | needs |", "|---|---|---|---|"]
    for prop in sorted(bugs):
        for b, m in bugs[prop]:
            parts += ["| %s | %s | %s | %s |" % (b, prop, " ".join(str(m["what_it_breaks"]).split()).replace("|", "/"),
                                                " ".join(str(m["needs"]).split()).replace("|", "/"))]
    parts += ["", open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip(), ""]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(parts))


if __name__ == "__main__":
    main()
