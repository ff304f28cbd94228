"""Assemble DESIGN.md from the hand-written parts, the property list and the checks' own bounds."""
import os, sys, json, glob, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import spec
from design_how import HOW


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip("\n"), ""]
    for q in spec.P:
        out.append("### %s %s" % (q["id"], q["title"]))
        out.append("")
        if q["na"]:
            out += ["Not applicable: " + q["na"], ""]
            continue
        m = importlib.import_module("checks." + q["id"])
        out.append(HOW.get(q["id"], ""))
        ev = os.path.join(HERE, "evidence", q["id"] + ".json")
        out.append("")
        out.append("* Technique: %s." % q["tech"])
        out.append("* Bounds: %s." % m.BOUNDS.rstrip("."))
        out.append("* Outside: %s." % m.OUTSIDE.rstrip("."))
        if getattr(m, "ASSUMPTIONS", None):
            out.append("* Trusted: %s." % "; ".join(m.ASSUMPTIONS))
        out.append("")
    out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip("\n"))
    out += ["", "| planted change | property | needs |", "|---|---|---|"]
    for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(p))
        out.append("| %s | %s%s | %s |" % (os.path.basename(os.path.dirname(p)), d["property"], "" if d.get("caught", True) else " (missed)", d["needs"].replace("|", "/")))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
