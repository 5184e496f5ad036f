"""Writes properties.jsonl and MANIFEST.json from vt/props.py."""
import json, os
from .props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def line(pid, p):
    assert len(p["title"]) <= 80, p["title"]
    return {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}


def main():
    allp = dict(PROPS)
    allp.update(NA)
    for p in allp.values():
        for f in p["files"] + [b for a, b in p["mech"]]:
            assert os.path.exists("/repo/" + f), f
    with open(V + "/properties.jsonl", "w") as o:
        for pid in sorted(allp):
            o.write(json.dumps(line(pid, allp[pid])) + "\n")
    checks = []
    for pid in sorted(PROPS):
        p = PROPS[pid]
        checks.append({
            "property": pid, "quick_cmd": "python3 -m vt.check %s quick" % pid, "thorough_cmd": "python3 -m vt.check %s thorough" % pid,
            "technique": "symbolic execution of the real code at LLVM IR level, claims decided by Z3, counterexamples replayed natively",
            "level": p["level"],
            "level_note": "Holds for every value within the bounds: %s. Assumes: %s." % (p["bounds"], "; ".join(p["assumptions"]))})
    m = {"version": 1, "setup_cmd": "python3 -m vt.setup", "checks": checks,
         "not_applicable": [{"property": k, "reason": NA[k]["reason"]} for k in sorted(NA)],
         "notes": "No hooks in /repo: the engine instruments at compile time. See DESIGN.md."}
    with open(V + "/MANIFEST.json", "w") as o:
        json.dump(m, o, indent=1)
        o.write("\n")


main()
