"""fills tools/DESIGN.template.md (run by hand after all checks, on the unchanged tree)"""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.proptable import PROPS  # noqa
from tools.designnotes import NOTES  # noqa


def main():
    t = open(os.path.join(HERE, "tools/DESIGN.template.md")).read()
    out = []
    for p in sorted(PROPS, key=lambda q: q["id"]):
        n = NOTES[p["id"]]
        e = json.load(open(os.path.join(HERE, "evidence/%s.json" % p["id"])))["coverage"]
        out.append("### %s %s" % (p["id"], p["title"]))
        out.append("* specified: " + n["spec"])
        out.append("* oracle: " + n["oracle"])
        if n.get("lemmas"):
            out.append("* lemmas: " + n["lemmas"])
        out.append("* bounds: " + n.get("bounds", "none"))
        out.append("* why tests cannot: " + p["why"])
        out.append("* last run on this tree: %d functions under contract, %d obligations (+ %d lemmas), %d discharged, %d contracts bounded, %d evaluations of the contracts on the built package, %d z3 queries"
                   % (len(e["functions_under_contract"]), e["obligations"], e["lemmas"], e["discharged"], e["bounded_cases"], e["runtime_contract_evaluations"], e["z3_queries"]))
        out.append("")
    t = t.replace("@@PROPS@@", "\n".join(out))
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    t = t.replace("@@FIXED@@", "\n".join("* `%s` (%s) %s" % (k["commit"], k["property"], k["what"].split(k["commit"], 1)[-1].strip()) for k in kf if k["status"] == "fixed"))
    t = t.replace("@@OPEN@@", "\n".join("* %s, `%s`: %s" % (k["property"], k["case"], k["what"]) for k in kf if k["status"] != "fixed"))
    rows = ["| change | property | needs | caught |", "|---|---|---|---|"]
    caught = json.load(open(os.path.join(HERE, "tools/caught.json")))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        m = json.load(open(d))
        s = os.path.basename(os.path.dirname(d))
        rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], caught.get(s, "not run")))
    t = t.replace("@@SEEDS@@", "\n".join(rows))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)


main()
