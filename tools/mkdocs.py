"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.proptable import PROPS, NOT_APPLICABLE  # noqa

LEVEL_NOTE = ("Each listed method carries a contract (explicit closed-form postcondition over its constructor arguments and the observation points); "
              "the verifier symbolically executes the current source of /repo for all inputs and all array shapes and discharges every obligation, then "
              "evaluates the same contracts on the real package. Trusted: engine/ (term rewriting, Python/numpy semantics), the assumed contracts of numpy/scipy "
              "functions, z3; floating point treated as real arithmetic (rounding only covered by the concrete evaluations). Contracts that fall outside the "
              "symbolic subset are listed as bounded in the evidence and not counted as proved.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  observe_at=p.get("observe", [])))
            assert len(d["title"]) <= 80, d["title"]
            fh.write(json.dumps(d) + "\n")
    checks = []
    na = {i for i, _ in NOT_APPLICABLE}
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           technique=p.get("technique", "function contracts on the real source, discharged by symbolic execution + normal-form prover + z3"),
                           level=p.get("level", "proof"), level_note=p.get("note", "") + LEVEL_NOTE))
    m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks,
             not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
