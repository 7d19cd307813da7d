"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from catalogue import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = dict(version=1, setup_cmd="python3-vt tools/setup.py",
         checks=[dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']}", thorough_cmd=f"python3-vt check.py {p['id']} --thorough",
                      technique="contracts on the real C functions, verification conditions from clang's AST discharged by z3/cvc5 (concrete replay for counterexamples)",
                      level="proof", level_note=p["note"]) for p in PROPS],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
         notes="No hooks in /repo: the verifier reads clang's AST of the unmodified translation units. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
