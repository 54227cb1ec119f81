"""Writes MANIFEST.json from harnesses.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harnesses import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert sorted(list(PROPS) + list(NOT_APPLICABLE)) == sorted(ids), set(ids) ^ set(list(PROPS) + list(NOT_APPLICABLE))
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(guard="none", enable="no hooks: the harnesses use the public API only", source_commits=[]),
    checks=[dict(
        property=i,
        quick_cmd="python3 check.py " + i,
        thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique="symbolic execution of the crate's LLVM IR with Z3 deciding every branch, assertion and panic",
        level="model_checking",
        level_note="Holds for every value within: " + PROPS[i]["bounds"] + (". Outside: " + PROPS[i]["outside"] if PROPS[i].get("outside") else "")
        + ". Trusted: rustc to LLVM IR, the executor in engine/ (path witnesses are re-run natively and compared), Z3.",
    ) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i in NOT_APPLICABLE],
    notes="See DESIGN.md. Counterexamples are replayed natively before a VIOLATION is printed.",
)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
