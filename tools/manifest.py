# Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)
import json, sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from tasks import CHECKS
NA = {
 "C24": "the parser recurses without a depth limit and the code states none; a bounded symbolic run can neither show that no depth exhausts the stack nor give a bound the code promises (stack frames are a matter of the back end, not of the encoded IR)",
 "C25": "asymptotic cost is a statement about unbounded input lengths; symbolic execution decides it for no length beyond the bound, and no documented promise gives a concrete cost that could be checked within one",
}
ALL = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
for p in ALL:
    if p not in CHECKS and p not in NA:
        NA[p] = "check not built yet"
checks = []
for p, s in CHECKS.items():
    checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", evidence_file=f"evidence/{p}.json",
        technique="symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3), " + ("compared with a reference tokenizer" if s["kind"] == "lexer" else "compared with a reference parser"),
        level="model_checking",
        level_note="Holds for every input within the stated bounds (see coverage.bounds in the evidence), nothing beyond them. Trusts the IR interpreter (checked against native runs on a sample of paths each time), Z3, rustc up to its LLVM IR at opt-level 1, and the reference in harness/src."))
print(json.dumps(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    hooks=dict(guard="cfg(lolcode_verif)", enable="RUSTFLAGS='--cfg lolcode_verif' (harness/build.sh)", source_commits=["c2ea401", "2ce5274"]),
    notes="./check PROPERTY quick|thorough; ./check replay FILE runs a recorded counterexample natively; see DESIGN.md"), indent=1))
