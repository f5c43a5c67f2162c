"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note, observe=observe or []))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                                                     "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    have = glob.glob(os.path.join(HERE, "vp", "contracts", p["id"].lower() + "_*.py"))
    if p["na"] or not have:
        na.append({"property": p["id"], "reason": p["na"] or "contracts for this property are not written yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "contract-based deductive verification of the real Python source (symbolic execution to verification conditions; field normal form, z3, cvc5), bounded run-time contract checks as stand-in",
                   "level": "proof", "level_note": p["note"] or "Proved over real arithmetic for every input in the contract's precondition, with library contracts for numpy/pandas/scipy assumed; obligations the verifier leaves undecided fall back to bounded run-time evaluation of the same contract on the real code, labelled bounded in the evidence."})
m = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Evidence is rewritten by every run."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
