"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E7 = "eip7594/src/"
V, PR, RC, SER, LIB, ERR = E7 + "verifier.rs", E7 + "prover.rs", E7 + "recovery.rs", E7 + "serialization.rs", E7 + "lib.rs", E7 + "errors.rs"
FK = "cryptography/kzg_multi_open/src/fk20/"
MIR = "abstract interpretation of monomorphised MIR (outcome tables with path facts), rule on every outcome"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=MIR, note="", observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe), na=na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                   "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 engine/farm.py multi", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: the tree is type-checked by a rustc driver that dumps MIR, and the analyses run on that dump (and on the Go, Java, C header, C#, Nim and TypeScript sources). Nothing of /repo is executed except cargo check (build scripts and macros)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "n/a")
