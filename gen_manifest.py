#!/usr/bin/env python3
"""writes MANIFEST.json from the tables below"""
import json
NA = {
 "C24": "The generated contract is Solidity text run by the EVM: no Solidity compiler, EVM or Solidity verifier is installed, and no contract on the Rust template function can state what the emitted program computes.",
 "C25": "Knowledge soundness and zero knowledge of Groth16 are cryptographic statements about all provers under hardness assumptions, implemented in the bellman dependency; they are not pre/postconditions of any function of this repository.",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
try:
    LV = json.load(open("/verif/levels.json"))
except FileNotFoundError:
    LV = {}
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
for p in ids:
    if p in NA:
        continue
    lv = LV.get(p, {})
    m["checks"].append({"property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p, "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
        "technique": lv.get("technique", "contracts evaluated on the real code"), "level": lv.get("level", "exploration"),
        "level_note": lv.get("note", "bounded evaluation of the contract on the real code")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
