#!/usr/bin/env python3
"""writes levels.json: how each property is decided"""
import json
T = "contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; failing inputs by evaluating the same contracts on the compiled code"
N = {
 "C01": "proved for every operator, constructor and mixture of operands, all inputs; field axioms and the linked list are assumed",
 "C02": "proved for every assertion and test; field axioms assumed",
 "C03": "proved for both selections and the lookup; field axioms assumed",
 "C04": "proved for all widths and values; the bit length of the modulus is assumed (and evaluated)",
 "C05": "proved for all list lengths up to the machine width",
 "C06": "proved for all parameter sets and input counts, circuit and native, salted variants included",
 "C07": "proved for all depths and leaf counts below 2^58",
 "C08": "proved for all points and representations; the curve coefficients' quadratic characters are assumed (and evaluated)",
 "C09": "proved for all points and scalars; associativity of the group law and the group order are assumed",
 "C10": "proved, circuit functions against the group law of C08",
 "C11": "proved for all bit list lengths, constant and variable bases",
 "C12": "proved",
 "C13": "proved; the quadratic character of the parameter u is assumed (and evaluated)",
 "C14": "proved; the hash function is an uninterpreted function",
 "C15": "proved",
 "C16": "proved down to the dependency's integer type; num_bigint and the integer type are assumed",
 "C17": "field elements (binary, text) and fixed-length vectors proved; serde and borsh derives of points and Merkle proofs are evaluated only",
 "C18": "proved for both curves and all encodings; the pairing library's points and subgroup multiples are assumed",
 "C19": "proved; bellman's constraint system and the pairing are assumed",
 "C21": "proved for vectors of any length, tuples up to 17 and the derived structures",
 "C22": "proved for numbers, booleans, vectors, tuples and derived structures",
 "C23": "generator and hash parameters proved; curve constants evaluated",
 "C26": "proved",
}
L = {k: {"technique": T, "level": "proof", "note": v} for k, v in N.items()}
L["C20"] = {"technique": "bounded evaluation of the shape contract on the compiled code (stand-in, not counted as proved)", "level": "exploration",
  "note": "relational property of two runs; bounded: every gadget synthesised without and with sampled witnesses and compared"}
json.dump(dict(sorted(L.items())), open("/verif/levels.json", "w"), indent=1)
open("/verif/levels.json", "a").write("\n")
