#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "Every obligation generated from the current source is discharged for all inputs and all iterations, function by function. Assumes: the contracts of storage and crypto interfaces stated in contracts/10_store.gspec, the library models listed in the evidence, the SSA front end, this verifier and z3."
C = {}
for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37".split():
    C[i] = {"level_note": N}
json.dump(C, open(os.path.join(root, "tools/claims.json"), "w"), indent=1)
