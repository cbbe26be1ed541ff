TECH = "contract-based deductive verification of the Go source (VCs from go/ssa, z3/cvc5), scenario replay for failing inputs"
BASE = ("Every obligation generated from the functions' current SSA is discharged for all inputs and iterations, caller against callee contract. "
        "Trusted: go/ssa, the verifier govc, z3/cvc5, runtime models; hooks and externals by assumed contracts. "
        "A bounded scenario replay on the real code supplies failing inputs and is not counted as proof. ")
CLAIMS = {
    "C04": {"note": BASE},
    "C12": {"note": BASE},
    "C16": {"note": BASE},
    "C17": {"note": BASE},
}
NA = {}
for i in range(1, 22):
    NA["C%02d" % i] = "no check registered yet: its contracts are still being written"
