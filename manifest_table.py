T = 'deductive verification of the compiled code (LLVM IR regenerated from /repo on every run): contracts, loop invariants and lemmas discharged by a VC generator + z3'
N = 'Proof for all inputs under the stated preconditions; trusts rustc/LLVM lowering, llvc/ (own VC generator), z3, specs.py. If a changed function leaves the verifier\'s reach the check falls back to a bounded native comparison and says so in the evidence.'
CH = {p: (T, N) for p in ['C%02d' % i for i in range(1, 19)]}
NA = {}
NOTES = 'see DESIGN.md'
