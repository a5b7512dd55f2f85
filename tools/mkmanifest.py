#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORD = "contracts on the field routines, discharged by symbolic execution of their SSA (and amd64 assembly) with exact modular linear arithmetic"
PROOF = {
 "C01": (WORD, "All inputs, all aliasings, all seven shipped fields, portable Go and amd64 assembly. Trusts: x/tools SSA, the executor in /verif/vcg, the instruction semantics in vcg/asm.py. The harness run alongside is a search for failing inputs and is not counted."),
 "C02": (WORD, "All inputs, all aliasings, all seven fields, portable Go and amd64 assembly. Trusts as C01."),
 "C03": (WORD + "; exponent domain for the fixed exponent; loops cut with arbitrary state", "Inverse, Div, the exponentiation fallback, SetRandom and bignum.Exp (every exponent) for all inputs; the seven moduli are proved prime in Lean (Lucas certificates, re-checked on every run). The field packages' own Exp and BatchInvert are bounded (harness), not proved."),
 "C04": (WORD, "All inputs, all seven fields, for the fixed-width encoders and decoders; SetBigInt and SetBytes for integers and byte strings of every length given math/big's documented behaviour. SetString, Text and JSON are not covered."),
 "C05": (WORD, "All pairs of reduced elements, all seven fields. Trusts as C01."),
}
GEN = "contracts on the generic code, discharged by symbolic execution of its SSA with z3 and polynomial normal forms; lemmas in Lean"
GT = " Trusts: x/tools SSA, the executor in /verif/vcg, z3, Lean; assumes the field contracts (C01-C05) for the element type, non-nil unaliased elements, lengths as mathematical integers in range."
PROOF.update({
 "C06": (GEN, "All lengths and contents, destination equal to any whole operand, every helper and operator method." + GT),
 "C07": (GEN, "Kernels, transformers, operators and evaluators for all power-of-two ranks; constructors included: the root search finds a primitive root whenever the modulus admits one, tables, inverse of the rank." + GT),
 "C08": (GEN, "All ranks, points and N >= 1." + GT),
 "C09": (GEN, "All odd indices and all power-of-two ranks, in place or not, both forms." + GT),
 "C10": (GEN, "All integers and moduli." + GT),
})
PROOF.update({
 "C12": (GEN + "; the circuit-level statement by a bounded stand-in", "Proved: the digit base of every bound, the greedy decomposition of every value within the bound uses digits -1, 0, 1 and accounts for it, and the reachable sums are exactly -B..B. Bounded: the norm constraints end to end (that the compiled circuit enforces them)." + GT),
})
PROOF.update({
 "C11": (GEN, "Proved for all vectors and supported ranks: the transform, automorphism (both forms), projection and recomposition checkers compute the declared map, and their declared transposes compute its transpose (adjointness in Lean from the two contracts); their constructors, including the inverse index, meet the checkers' preconditions. A bounded harness also runs: the same maps compiled, and their use in whole circuits. User-supplied maps are outside (they are the user's code)." + GT),
})
PROOF.update({
 "C13": (GEN + "; the protocol around the identity by a bounded stand-in", "Proved: the value the verifier compares is the constraints combined by Horner's rule in the batching constant, each constraint its own power, for every list of constraints (arithmetic and linear), and it accepts exactly when the batched identity at the evaluation point (and, for linear constraints, the low-degree condition) holds; the encoder interpolates; the prover's batch polynomial obeys the same recurrence at every entry. Lean: a violated constraint leaves fewer than n bad batching constants. Linear checkers enter as functions of their identity and input vector. Bounded: Verify's transcript and the commitments around it (dishonest provers)." + GT),
 "C14": (GEN + "; the protocol around the identity by a bounded stand-in", "Proved: the verifier accepts exactly when the remainder's shifted evaluation shows low degree and the batched identity with the declared sums divided by the rank holds, for all constraints and sums. Lean: such a polynomial's values on the slots add up to rank times its constant term. Bounded: the protocol around it (dishonest provers)." + GT),
 "C21": (GEN + "; the distribution by a bounded stand-in", "Proved, for every seed, history and bound: Read hands out consecutive bytes of the AES-CTR stream of SHA-384(seed) through its buffer, Sample and SampleN are the stream's next eight bytes and their rejection-reduced values (so below the bound, deterministic in the seed, no byte used twice), and the constructors start that stream at its beginning. Not claimed: that rejection terminates (it depends on the stream). Trusted: SHA-384 and AES-CTR as functions, XORKeyStream as exclusive or with the keystream. Bounded: uniformity by counting over small bounds." + GT),
})
PROOF.update({
 "C22": (GEN, "Proved for every requested range: what is returned is b^k + 1 with k a power of two, within the range, base at most 2^25, passing the primality test, 2^31 dividing p - 1, or else failure reported with zeros; and the search ends. Floating-point results are arbitrary numbers to the proof, so nothing depends on them (also: which of the possible moduli is found, or that one is found when one exists, is not claimed). Trusts math/big: Exp as the integer power, and ProbablyPrime(64) taken for primality. A harness runs the search on real ranges and re-verifies the result. Trusts: x/tools SSA, the executor in /verif/vcg, z3, Lean."),
 "C18": (GEN + "; the randomised encoder and lattigo's transforms by a bounded stand-in", "Proved for every ring modulus chain, base, exponent and value: digit splitting (toBalanced, baseEncodeTo), recomposition (DecodeTo, reconstructTo), residue setting and the encoder's parameters; Lean: decoding undoes encoding, the top digit, uniqueness of the residue reconstruction, the blinding term decodes to zero. Assumed: the ring library's promises (moduli above one, pairwise coprime, divide the product) and math/big's documented behaviour. Bounded: the randomised encoders (floats) and the NTT/Montgomery conversions of the ring library." + GT),
 "C19": (GEN + "; the opening protocol around the equations by a bounded stand-in", "Proved, for all parameters, proofs and points: the shape test; the evaluation vectors; and each of the verifier's four equations: verifyOuterCommitment and verifyInnerCommitment accept exactly when the norm of all revealed vectors and of every row's remainder (combined commitments times the cut-off, less the key's rows times what was revealed) is below the bound; verifyConsistency accepts exactly when the combined encodings less the combined partial evaluations and the mask is zero; verifyEval exactly when the decoded partial evaluations at the powers of the point give the (batched) claimed value; encodeTo and DecodeTo as functions of the ring element. The ring library's operations (Montgomery products, transforms, change of basis) are taken as the documented functions of the elements' values, with reduced operands proved at each call; floats as opaque numbers. Bounded: Verify's own composition, the prover, and the protocol (honest openings accepted, altered and dishonest ones rejected)." + GT, "exploration"),
 "C20": (GEN + "; altered proofs by a bounded stand-in", "Proved: the vector shape test accepts exactly the declared shape, and the well-formedness test accepts a proof only if every part has its declared shape. Pointers are taken non-nil there; nil parts, and that every altered proof is rejected without a panic, are covered by the generated alterations only." + GT, "exploration"),
})
PROOF.update({
 "C23": ("frame contracts inferred bottom-up from the SSA of the real code (access paths: what each function writes, what its results refer to) and checked function by function; bounded stand-in for the results computed concurrently", "Proved: what SafeCopy of the prover (with its encoder, reconstructor and samplers) shares with its original is only the fields listed in the evidence; no function of jindo or csprng, nor anything they call including the ring library, writes through those fields or writes a package-level variable; making a copy writes nothing of the original. So no interleaving of operations on original and copy lets one see the other's writes. Trusted: x/tools SSA, the frame inference in /verif/vcg/frames.py, the stated frames of math/big, SHAKE, AES-CTR, bufio, the ring library's WriteTo and the element methods (they write their receiver). Bounded: that both compute what a fresh twin computes (harness)."),
})
B = "bounded stand-in: randomized and boundary inputs on the compiled code against exact integer arithmetic"
for _i in ("C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23"):
    PROOF.setdefault(_i, (B, "Bounded: only the generated inputs are covered (see DESIGN.md for the generators and the oracle); nothing is counted as proved.", "exploration"))
NA = {
 "C24": "statistical distance to the discrete Gaussian is a statement about real-valued distributions (exp, erf, infinite sums, float64 tables); no contract over the code's states within reach of a deductive verifier expresses it, and the table construction needs verified floating-point analysis of math/big-free float64 code that no available tool provides",
 "C25": "zero knowledge and computational soundness quantify over adversaries and distributions (reductions to Module-SIS/LWE); they are not functional contracts on code. The checkable ingredients are claimed as C13, C14, C15, C19, C20",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in PROOF:
        t, n = PROOF[i][:2]; lv = PROOF[i][2] if len(PROOF[i]) > 2 else "proof"
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=t, level=lv, level_note=n))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
