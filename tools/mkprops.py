#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
FIELD = ["buckler/internal/zp110/element.go", "buckler/internal/zp110/element_purego.go", "buckler/internal/zp220/element.go",
         "buckler/internal/zp220/element_purego.go", "buckler/internal/zp440/element.go", "buckler/internal/zp440/element_purego.go",
         "buckler/internal/zp880/element.go", "buckler/internal/zp880/element_purego.go", "jindo/internal/zp/element.go",
         "jindo/internal/zp/element_purego.go", "examples/mult/zp/element.go", "examples/mult/zp/element_purego.go",
         "examples/bfv/zp/element.go", "examples/bfv/zp/element_purego.go"]
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Field addition, subtraction, negation, doubling and halving are exact",
  "In every prime field the system ships, adding, subtracting, negating, doubling, halving and conditionally selecting elements yields exactly the element "
  "the integers modulo the field's prime prescribe, always in the one canonical reduced representation, whichever of the operands and the result are the same variable. "
  "The operands that are not the result keep their values.",
  ["inputs", "configurations"], "for every pair of reduced field elements, every aliasing of operands and result, and every shipped field (portable code)",
  "The tests sample random elements and a few corner values; a lost carry or a missed final reduction shows on a fraction of about 2^-64 of the inputs.",
  FIELD, [("carry chains and the final conditional subtraction", "element.go: Add, Sub, Neg, Double, Halve, Select; element_purego.go: reduce")],
  ["return values of Add/Sub/Neg/Double/Halve/Select", "limb representation of the result"])
p("C02", "Montgomery multiplication, squaring and conversions are exact and reduced",
  "In every shipped field, multiplying, squaring and converting elements in and out of the internal representation equals exact integer arithmetic modulo the prime, "
  "and the result is always fully reduced, whichever operands and result coincide.",
  ["inputs", "configurations"], "for every pair of reduced elements, every aliasing and every shipped field (portable code)",
  "Random sampling cannot reach the rare carry patterns; the tests compare code paths generated by the same template with each other.",
  FIELD, [("word-by-word Montgomery reduction whose top carries are dropped", "element_purego.go: Mul, Square, fromMont, mul-generic; element.go: toMont/FromMont helpers")],
  ["return values of Mul/Square/MulAssign and the value read back as an integer"])
p("C03", "Inversion, division, powers and batch inversion obey the field laws",
  "For every element, its inverse multiplied by it is one (and the inverse of zero is zero), division is multiplication by the inverse, exponentiation by any "
  "integer exponent equals repeated multiplication, and inverting a whole vector equals inverting each entry with zero entries left zero.",
  ["inputs"], "for every element, exponent and vector of every length, in every shipped field and in the generic exponentiation helper",
  "Tests draw random elements; special values (0, 1, q-1), exponent 0, negative exponents and vectors with zeros at particular positions are not exhausted.",
  FIELD + ["math/bignum/bignum.go"], [("binary GCD with self check and fallback", "element.go: Inverse"), ("square and multiply", "element.go: Exp; bignum.go: Exp"),
   ("Montgomery batch-inversion trick", "element.go: BatchInvert")], ["Inverse, Div, Exp, BatchInvert, bignum.Exp return values"])
p("C04", "Field element encodings round-trip and only canonical encodings are accepted",
  "Converting a field element to bytes (either byte order), to 64-bit words, or to an integer and back gives the same element; the encoded value is the unique integer in "
  "[0, prime) it represents; integers of any size and sign and byte strings of any length are reduced modulo the prime; decoders that demand canonical input reject exactly the values at or above the prime.",
  ["inputs"], "for every element, every byte string, every integer and every shipped field",
  "Tests check random round trips; values at and just above the prime, negative integers, over-long byte strings and the two byte orders are covered by samples only.",
  FIELD, [("byte order put/get, bit length checks, modular reduction", "element.go: BigEndian, LittleEndian, SetBytes, SetBytesCanonical, SetBigInt, BigInt, SetInt64, SetUint64, Slice, Marshal, Unmarshal")],
  ["Bytes/Marshal/Slice/BigInt outputs", "SetBytes*/SetBigInt/Unmarshal results and errors"])
p("C05", "Field comparisons and predicates agree with the represented integers",
  "Equality, zero/one tests and the three-way comparison of field elements agree with the canonical integers the elements represent, for all pairs.",
  ["inputs"], "for every pair of reduced elements of every shipped field",
  "Two random elements practically never share high words, so the lower words of a comparison are never what decides a test.",
  FIELD, [("word-wise comparison on converted words", "element.go: Cmp, Equal, NotEqual, IsZero, IsOne, LexicographicallyLargest, smallerThanModulus")],
  ["Cmp, Equal, IsZero, IsOne results"])
p("C06", "Vector and polynomial arithmetic is coefficient-wise for every length",
  "Adding, subtracting, negating, scaling and multiplying polynomials and vectors acts coefficient by coefficient for every rank, sums accumulate where the operation says so, copies are deep, "
  "and nothing outside the destination (no neighbouring memory, no operand) changes, whether or not destination and operand vectors coincide (a scalar operand must not be a coefficient of the destination); the representation flag of the result follows the operands.",
  ["inputs"], "for every rank, all coefficient values and every aliasing of destination and operands",
  "The tests use a handful of power-of-two ranks of at least 16 with distinct operands; other ranks, tails and aliasing are never exercised.",
  ["math/bigpoly/vec.go", "math/bigpoly/base_op.go", "math/bigpoly/poly.go", "math/bigpoly/utils.go"],
  [("unrolled loops over blocks of eight", "vec.go"), ("evaluator wrappers with shape checks", "base_op.go"), ("deep copy", "poly.go: CopyFrom, Copy")],
  ["coefficients of the destination polynomial", "coefficients of the operands after the call"])
p("C07", "Number-theoretic transforms are evaluation at the right roots and exact inverses",
  "For every power-of-two rank the field supports, the forward transform outputs the input polynomial's values at the primitive roots of the ring in the documented order, the inverse transform undoes it exactly, "
  "and hence multiplying transformed polynomials is multiplication modulo X^N+1 (respectively X^N-1).",
  ["inputs", "configurations"], "for all coefficient values and every power-of-two rank dividing what the field supports, both ring types",
  "Tests use one rank per transform and random vectors; the small-rank path, the unrolled path and each boundary stage are separate code.",
  ["math/bigpoly/ntt.go", "math/bigpoly/vec.go"],
  [("butterfly networks (reference and unrolled)", "ntt.go"), ("twiddle tables in bit-reversed order", "ntt.go: New*Transformer"), ("bit reversal", "vec.go")],
  ["FwdNTTTo/InvNTTTo outputs", "product polynomials"])
p("C08", "Polynomial evaluation and division by the vanishing polynomial are exact",
  "Evaluating a polynomial at a point returns the sum of its coefficients times powers of the point, and dividing by X^N-1 returns a quotient and a remainder of degree below N with dividend = quotient*(X^N-1)+remainder, for every rank and every N of at least 1.",
  ["inputs"], "for every polynomial, point, rank and N in range",
  "Only one rank and N combination is exercised indirectly by end-to-end tests.",
  ["math/bigpoly/poly.go", "math/bigpoly/cyclic.go"], [("Horner evaluation", "poly.go: Evaluate"), ("synthetic division from the top", "cyclic.go: QuoRemByVanishing")],
  ["Evaluate result", "quotient and remainder coefficients"])
p("C09", "Ring automorphisms act as X -> X^d in both representations",
  "Applying the automorphism of odd index d maps coefficient i to position i*d modulo 2N with the sign of the wrap-around, for every odd d (also negative or beyond 2N), also in place, and doing so in the transformed representation gives the transform of the same result.",
  ["inputs"], "for every odd index, rank and polynomial, in place or not",
  "The tests use a fixed small index on one rank.",
  ["math/bigpoly/cyclotomic.go", "math/bigpoly/vec.go"], [("index map modulo 2N", "cyclotomic.go: AutTo"), ("bit-reversal permutation around the NTT-domain map", "cyclotomic.go, vec.go: bitReverseInPlace")],
  ["AutTo output in both domains"])
p("C10", "Modulus switching rounds to the nearest multiple",
  "Switching a coefficient vector from modulus Q to the field's modulus q returns, for each coefficient c, the integer nearest to c*q/Q reduced modulo q, for every integer c of either sign and every Q.",
  ["inputs"], "for every coefficient, every modulus Q >= 1 and rank",
  "Not covered by any unit test; only random ciphertexts in an example.",
  ["math/bigpoly/cyclotomic.go"], [("centred remainder subtraction before exact division", "cyclotomic.go: ModSwitchTo")], ["ModSwitchTo output"])
p("C11", "Linear-relation checks use the exact transpose of the declared transformation",
  "For every linear transformation a circuit can declare (number-theoretic transform, automorphism, and user-supplied transforms), the transposed transformation used when proving satisfies <A x, y> = <x, A^T y> for all x and y, so a linear constraint is provable exactly when it holds.",
  ["inputs", "configurations"], "for all vectors x, y, every rank, every odd automorphism index",
  "The end-to-end tests use one rank and index; adjointness for all vectors is an algebraic identity they sample once.",
  ["buckler/linear.go"], [("transposed transforms", "linear.go"), ("modular inverse of the automorphism index", "linear.go")], ["TransformTo / TransposeTo outputs"])
p("C12", "Range-proof digit bases cover exactly the values up to the bound",
  "For every bound B the digit base chosen for a range proof represents, with digits -1, 0 and 1, exactly the integers from -B to B; the decomposition of every integer in range uses only these digits and recomposes to it, so every witness within the bound can be proved and none beyond it (a two-norm bound needs at most as many digits as the rank).",
  ["inputs"], "for every bound, and every value within it",
  "Tests use one bound; powers of two and bounds 0 and 1 behave differently.",
  ["buckler/utils.go", "buckler/context.go", "buckler/prover.go"], [("base of halved powers summing to the bound", "utils.go"), ("greedy decomposition", "utils.go")], ["decomposition bases and digits; Prove on boundary witnesses"])
p("C13", "Every declared constraint is enforced on its own",
  "A proof is accepted only if each declared arithmetic constraint holds separately for the witness: the constraints are combined with pairwise independent random weights, identically on the prover's and the verifier's side, so violated constraints cannot cancel each other.",
  ["inputs", "programs"], "for every circuit with any number of constraints and every witness",
  "Tests prove only true statements; no test offers a witness violating two constraints in opposite ways.",
  ["buckler/prover.go", "buckler/verifier.go"], [("powers of a batching challenge", "prover.go, verifier.go: evalCircuit")], ["Verify result for violating witnesses"])
p("C14", "Sum constraints enforce the declared sum",
  "A sum constraint declared with value s is accepted exactly when the sum over all slots of the constrained expression equals s, for every s in the field and every number of such constraints.",
  ["inputs", "programs"], "for every declared value, any number of sum constraints and every witness",
  "All tests declare the value zero.",
  ["buckler/context.go", "buckler/prover.go", "buckler/verifier.go"], [("masked sum-check polynomial", "prover.go: sumcheck"), ("sum batching", "verifier.go")], ["Verify result"])
p("C15", "Challenges bind all earlier messages, identically for both sides",
  "In both protocols every random challenge is derived from a hash stream that has already absorbed all public inputs, commitments and claimed values it is meant to bind, and prover and verifier absorb the same data in the same order; changing any bound message or public input changes every later challenge.",
  ["inputs", "histories"], "for every message sequence and every public input",
  "Tests only run honest transcripts, for which a missing absorption is invisible.",
  ["buckler/prover.go", "buckler/verifier.go", "jindo/prover.go", "jindo/verifier.go"], [("running hash oracle", "prover.go/verifier.go in both packages")], ["order of writes to and reads from the oracle"])
p("C16", "Honest proofs are accepted",
  "For every circuit within the supported shapes (rank a power of two; a two-norm bound of at most rank bits; for approximate norms a rank of at least 128 times the digit count) and every witness satisfying its constraints, the produced proof verifies, also when the prover, verifier and commitment key are reused or copied and proofs are produced repeatedly.",
  ["inputs", "programs"], "for every satisfiable circuit/witness pair and repeated use",
  "Tests contain one circuit per feature, at one size and bound; combinations (two norm constraints, repeated constraints, power-of-two bounds) are not tried.",
  ["buckler/prover.go", "buckler/verifier.go", "buckler/compile.go", "buckler/context.go", "buckler/constraint.go"], [("prover and verifier mirror each other", "prover.go, verifier.go")], ["Verify result"])
p("C17", "Compilation rejects malformed circuits and sizes without wrap-around",
  "Compiling a circuit whose witnesses do not have the declared rank, at any nesting depth, is rejected rather than silently mis-assigned; for accepted circuits witnesses are numbered consistently in walk and assignment, and the proof-polynomial sizes chosen are large enough that no product of committed polynomials wraps around.",
  ["inputs", "programs"], "for every circuit structure, nesting, rank and constraint degree",
  "The tests compile a few flat circuits.",
  ["buckler/compile.go", "buckler/context.go", "buckler/constraint.go"], [("reflective walkers", "compile.go"), ("degree accounting", "context.go: maxDegree; constraint.go")], ["Compile error/success; parameters derived"])
p("C18", "Commitment encoding round-trips exactly",
  "Encoding a vector of field elements into ring polynomials in base-b digits, plainly or randomized, and decoding it returns the same field elements for all values; every digit of a plain encoding lies in [0, b), except that the top digit may be b for the value -1; unused slots encode zero; residue reconstruction returns the centred integer representative for every value.",
  ["inputs"], "for every field element and every parameter set",
  "Tests use random elements; extreme digits and carry chains at the top are rare.",
  ["jindo/encoder.go", "jindo/rns.go"], [("base-b digit decomposition", "encoder.go"), ("CRT reconstruction with centring", "rns.go")], ["Encode/Decode outputs", "digit magnitudes"])
p("C19", "Commitment openings are accepted only for the committed evaluations",
  "An honestly produced evaluation proof is accepted for any batch size and point, its claimed values are the true polynomial evaluations, and a proof is rejected, without crashing, whenever a claimed evaluation, the point or a commitment is altered, or a proof component is altered beyond the norm slack of the relaxed lattice relation, is not reduced, or has the wrong shape.",
  ["inputs", "fault_sequences"], "for every polynomial batch, point and single alteration of a proof",
  "Tests check one honest proof; no altered proof is ever offered.",
  ["jindo/prover.go", "jindo/verifier.go", "jindo/params.go", "jindo/entities.go"], [("norm check and three linear checks", "verifier.go: Verify")], ["Verify result"])
p("C20", "Altered proofs and public inputs are rejected without crashing",
  "The proof system's verifier returns rejection, and never panics, when any claimed evaluation, mask sum, commitment or public input of an otherwise valid proof is altered, or any part of it is altered beyond the norm slack of the relaxed lattice relation, removed or resized.",
  ["inputs", "fault_sequences"], "for every alteration of proof or public input",
  "No negative test exists for the proof system.",
  ["buckler/verifier.go", "jindo/verifier.go"], [("opening verification, circuit re-evaluation", "verifier.go")], ["Verify result"])
p("C21", "Uniform sampling is deterministic, in range and unbiased in construction",
  "A seeded uniform sampler is a pure function of its seed and the sequence of requests, consumes its stream without reuse, and bounded sampling returns values in range with every value equally likely given uniform stream words (the words it accepts form whole residue systems); reading fills the caller's buffer with stream bytes irrespective of what it held.",
  ["inputs", "histories"], "for every bound, every stream content, every sequence of sampling and reading operations and buffer lengths",
  "Tests check moments statistically; an off-by-one rejection threshold or stream reuse at buffer boundaries is invisible to them.",
  ["math/csprng/uniform.go"], [("AES-CTR buffer with pointer", "uniform.go"), ("rejection sampling", "uniform.go: SampleN")], ["sampled values", "bytes read"])
p("C22", "Found moduli satisfy the requested form",
  "The modulus search returns p, b and k with p = b^k + 1 prime, k a power of two, b at most 2^25, the bit length of p within the requested range, and p - 1 divisible by twice the maximal transform length; it reports failure instead of a wrong modulus.",
  ["inputs", "configurations"], "for every requested size and length",
  "The command has no tests.",
  ["jindo-modulus/main.go"], [("search loop", "main.go: findModulus")], ["returned base, exponent and modulus"])
p("C23", "Copies made for concurrent use share no mutable state",
  "A copy of a commitment prover, encoder, reconstructor or sampler made for concurrent use shares only data that no operation ever writes, so operations on the copy never change the state or the results of the original, nor the other way round.",
  ["inputs", "schedules"], "for every interleaving of operations on original and copy",
  "Tests never use copies.",
  ["jindo/prover.go", "jindo/rns.go", "jindo/encoder.go", "math/csprng/gaussian_twin_cdt.go"], [("SafeCopy constructors", "each file")], ["identity of buffers reachable from the copy"])
p("C24", "Discrete Gaussian samples follow the specified distribution",
  "The rounded, convolution and table-driven Gaussian samplers output integers distributed within the stated statistical distance of the discrete Gaussian of the requested width and centre.",
  ["inputs"], "for every centre and width", "Tests compare empirical moments.",
  ["math/csprng/gaussian_rounded.go", "math/csprng/gaussian_twin_cdt.go", "math/csprng/gaussian_cosac.go"], [("CDT tables and rejection", "math/csprng")], ["sampled values"])
p("C25", "Proofs reveal nothing about the witness and cannot be forged computationally",
  "Proofs are zero-knowledge and computationally sound at the parameter sets' stated security level.",
  ["inputs"], "for every polynomial-time adversary", "Security is a reduction argument about lattice problems, not an input-output fact.",
  ["jindo/params.go"], [("parameter selection", "params.go")], ["-"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
