#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("C01", "Buckler accepts every honest proof",
  "For every circuit of arithmetic, linear, sum-check and norm constraints and every assignment that satisfies all of them, compiling and "
  "proving succeed and the verifier accepts the proof together with the public part of the assignment. This holds for every value of the "
  "prover's randomness and of the hash-derived challenges, and however many constraints of each kind the circuit combines, also several on one witness.",
  ["inputs", "programs"], "all satisfying assignments, all prover randomness, all challenges, a family of circuits",
  "A test fixes one assignment per circuit and one draw of randomness; the failing cases are specific bound values, sums, combinations of constraints and mask sizes.",
  ["buckler/prover.go", "buckler/verifier.go", "buckler/context.go", "buckler/compile.go", "buckler/encoder.go"],
  [("Prover.Prove", "buckler/prover.go"), ("Verifier.Verify", "buckler/verifier.go"), ("Compile", "buckler/compile.go")])

p("C02", "Buckler proofs are sound: acceptance implies the declared relation",
  "If the committed witnesses violate any declared constraint (an arithmetic equation in any slot, a linear relation, a claimed sum, a norm bound, "
  "or the shape of an internally added decomposition), the verifier rejects for all but a negligible fraction of challenges, whatever masks, quotients, "
  "remainders, sums and evaluations a cheating prover sends. In particular two wrong constraints never cancel each other and no constraint is skipped.",
  ["inputs", "programs"], "all adversarial proofs and all public inputs for a family of circuits, over an ideal polynomial commitment",
  "Tests only ever run honest provers, so a verifier that skips, merges or mis-weighs a check passes them all.",
  ["buckler/verifier.go", "buckler/context.go", "buckler/constraint.go", "buckler/linear.go"],
  [("Verifier.Verify", "buckler/verifier.go"), ("arithCheck/linCheck/sumCheck", "buckler/verifier.go"), ("AddInfNormConstraintBig", "buckler/context.go")])

p("C03", "Buckler challenges bind the statement and every earlier message",
  "Every challenge the verifier uses depends on all public inputs and on every prover message that precedes it in the protocol (witness commitments, mask "
  "commitments and claimed mask sums, then also quotient and remainder commitments for the evaluation point). Different roles never share one challenge, and "
  "changing any single public value or message changes every challenge drawn after it.",
  ["inputs"], "every single-component change of the public input or the proof",
  "A test with an honest prover passes even if a message is left out of the hash, because both sides leave it out.",
  ["buckler/prover.go", "buckler/verifier.go"], [("fiatshamir transcript", "buckler/verifier.go"), ("fiatshamir transcript", "buckler/prover.go")])

p("C04", "Jindo opens what was committed",
  "For every batch of polynomials no longer than the supported rank, committing and opening at any field point yields the true evaluations, and the verifier "
  "accepts commitments, evaluations and proof. This holds for every polynomial length, batch size and challenge, the encoding noise staying within its cut-offs.",
  ["inputs", "configurations"], "all coefficient vectors, lengths, points and challenges for small parameter shapes",
  "The tests open one random polynomial of the full length; lengths that end inside a slot or a column, the zero polynomial and special points are not sampled.",
  ["jindo/prover.go", "jindo/verifier.go", "jindo/encoder.go", "jindo/utils.go"],
  [("Prover.Commit", "jindo/prover.go"), ("Prover.Evaluate", "jindo/prover.go"), ("Verifier.Verify", "jindo/verifier.go")])

p("C05", "The Jindo verifier enforces every opening equation and norm",
  "A Jindo proof is accepted only if the outer commitments, the inner commitments, the consistency of partial evaluations and the claimed evaluations all "
  "satisfy their defining equations over every column and every batch element, and every revealed ring element is within its norm bound. No column, row, "
  "batch element, limb or norm is exempt, and the claimed values enter with the batching weight of their polynomial.",
  ["inputs"], "all proofs (arbitrary ring elements) for small parameter shapes",
  "Honest proofs satisfy all equations, so a dropped or weakened check is invisible to the tests.",
  ["jindo/verifier.go"], [("verifyOuterCommitment", "jindo/verifier.go"), ("verifyInnerCommitment", "jindo/verifier.go"),
                          ("verifyConsistency", "jindo/verifier.go"), ("verifyEval", "jindo/verifier.go"), ("verifyNorm", "jindo/verifier.go")])

p("C06", "Jindo challenges bind commitments, point, values and openings",
  "The batching and folding challenges of an opening proof depend on the commitment key, every commitment of the batch, the evaluation point, every claimed "
  "value and every proof part sent before the challenge. Prover and verifier derive the same challenges, and changing any one of these inputs changes the challenges that follow.",
  ["inputs"], "every single-component change of the statement or proof",
  "Both sides hash the same thing in an honest run, whatever that is.",
  ["jindo/prover.go", "jindo/verifier.go", "jindo/entities.go"], [("Fiat-Shamir oracle", "jindo/verifier.go"), ("Commitment.WriteRawTo", "jindo/entities.go")])

p("C07", "Encoding field elements into the ring is lossless",
  "Decoding the encoding of any vector of field elements returns exactly that vector, for every length up to the slot count and with any encoding noise the "
  "randomized encoder may add. Coefficients of an unrandomized encoding lie between zero and the base, and positions beyond the vector encode zero.",
  ["inputs"], "all field elements (every digit pattern, including the carries at the base boundary)",
  "Random field elements almost never hit the digit patterns where a carry ripples or a balanced digit sits on its bound.",
  ["jindo/encoder.go", "jindo/utils.go"], [("baseEncodeTo", "jindo/encoder.go"), ("randEncodeTo", "jindo/encoder.go"), ("DecodeTo", "jindo/encoder.go")])

p("C08", "Challenge bytes always become a challenge of the promised shape",
  "For every output of the hash, the derived ring challenge is a signed sum of monomials in the promised number and coefficient bound, and it is a deterministic function of "
  "the bytes. No byte string makes the derivation read out of range, fail or produce a coefficient above the bound on which the norm analysis relies.",
  ["inputs"], "all hash outputs",
  "Collisions between the sampled positions and particular sign patterns are rare in random runs.",
  ["jindo/utils.go"], [("encodeChallengeTo", "jindo/utils.go"), ("setCoeffSigned", "jindo/utils.go")])

p("C09", "RNS reconstruction returns the balanced integer",
  "Reconstructing a residue vector gives the unique integer in (-Q/2, Q/2] with these residues, for every residue combination, and writing that integer back "
  "yields the same residues. Values are equal mod every limb, never off by a multiple of Q, also exactly at the balance point and for negative numbers.",
  ["inputs"], "all residues, for one, two and three limbs",
  "The approximation is off only for values next to the balance point or next to a multiple of a limb; random values miss them.",
  ["jindo/rns.go"], [("reconstructTo", "jindo/rns.go"), ("setBigCoeffTo", "jindo/rns.go"), ("toBalanced", "jindo/rns.go")])

p("C10", "The norm check accepts exactly the vectors within the bound",
  "The verifier's norm check accepts a list of ring elements if and only if the sum of the squares of all balanced coefficients of all of them is at most the "
  "square of the bound (the bound counting to within one unit and the precision of a double). No coefficient, polynomial or limb is left out and no overflow lets a long vector pass.",
  ["inputs"], "all coefficients of all elements, for small ring shapes",
  "Honest vectors are far below the bound, so a test never sees the check decide.",
  ["jindo/verifier.go", "jindo/rns.go"], [("verifyNorm", "jindo/verifier.go")])

p("C11", "Norm-bound decompositions represent exactly the allowed range",
  "For every bound, the generated digits with values in {-1,0,1} (or {0,1} for squared norms) represent every integer within the bound and none outside, and the prover's "
  "decomposition of any value within the bound recombines to it. This includes zero, one, powers of two, and values taken modulo the field that stand for negative integers.",
  ["inputs"], "all bounds up to a width, all values",
  "Only a few bounds and random small witnesses are tested; the failing bounds are isolated (powers of two, one, zero).",
  ["buckler/utils.go", "buckler/context.go", "buckler/prover.go"], [("decomposeBase", "buckler/utils.go"), ("decomposeBig", "buckler/utils.go")])

p("C12", "The number-theoretic transforms are exact inverse ring isomorphisms",
  "For every supported rank, the inverse transform undoes the forward transform, and the forward transform is evaluation at the roots of X^N-1 (cyclic) or "
  "X^N+1 (negacyclic), so that slot-wise products are ring products. This holds for every coefficient vector, on each of the code paths for small and large ranks.",
  ["inputs", "configurations"], "all coefficient vectors, ranks 2 to 64 (128 in the thorough tier)",
  "Tests use one rank and random vectors.", ["math/bigpoly/ntt.go", "math/bigpoly/base_op.go"],
  [("CyclicTransformer", "math/bigpoly/ntt.go"), ("CyclotomicTransformer", "math/bigpoly/ntt.go")])

p("C13", "Linear checkers and automorphisms do what they declare",
  "Each provided linear checker's transpose is the adjoint of its forward map for all vector pairs, its forward map is the declared one (transform, automorphism, projection, "
  "recomposition), and an automorphism maps X to X^k modulo X^N+1 in coefficient form and permutes slots consistently in transformed form. Stale contents of output buffers never influence the result.",
  ["inputs", "configurations"], "all vectors, all odd indices k modulo 2N, small ranks",
  "Tests use one automorphism index and vectors that happen not to separate a matrix from its transpose.",
  ["buckler/linear.go", "math/bigpoly/cyclotomic.go"], [("LinearChecker.TransposeTo", "buckler/linear.go"), ("AutTo", "math/bigpoly/cyclotomic.go")])

p("C14", "Polynomial and vector operations compute their algebraic definition",
  "Addition, subtraction, negation, scalar and ring multiplication with and without accumulation, quotient and remainder by X^N-1, evaluation and copying agree "
  "with their definitions for all operands, for every rank, and also when output and inputs are the same object. Operands other than the output are never modified.",
  ["inputs", "configurations"], "all operands, all supported ranks up to 32 and every aliasing of the arguments",
  "Tests do not alias arguments, use ranks that are multiples of eight, and never check that inputs are preserved.",
  ["math/bigpoly/base_op.go", "math/bigpoly/vec.go", "math/bigpoly/poly.go", "math/bigpoly/cyclic.go"],
  [("baseOperator", "math/bigpoly/base_op.go"), ("QuoRemByVanishing", "math/bigpoly/cyclic.go"), ("Poly.Evaluate", "math/bigpoly/poly.go")])

p("C15", "Modulus switching rounds to the nearest multiple",
  "Switching an integer polynomial from a modulus to the field scales every coefficient by the ratio of the moduli and rounds to a nearest integer, for every coefficient "
  "and every modulus. The error is at most one half, also for negative and boundary coefficients.",
  ["inputs"], "all coefficients and moduli up to a stated width",
  "Rounding errors sit at half-way points and sign changes.", ["math/bigpoly/cyclotomic.go"], [("ModSwitchTo", "math/bigpoly/cyclotomic.go")])

p("C16", "Uniform sampling is deterministic, in range and unbiased",
  "Two samplers with the same seed yield the same stream, however reads are cut and whatever the destination contained before, and every byte of the seed matters. Sampled integers below a bound are in range for every "
  "stream content and every bound, and every value has exactly the same number of accepted stream words mapping to it.",
  ["inputs", "histories"], "all stream contents, bounds and read sizes up to a buffer refill",
  "Refills in the middle of a word and rejected words are rare; bias is invisible.", ["math/csprng/uniform.go", "math/csprng/csprng.go"],
  [("UniformSampler.Read", "math/csprng/uniform.go"), ("SampleN", "math/csprng/uniform.go")])

p("C17", "Field arithmetic is exact for all operands",
  "In each bundled field, the portable (non-assembly) Go code of addition, subtraction, doubling, negation, halving, selection, butterflies, multiplication by 3, 5 and 13, multiplication and squaring "
  "(these two in all fields but the 880-bit one), conversion to and from the internal form and comparison return the canonical representative of the mathematical result for all canonical operands. "
  "Results are always reduced below the modulus, the output may alias the inputs, and operands that are not the output keep their values.",
  ["inputs"], "all limb values of all operands, each of the bundled fields",
  "Carries through all limbs and results exactly at the modulus have probability near 2^-64 in random tests.",
  ["buckler/internal/zp110/element.go", "buckler/internal/zp220/element.go", "buckler/internal/zp220/element_purego.go", "buckler/internal/zp440/element.go", "buckler/internal/zp880/element.go", "jindo/internal/zp/element.go"],
  [("Uint.Mul", "*/element_purego.go"), ("Uint.Add, Sub, Double, Neg, Halve, Select", "*/element.go")])

p("C18", "Field element conversions are lossless and canonical",
  "Bytes, words, slices and big integers read from a field element all give the one number below the modulus it stands for, and setting from them yields the same element again. "
  "Setting from machine integers of every type, big integers and bytes yields their residue, also for negative and oversized inputs; canonical decoding accepts exactly the encodings of the right length that are below the modulus, "
  "and refused input leaves the element as it was.",
  ["inputs"], "all elements, all integers up to a stated width",
  "Edge values (modulus minus one, negative, leading zeros, oversized) are not all sampled.",
  ["buckler/internal/zp110/element.go", "buckler/internal/zp220/element.go", "jindo/internal/zp/element.go"],
  [("Marshal/Unmarshal/Bytes/SetBytes", "*/element.go"), ("SetBigInt/BigInt", "*/element.go"), ("SetInt64/SetUint64/SetInterface", "*/element.go"), ("Slice", "*/element.go")])

p("C19", "Ill-formed assignments are refused, not mis-proved",
  "An assignment whose vectors have the wrong length, whose number of witnesses differs from the compiled circuit, or whose circuit type differs is refused with an error by the prover and "
  "rejected by the verifier, wherever in nested structures, slices, arrays, pointers or interfaces the offending vector sits. Well-formed assignments are matched to the compiled witnesses in declaration order.",
  ["inputs", "programs"], "all lengths and counts around the declared ones at every position of a nested circuit",
  "The tests contain no ill-formed assignment.", ["buckler/compile.go"], [("walker", "buckler/compile.go"), ("Compile", "buckler/compile.go")])

p("C20", "A Buckler proof reveals nothing beyond the statement",
  "For a fixed statement and any two satisfying witnesses, the values a proof reveals in the clear (mask sums and all evaluations at the challenge point) are identically distributed over the "
  "prover's randomness, for every challenge outside the evaluation domain. Every prover message that depends on the witness is blinded by fresh randomness, and the sum-check masks cover every slot.",
  ["inputs"], "all witnesses, all challenges outside the domain, the randomness as a linear space",
  "Leaks do not affect acceptance, and distributions cannot be tested by example.", ["buckler/prover.go", "buckler/encoder.go"],
  [("RandEncode", "buckler/encoder.go"), ("sumCheckMask", "buckler/prover.go")])

p("C21", "Jindo openings are blinded",
  "Every ring element revealed by an opening proof that depends on the committed polynomials carries an independent fresh mask, and the revealed partial evaluations are independent of the "
  "committed polynomials apart from the claimed values. Encoding randomness of different rows, columns, batch elements and commitments is never shared or cancelled.",
  ["inputs"], "all committed polynomials and challenges, the blinding terms as free symbols",
  "Leaks do not affect acceptance.", ["jindo/prover.go", "jindo/encoder.go"], [("genFirstLastRow", "jindo/prover.go"), ("randEncodeTo", "jindo/encoder.go")])

p("C22", "Gaussian samplers follow their distribution",
  "The discrete Gaussian samplers output integers whose distribution is within the stated statistical distance of the discrete Gaussian with the requested center and deviation, for every center and deviation.",
  ["inputs"], "all centers and deviations", "Distributions are not observable by example.",
  ["math/csprng/gaussian_cosac.go", "math/csprng/gaussian_twin_cdt.go", "math/csprng/gaussian_rounded.go"], [("SampleN", "math/csprng/gaussian_*.go")])

p("C23", "Derived parameters are secure and sufficient",
  "For every target rank and batch size, the derived lattice parameters meet the claimed security level and leave room for the noise of an honest proof.",
  ["configurations"], "all target ranks and batch sizes", "The estimate is a formula over floating-point numbers.",
  ["jindo/params.go"], [("NewParameters", "jindo/params.go")])

p("C24", "Copies may be used concurrently",
  "A prover or verifier obtained by a safe copy can be used at the same time as the original with the same results as sequential use.",
  ["schedules"], "all interleavings of two uses", "Races are schedule dependent.", ["jindo/prover.go", "jindo/verifier.go"], [("SafeCopy", "jindo/prover.go")])

p("C25", "Inversion of field elements is exact",
  "In each bundled field the inverse of every non-zero element multiplied by it is one, and the inverse of zero is zero.",
  ["inputs"], "all elements of each bundled field", "Tests sample elements.",
  ["buckler/internal/zp110/element.go"], [("Uint.Inverse", "*/element.go")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as h:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            h.write(json.dumps(x) + "\n")
