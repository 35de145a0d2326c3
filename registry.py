"""Which harnesses decide which property."""

TRUST_A = [
    "the Go compiler and the harness's symbolic field type (sparse polynomial normal form over F_p, p a fixed 249-bit prime); the "
    "repository's generic code is executed with it as the element type",
    "z3 5.x (QF_FF) verdicts; every satisfying assignment is re-evaluated and replayed on the real code",
    "hash functions give independent uniform challenges (Fiat-Shamir in the random oracle model)",
]
IDEAL = "package jindo is replaced by an ideal (perfectly binding, hiding) polynomial commitment with the same API; the real one is covered by C04-C06"

TRUST_B = [
    "the SSA form built by golang.org/x/tools and the symbolic executor eng/ssax (integers as polynomials over bounded atoms with Go's "
    "wrapping; math/big and math/bits by their mathematical meaning; branches merged or forked, feasibility decided by the solver)",
    "z3 5.x (linear and nonlinear integer arithmetic, bit vectors) and cvc5 1.1 verdicts; every counterexample is replayed natively on the real code before it is reported",
]
TECH_B = "bounded symbolic execution of the SSA form of the real Go code (own executor on golang.org/x/tools/go/ssa); SMT over integers and bit vectors (z3, cvc5)"


def ssa(h, note, explain, bounds, assumptions=(), runs=()):
    return {"level": "model_checking", "technique": TECH_B, "level_note": note, "explain": explain,
            "runs": [{"python": "ssarun", "harness": h, "shards": 8}] + list(runs), "bounds": bounds, "assumptions": TRUST_B + list(assumptions)}


CHECKS = {
    "C01": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: small ranks and a family of circuits; within them all witnesses, all randomness and all challenges, decided by the solver.",
        "explain": "Compile, Prove and Verify run on a symbolic witness, symbolic prover randomness and symbolic challenges; every branch of "
                   "the verifier is decided by the solver, and no rejecting, failing or panicking path may be satisfiable.",
        "runs": [{"harness": "c01", "mode": "ideal", "shards": 8}],
        "bounds": ["ranks 4 and 8 (quick), 4-32 (thorough); the listed circuits and 40 (quick) or 400 circuits drawn from a grammar of arithmetic, linear, sum and norm constraints", "norm-bounded coordinates range over every value of the bound, one coordinate at a time"],
        "assumptions": TRUST_A + [IDEAL],
    },
    "C02": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: small ranks and a family of circuits; within them all witnesses and all prover messages, decided by the solver with the verifier's own equations.",
        "explain": "The verifier runs on a proof made of symbols (adversarial commitments, evaluations, sums); its acceptance equations are lifted to polynomial identities in the "
                   "challenges it draws last, and the solver looks for a committed witness that satisfies them but violates a declared relation; forged proofs are replayed.",
        "runs": [{"harness": "c02", "mode": "ideal", "shards": 8}],
        "bounds": ["rank 4 (quick), 4 and 8 (thorough); the listed circuits and 24 (quick) or 200 circuits drawn from a grammar of arithmetic, linear, sum and norm constraints", "soundness error: the numerator of a challenge polynomial over |F| (Schwartz-Zippel), the field being 249 bits",
                   "the projection of the approximate norm bound is not covered (its statement is statistical)"],
        "assumptions": TRUST_A + [IDEAL],
    },
    "C03": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: small ranks and a family of circuits; each message and public value is changed by a symbolic amount, one at a time, and the solver decides whether an equation stays as it was.",
        "explain": "Each public value and each prover message is changed in turn by a symbolic difference; two runs of the real verifier (and prover) must then use independent challenges for "
                   "everything drawn later, and the same ones where nothing earlier changed. The challenges of one run are pairwise distinct symbols.",
        "runs": [{"harness": "c03", "mode": "ideal", "shards": 8}],
        "bounds": ["rank 4 (quick), 8 (thorough), rank 2048 for the random projection; the listed circuits", "a challenge is identified with the bytes of its digest: collisions of SHA-256 are excluded"],
        "assumptions": TRUST_A + [IDEAL],
    },
    "C12": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: ranks listed; within them every coefficient vector, decided by the solver.",
        "explain": "The transforms run on fully symbolic vectors; the solver looks for a vector on which the round trip, the evaluation at the roots, or the product rule fails.",
        "runs": [{"harness": "c12", "mode": "ideal", "shards": 8}],
        "bounds": ["ranks 2..64 (quick), 2..128 (thorough)", "one field (a fixed 249-bit prime)"],
        "assumptions": TRUST_A[:2],
    },
    "C13": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: ranks listed; within them all vectors and all odd automorphism indices, decided by the solver.",
        "explain": "Checkers run on symbolic vectors (inputs, used output buffers); the solver looks for vectors violating adjointness or the declared map.",
        "runs": [{"harness": "c13", "mode": "ideal", "shards": 8}],
        "bounds": ["ranks 2..32 for the transform checker, 2..16 for automorphisms (quick); one power more (thorough)"],
        "assumptions": TRUST_A[:2],
    },
    "C14": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: ranks listed; within them all operands and all aliasings of vector operands, decided by the solver.",
        "explain": "Every operation runs on symbolic operands, in every aliasing pattern; the solver looks for operands on which the result differs from the definition or an input changes.",
        "runs": [{"harness": "c14", "mode": "ideal", "shards": 8}],
        "bounds": ["ranks 2..32; vectors of lengths around multiples of eight", "a scalar that is itself an element of the output is outside the claim"],
        "assumptions": TRUST_A[:2],
    },
    "C19": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: the shapes of one nested circuit (every kind of container) and the listed ways to spoil them are enumerated; the values in all vectors are symbolic and every comparison is decided by the solver.",
        "explain": "Each vector of a nested assignment gets a wrong length, each container a wrong number of vectors, and the circuit another type; Prove must return an error and Verify must reject, for all values. "
                   "The well-formed assignment is satisfying only if vectors are matched in declaration order, and must be accepted on every path.",
        "runs": [{"harness": "c19", "mode": "ideal", "shards": 8}],
        "bounds": ["rank 4; one circuit with 29 vectors in structs, pointers, slices, arrays, interfaces and nestings of them", "lengths none, 0, 1, n-1, n+1, 2n; single deviations and neighbouring pairs"],
        "assumptions": TRUST_A + [IDEAL],
    },
    "C20": {
        "level": "model_checking",
        "technique": "bounded symbolic execution of the real Go code over a symbolic field type; linear algebra over F_p and finite-field SMT (z3 QF_FF)",
        "level_note": "Bounded: small ranks and a family of circuits; within them all witnesses, all randomness and (for independence) all evaluation points outside the domain.",
        "explain": "The prover runs on a symbolic witness and symbolic randomness. Every combination of revealed values that is free of randomness must be the same for any two witnesses with the "
                   "same public part, also over two proofs by one prover and whatever the prover branches on; the remaining values must be independent for every point outside the domain; values not affine in the randomness must be determined by the others.",
        "runs": [{"harness": "c20", "mode": "ideal", "shards": 8}],
        "bounds": ["rank 4 (quick), 4 and 8 (thorough); rank 2048 for the approximate norm bound with a sample of the randomness symbolic", "2 (quick) or 4 choices of the earlier challenges"],
        "assumptions": TRUST_A + [IDEAL],
    },
    "C11": ssa("c11", "Bounded: bit lengths of the bound listed; within them every bound and every value, decided by the solver.",
               "decomposeBase and decomposeBig run on a symbolic bound and a symbolic value given modulo a prime; the solver looks for a bound whose base does not sum up to it, and for a value within the bound whose digits "
               "leave {-1,0,1} ({0,1} for nonnegative values) or do not recombine to it.",
               ["every bound of up to 5 bits (quick) or 8 bits (thorough) with every value; the sum of the base for every bound of up to 12 (quick) or 32 bits",
                "bounds 2^k-1, 2^k, 2^k+1 for k up to 10 (quick) or 40, and half the modulus, with every value",
                "that digits cannot represent more than the bound follows from the base being positive and summing up to it; how the circuits use the digits is decided by C01 and C02"]),
    "C16": ssa("c16", "Every 64-bit bound and every stream word; the first three words of a stream, the cuts and the positions listed.",
               "The uniform sampler runs on a symbolic key stream, symbolic seed and symbolic destination contents. The solver looks for a bound and stream words that give a sample out of range; for an accepted word without a partner "
               "word accepted for another value (which would make the distribution uneven); for reads that depend on how they are cut or on old contents; and for seeds whose bytes do not matter.",
               ["SampleN: all bounds in [1, 2^64), up to three words (two rejections)", "cuts and seed lengths listed in ssajobs.py; word positions around the refills up to word 3002"],
               ["AES-CTR and SHA-384 are uninterpreted functions of key, position and input: their own quality is not examined", "SampleFloat (floating point) is outside the claim"]),
    "C09": ssa("c09", "Ring degree 8, moduli listed; within them every residue and every integer.",
               "reconstructTo and setBigCoeffTo run on symbolic residues (as math/big integers). The solver looks for residues whose integer is out of balance or has other residues, for integers that are not written as their residues or "
               "do not come back, and for inputs that change.",
               ["rings of degree 8 with one to three (thorough: four) primes of 17 to 61 bits, equal and mixed sizes; each position in turn or all positions with one integer", "toBalanced: every odd modulus up to 2^61"]),
    "C10": ssa("c10", "Ring degree 8, up to five elements, up to three primes; within them every coefficient.",
               "verifyNorm runs on elements with symbolic balanced coefficients; the solver looks for coefficients whose sum of squares is beyond the bound and accepted, or within and refused.",
               ["0 to 5 elements of degree 8 with all coefficients symbolic (reconstruction replaced by what C09 establishes), or single coefficients with the real reconstruction",
                "bounds listed in ssajobs.py, from 1/2 to 2^97; exact up to one, and up to one part in 2^50 (the code compares doubles)"]),
    "C15": ssa("c15", "Ranks 2 to 8; fields and moduli listed, and symbolic moduli; within them every coefficient.",
               "ModSwitchTo runs on a symbolic coefficient of a polynomial (and, for some fields, a symbolic modulus); the solver looks for a coefficient whose image is not nearest to its scaled value.",
               ["seven primes of 4 to 440 bits with moduli from 1 to p * 2^61; coefficients up to twice the modulus in absolute value", "every modulus of up to 6 bits over the 5-bit field and of up to 128 bits over the 110-bit one (thorough: more)"]),
    "C07": ssa("c07", "Shapes of base, exponent and slots listed in ssajobs.py, one to three primes; within them every vector and every noise.",
               "baseEncodeTo, encodeTo and randEncodeTo run on symbolic field elements into a stale output, the samplers returning arbitrary bounded integers, then the library's inverse "
               "transform and DecodeTo; the solver looks for elements and noise for which the decoded vector differs, or a digit is out of range.",
               ["bases 4 to 2^32 (thorough: to 2^40), exponents 1 to 8 (16), 1 to 8 slots; every length up to the slots for small ones", "noise up to 100, up to what fits the modulus, and wider than one prime", "one and two encodings in a row on the same encoder"],
               ["the ring's transforms and coefficient-wise operations (lattigo) have their documented meaning modulo each prime, with the ring's own root tables", "reconstruction is replaced by what C09 establishes, except in the jobs marked realrns",
                "elements are integers modulo base^exp + 1 (the bundled fields are covered by C17 and C18)"]),
    "C08": ssa("c08", "Shapes listed in ssajobs.py; within them all 2^128 byte strings.",
               "encodeChallengeTo runs on 16 symbolic bytes into a stale output; the solver looks for bytes that give a coefficient beyond the bound, off the promised positions, differing between the primes, or a panic.",
               ["bases 5 to 2^40 (thorough: 2^63), exponents 1 to 16 (32), one and two primes, both rings", "the extreme coefficients are shown to occur"],
               ["the ring's transforms and coefficient-wise operations (lattigo) have their documented meaning modulo each prime, with the ring's own root tables"]),
    "C04": ssa("c04", "Shapes listed in ssajobs.py; within them every polynomial and all noise; symbolic or listed evaluation points and challenges.",
               "Commit, Evaluate and Verify run on symbolic polynomials with arbitrary bounded noise; the solver looks for polynomials, points, challenges and noise for which a value is wrong, an input changes, or the proof is refused.",
               ["ring degree 8, 1 to 8 slots, 2 or 3 rows, 1 or 2 columns, every length up to the rank for small shapes, batches of 1 to 3, one to three primes, lattice ranks 1 to 3",
                "points symbolic for the small shapes, otherwise the listed ones; challenges symbolic for the small shapes, otherwise fixed ones",
                "repeated openings, copies of the prover, refusals of misfits"],
               ["the ring's transforms and coefficient-wise operations (lattigo) have their documented meaning modulo each prime, with the ring's own root tables",
                "encodeChallengeTo is replaced by what C08 establishes, reconstruction by what C09 establishes, verifyNorm by the worst case of the shown ranges against the bound (C10)",
                "SHAKE128 is an uninterpreted function; the Gaussian samplers return arbitrary bounded integers"]),
    "C05": ssa("c05", "Shapes listed in ssajobs.py; within them every commitment, value and proof; symbolic or listed evaluation points and challenges.",
               "Verify runs on a proof all of whose coefficients are symbolic; the partial evaluation and the first value are written as the consistent ones and a symbolic deviation. The solver looks for an accepting run with a deviation, or with a norm check "
               "of anything but the responses, inner commitments and cut-offs computed from their definition.",
               ["ring degree 8, 2 to 4 rows, 1 to 3 columns, batches of 1 to 4, one to three primes, lattice ranks 1 to 3",
                "all parts symbolic at once with fixed challenges and points; each part in turn with symbolic challenges or a symbolic point, and with several primes"],
               ["the ring's transforms and coefficient-wise operations (lattigo) have their documented meaning modulo each prime, with the ring's own root tables",
                "encodeChallengeTo is replaced by what C08 establishes, reconstruction by what C09 establishes; verifyNorm (C10) answers arbitrarily and its arguments are compared"]),
    "C06": ssa("c06", "Shapes listed in ssajobs.py; within them every commitment, point, value, partial evaluation and reference string.",
               "Evaluate and Verify run on symbolic inputs with the hash recording what it was given. The solver looks for inputs with which the same challenge comes although a commitment, the point, a value, a partial evaluation or the "
               "common reference string differs (each changed alone, and all at once), for a challenge on which prover and verifier differ, and for two purposes with one challenge.",
               ["ring degree 8, 2 to 4 rows, 1 to 3 (thorough: 6) columns, batches of 1 to 3 (5), one and two primes, lattice ranks 1 and 2; reference strings of 5 (1 to 33) bytes",
                "the inner commitments and responses are not hashed: they come after the challenges, or are determined by the outer commitment"],
               ["SHAKE128 is an uninterpreted function: distinct inputs and positions give unrelated outputs", "encodeChallengeTo is replaced by what C08 establishes"]),
    "C21": ssa("c21", "Shapes, points and challenges listed in ssajobs.py; within them every polynomial and all randomness.",
               "Commit and Evaluate run for two lists of symbolic polynomials with the same values, every sampled integer and field element being a symbol named after its deviation. The combinations of revealed coefficients (modulo each prime) and of the "
               "values they encode (modulo the field) that are free of the masks are computed; the solver looks for polynomials and randomness for which one of them differs between the two.",
               ["ring degree 8, 2 to 4 (thorough: 5) rows, 1 or 2 (3) columns, lengths up to the rank, batches of 1 to 3 (4), one and two primes, lattice ranks 1 and 2; fixed challenges, listed points",
                "responses against the mask deviations, partial evaluations against the blinding deviation, encoded values against uniform field elements; all encodings and the randomness of all commitments jointly",
                "that wide noise hides what is added to it, and that the commitments hide, are lattice assumptions; one opening per commitment"],
               ["the ring's transforms and coefficient-wise operations (lattigo) have their documented meaning modulo each prime, with the ring's own root tables",
                "samplers are replaced by symbols, hashes by uninterpreted functions, encodeChallengeTo by fixed challenges in order of use"]),
    "C17": ssa("c17", "All canonical operands of every operation listed in ssajobs.py, each of the five fields, stated aliasing of operands and result.",
               "The pure Go functions are executed on elements whose words are symbols. A carry or borrow that is dropped has to be proved zero by the solver, so that every number stays an exact sum; the result modulo the prime is then "
               "compared with the mathematical one, and its reduction below the modulus is decided by the solver from the operands' ranges (linear arithmetic with bounds of the products, bit vectors where that fails).",
               ["all words of all operands (at most the modulus minus one), fields of 2, 4, 4, 7 and 14 words; undecided goals are listed in the evidence",
                "multiplication and squaring of the 14-word field are outside (the solver does not settle its inner carries), except by constants",
                "the assembly of amd64 and arm64 and the inversion by division steps are outside: the executed code is that of the build without assembly, which is the default build only for the fields of 4 (Buckler) and 14 words"],
               ["math/bits has its documented meaning"]),
    "C18": ssa("c18", "All elements and all integers of the widths listed in ssajobs.py.",
               "The conversions are executed on elements, integers and bytes that are symbols; the residue and the reduction of the result are decided by the solver, as are agreement of all readings, refusal of exactly the other encodings, and return of the element itself.",
               ["words of 64 bits signed and unsigned, all encodings of the right and of neighbouring lengths; integers up to 8*Bytes+40 bits and byte strings up to twice the length in the 2-word field, one word and 8 bytes in the 4-word fields, signed words and encodings in the 7-word field, refusals in the 14-word field (thorough: more, with undecided goals listed in the evidence)",
                "decimal text and JSON, random sampling, hashing and vectors are outside; pure Go code as in C17"],
               ["math/big, math/bits and encoding/binary have their documented meaning"]),
}

NOT_APPLICABLE = {
    "C22": "floating-point sampling (math.Exp, rejection loops of unbounded length); a statement about real-valued probability distributions, which the solvers at hand cannot decide over the real code",
    "C23": "a heuristic security estimate in floating-point arithmetic (logarithms, lattice-reduction models); neither the claim nor the code can be encoded for the solvers at hand",
    "C24": "goroutine interleavings of code that shares no state by design apart from read-only tables; symbolic exploration of Go schedules is out of reach of the encoder (it executes one goroutine)",
    "C25": "division steps on approximations of the two numbers, hundreds of data-dependent rounds with corrections: neither the executor's linear normal forms nor bit vectors of that depth settle it, and an exponentiation would need hundreds of symbolic multiplications",
}
