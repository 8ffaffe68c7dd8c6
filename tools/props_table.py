SIZES = "Decided for vectors of 1, 2, 4, 8, 16 and 32 bits (all sizes that Setup permits; 16 is the deployed one), for every group, every value of every scalar and every group element."

HISTORY = " Decided also after histories of earlier calls in the same process, with other parameters, sizes, groups and objects, so that results kept between calls are covered."

P("C01", "The server counts exactly the ballots that are valid for the election",
  "The server accepts a ballot if and only if its lower range proof, its upper range proof and its vote proof all satisfy their verification equations, with the vote proof's statement derived from the ballot's own ciphertext and from the two range-proof commitments shifted by the election's lower and upper candidate bound. All of this is checked under the election's own trusted parameters; parameters that the ballot carries for its vote proof never influence the verdict.",
  ["inputs", "configurations", "histories"], "every ballot (any group elements, any integers, any claimed parameters), every election key, every candidate range, the four curve orders in use",
  "A test tries a handful of honest and tampered ballots; an adversary chooses from all ballots, and a missing conjunct only shows on a ballot crafted for it.",
  ["server.go", "voter.go", "voteproof/voteproof.go", "bulletproofs/bp.go"],
  [("verdict on a ballot", "server.go: verifyVote"), ("commitment shifts", "server.go: verifyVote"), ("range proofs", "bulletproofs/bp.go: BulletProof.Verify"), ("vote proof", "voteproof/voteproof.go: SigmaProof.Verify")],
  "The verdict of the server is shown equal, as a Boolean function, to the conjunction of the published equations for an arbitrary ballot. " + SIZES + HISTORY)

P("C02", "A range proof is accepted exactly if it satisfies the Bulletproof equations",
  "Verifying a range proof returns true if and only if the proof satisfies the published Bulletproof equations under the verifier's generators: the polynomial commitment equation, the equality of the claimed inner product with the one of the embedded argument, and the embedded inner-product argument on the point derived from the proof. Proofs with missing parts or the wrong number of rounds are rejected without a crash.",
  ["inputs", "histories"], "every proof object: arbitrary group elements, integers, generators and round counts",
  "Soundness is about the proofs nobody has written down: a verifier that skips or weakens one equation still accepts every honest proof that tests produce.",
  ["bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/util.go"],
  [("polynomial commitment equation", "bulletproofs/bp.go: BulletProof.Verify"), ("point for the inner-product argument", "bulletproofs/bp.go: BulletProof.Verify"), ("delta(y,z)", "bulletproofs/bp.go: delta")],
  "The verdict is shown equal to an independently written predicate for arbitrary proofs. " + SIZES + HISTORY)

P("C03", "An inner-product argument is accepted exactly if its folded equation holds",
  "Verifying an inner-product argument returns true if and only if the claimed point and inner product, combined with all left and right cross terms under the challenges derived from them, open to the two final scalars and their product under the folded generators. The number of rounds must be the binary logarithm of the vector length; anything else is rejected without a crash.",
  ["inputs", "histories"], "every argument: arbitrary points, scalars, generators, round counts",
  "An accepted false argument needs a specific algebraic relation between the challenge and the cross terms that sampled inputs do not hit.",
  ["bulletproofs/bip.go"],
  [("argument verification", "bulletproofs/bip.go: InnerProductProof.Verify"), ("round challenge", "bulletproofs/bip.go: hashIP")],
  "The verdict is shown equal to an independently written predicate for arbitrary arguments. " + SIZES + HISTORY)

P("C04", "A vote proof is accepted exactly if it satisfies the cross-group equations",
  "Verifying a vote proof returns true if and only if the integer response is within its permitted interval, the ciphertext equation and both commitment equations hold for the responses, and the challenge equals the hash of the statement and the commitments truncated to the challenge length. The verifier's own group parameters and lengths are used throughout.",
  ["inputs", "configurations", "histories"], "every vote proof and statement, every choice of challenge length and group lengths of the deployed curves",
  "A forged vote proof must be built for the specific check that is missing; honest proofs pass with or without it.",
  ["voteproof/voteproof.go"],
  [("verification", "voteproof/voteproof.go: SigmaProof.Verify"), ("challenge", "voteproof/voteproof.go: getFSChallenge"), ("response interval", "voteproof/voteproof.go: SigmaProof.Verify")],
  "The verdict is shown equal to an independently written predicate for arbitrary proofs, at the deployed lengths and further ones." + HISTORY)

P("C06", "Every honest range proof for a value in the range is accepted",
  "For every value in the range and every outcome of the prover's random choices, proving succeeds without error and the resulting proof is accepted. The returned randomness opens the published commitment to exactly the proven value.",
  ["inputs", "histories"], "every value of the range and every sequence of random draws, over every group",
  "Tests sample a few values and draws; failures that need a particular bit pattern or draw (carry, zero scalar, reduced challenge) do not appear.",
  ["bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/util.go"],
  [("prover", "bulletproofs/bp.go: Prove"), ("inner-product prover", "bulletproofs/bip.go: proveInnerProduct, computeBipRecursive")],
  "The verifier's verdict on the prover's output is shown to be true as an identity in the value's bits and the random draws. " + SIZES + HISTORY)

P("C07", "Every honest vote proof and every honest ballot is accepted",
  "For every plaintext, every encryption randomness, every pair of commitment openings and every outcome of the prover's random choices, the vote proof that the prover returns is accepted. A ballot cast by an honest voter under an election's parameters is always counted by the server.",
  ["inputs", "histories"], "every vote, every sequence of random draws (including the draws that make the prover start over), the four curve orders in use",
  "Whether an honest voter is ever rejected depends on random 3072-bit and 256-bit draws that tests sample a few times.",
  ["voteproof/voteproof.go", "voter.go", "server.go", "elgamal.go"],
  [("prover with abort", "voteproof/voteproof.go: Prove"), ("casting", "voter.go: castVote"), ("counting", "server.go: verifyVote")],
  "The verdict on the prover's output is shown to be true for all draws; the restart loop is summarised by its exit condition, so termination is not decided." + HISTORY)

P("C09", "Ballots are ElGamal encryptions with fresh randomness that decrypt to the vote",
  "Encrypting a vote under a public key yields the pair (randomness times generator, vote times generator plus randomness times key), where the randomness is non-zero, uniform below the group order, drawn anew for each encryption and independent of the vote. The holder of the private key recovers exactly the encrypted candidate, and a cast ballot encrypts a candidate within the election's range.",
  ["inputs", "histories"], "every vote, every key, every random draw",
  "A test sees single ciphertexts; reuse or bias of randomness and errors at particular votes or keys are not visible in them.",
  ["elgamal.go", "voter.go"],
  [("encryption", "elgamal.go: encryptVote"), ("casting", "voter.go: castVote")],
  "The ciphertext is shown to be the ElGamal pair for all votes, keys and draws; uniformity means that the draw comes from the cryptographic source with the group order as its bound.")

P("C16", "Aggregated range proofs are complete and accepted exactly by their equations",
  "For every list of in-range values (of any permitted count, with any random choices) the aggregated proof is produced without error and accepted, and its commitments open to the proven values. An aggregated proof is accepted if and only if it satisfies the published aggregated equations for as many commitments as it carries; lists or proofs of unusable size are refused with an error or rejected, never with a crash.",
  ["inputs", "histories", "configurations"], "every list of values, every aggregated proof object, several aggregation counts and bit lengths",
  "Tests aggregate one or two fixed lists; cross-terms between positions only show for other counts and values.",
  ["bulletproofs/multibp.go", "bulletproofs/bp.go", "bulletproofs/bip.go"],
  [("aggregated prover", "bulletproofs/multibp.go: MultiProve"), ("aggregated verifier", "bulletproofs/multibp.go: MultiBulletProof.Verify")],
  "As for single proofs, for every aggregation count that divides a total length of 1, 2, 4, 8, 16 or 32 bits." + HISTORY)

GROUPS = "the five groups of the repository (P-256, P-384, secp256k1, ristretto255 the 3072-bit field group; two further groups modulo safe primes for the operations and encodings)"

P("C10", "Element operations compute the group law, also when operands are shared",
  "In every group, adding, subtracting, negating, scaling and base-scaling elements gives the element whose discrete logarithm is the sum, difference, negation or product of those of the operands, for every integer scalar (zero, negative, or larger than the order). This holds also if the receiver is one of the operands or the operands are the same object; operands that are not the receiver, the generator and the identity keep their value, and a copy of an element is separate from its original.",
  ["inputs", "histories"], "every pair of elements including the identity, every integer scalar, every way of sharing receiver and operands, in " + GROUPS,
  "Tests multiply a few small scalars; the identity, negative and over-long scalars and shared operands take other paths through the curve libraries.",
  ["group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("element operations", "group/*.go: Add, Subtract, Negate, Scale, BaseScale, Set"), ("generator and identity", "group/*.go: Generator, Identity, Element")],
  "Each operation is shown to be the group operation for arbitrary operands, on top of the contracts of math/big, crypto/elliptic, filippo.io/edwards25519-style and secp256k1 library calls.")

P("C11", "Equality and identity tests are exact, and foreign elements are refused",
  "Two elements compare equal if and only if they are the same group element, however they were computed, and an element tests as identity if and only if it is the neutral element. Elements of another group, or of another field modulus, are never silently mixed into an operation: it panics.",
  ["inputs"], "every pair of elements of " + GROUPS + ", and every pair of different groups",
  "The verdict of every verifier is one of these comparisons; a comparison that is wrong for one special element (the identity, points that share a coordinate) is invisible to random tests.",
  ["group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("comparison", "group/*.go: IsEqual, IsIdentity"), ("type and group check", "group/*.go: check")],
  "The comparisons are shown equivalent to equality of discrete logarithms, for arbitrary elements; mixing is shown to panic for every ordered pair of groups.")

P("C12", "Elements, proofs and ballots survive their JSON encoding unchanged",
  "Every group element, range proof, vote proof with lengths a setup derives, ciphertext and complete ballot can be encoded as JSON, the encoding is accepted by the matching decoder, and decoding restores exactly the encoded value without changing anything else. The encoder and decoder agree on every field name.",
  ["inputs"], "every element of " + GROUPS + ", every proof and ballot object",
  "A test transports a few honest objects; values such as the identity, zero scalars or small coordinates use other branches of the encoders.",
  ["marshal.go", "bulletproofs/marshal.go", "voteproof/marshal.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("ballot decoding", "marshal.go: BallotDataUnmarshalJSON, BallotUnmarshalJSON"), ("range proof decoding", "bulletproofs/marshal.go: BulletProofUnmarshalJSON"), ("vote proof decoding", "voteproof/marshal.go: ProofUnmarshalJSON"), ("elements", "group/*.go: MarshalJSON, UnmarshalJSON")],
  "Encoding and decoding are evaluated on documents built from arbitrary values, following encoding/json's rules on struct tags, case folding, null and unknown fields. Range proofs of 1 to 32 bits.")

P("C13", "Decoders turn any input into a valid object or an error, and never crash",
  "Whatever bytes an element, proof or ballot decoder is given, it either returns an error or an object all of whose parts are present and whose group elements are members of the prime-order group; it never panics, and verifying whatever was decoded never panics either. An element whose decoding fails keeps its value, and the range proofs of a decoded ballot are always about the election's parameters.",
  ["inputs", "fault_sequences"], "every byte string given to any decoder: truncated, mistyped, with missing or null fields, lists of unexpected length, off-curve or out-of-range numbers",
  "The server decodes what an attacker sends; each missing check needs one particular malformed document that a test would have to guess.",
  ["marshal.go", "bulletproofs/marshal.go", "voteproof/marshal.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("ballot decoding", "marshal.go"), ("range proof decoding", "bulletproofs/marshal.go"), ("vote proof decoding", "voteproof/marshal.go"), ("membership checks", "group/*.go: UnmarshalBinary, UnmarshalJSON")],
  "The decoders are evaluated on an unknown document in which every field may be absent, null, mistyped or of any value. The lists of a range proof are absent or of given lengths (ten combinations of right and wrong lengths around 1 and 4 bits); other lengths are not decided.")

P("C19", "Elements survive their binary encoding unchanged",
  "Every element of every group has a binary encoding which UnmarshalBinary accepts and SetBytes reads, both restoring exactly that element, into a new element as well as over an old one. Encoding is canonical: equal elements have the same bytes, and encoding changes nothing.",
  ["inputs"], "every element, the identity included, of " + GROUPS,
  "Leading zero bytes, the identity and the sign of a coordinate occur too rarely in random samples to be tested.",
  ["group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("binary encoding", "group/*.go: MarshalBinary, UnmarshalBinary, SetBytes")],
  "Encoding followed by decoding is shown to be the identity for arbitrary elements.")

P("C05", "Challenges are hashes of the whole transcript before them",
  "The challenges of a range proof are the SHA-256 digest of the textual forms of all elements sent so far, in order, and the digest of that text followed by the first challenge; the prover opens its commitments with exactly these. The textual form identifies an element: two elements have the same text if and only if they are equal, however computed or transported, and a vote-proof response that is accepted for two statements or two commitments shows these to be the same.",
  ["inputs"], "every list of elements (the sizes that occur, up to 36 of them), every vote proof and statement, every element of " + GROUPS,
  "A value left out of a challenge changes no honest run; it only lets an attacker choose that value after the challenge.",
  ["bulletproofs/util.go", "bulletproofs/bp.go", "voteproof/voteproof.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("range proof challenges", "bulletproofs/util.go: HashBP"), ("vote proof challenge", "voteproof/voteproof.go: getFSChallenge"), ("text of an element", "group/*.go: String")],
  "SHA-256 is idealised as injective, also when cut to 128 bits or more. The challenge inputs of the verifiers are part of C02, C03, C04 and C16. The identity of secp256k1 has two textual forms in the library and is left out.")

P("C08", "Provers blind with fresh uniform randomness and disclose no secret",
  "Every blinding value of a range proof and every mask of a vote proof is its own draw from the cryptographic source, uniform below the order of the group it is used in (for the integer mask: over the whole response interval), independent of the secrets and of every other blinding, and not used again in another proof. A published vote-proof response lies in the interval in which it is independent of the vote, responses are reduced modulo the group order, and neither secrets nor blindings are printed.",
  ["inputs", "histories"], "every secret, every draw, successive proofs, range proofs of 1 to 32 bits, aggregated proofs of 1 to 32 values, vote proofs on three curve orders, random elements of " + GROUPS,
  "Reused, biased or predictable randomness produces valid proofs; tests that look at verdicts cannot see it.",
  ["bulletproofs/bp.go", "bulletproofs/multibp.go", "voteproof/voteproof.go", "group/group.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("range proof blinding", "bulletproofs/bp.go: Prove"), ("aggregated proof blinding", "bulletproofs/multibp.go: MultiProve"), ("vote proof masks and abort", "voteproof/voteproof.go: Prove"), ("random elements", "group/*.go: Random")],
  "The coefficient of each blinding generator is shown to be a separate draw with the right bound. Statistical quality of crypto/rand itself is assumed.")

P("C14", "Verification is a repeatable function without side effects",
  "Verifying a proof or counting a ballot changes neither the proof, the statement, the parameters nor any package state, uses no randomness, and gives the same verdict however often it is repeated and whatever was verified or cast in between. Proving, casting, encoding, decoding and group operations leave secrets, parameters and earlier results unchanged.",
  ["inputs", "histories"], "every proof, ballot, secret and parameter set, and any order of these operations",
  "An operation that modifies its operands or remembers something between calls gives correct results in tests that call it once.",
  ["server.go", "voter.go", "bulletproofs/bp.go", "bulletproofs/multibp.go", "bulletproofs/bip.go", "bulletproofs/marshal.go", "voteproof/voteproof.go", "voteproof/marshal.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("verification", "bulletproofs/bp.go, multibp.go, bip.go, voteproof/voteproof.go: Verify"), ("counting", "server.go: verifyVote"), ("proving", "bulletproofs/bp.go: Prove; voteproof/voteproof.go: Prove"), ("package variables", "bulletproofs/bp.go: SEEDH; bulletproofs/bip.go: SEEDU; voteproof/voteproof.go: BigTwo")],
  "Every cell that exists before an operation is shown to have the same content after it, for arbitrary operands (vectors of 1 to 32 bits). Cells written under a lock or a sync.Once are exempt, but verdicts still have to repeat.")

P("C15", "Setup derives the published parameters and refuses unusable ones",
  "Range-proof setup succeeds exactly for ranges of 1, 2, 4, 8, 16 or 32 bits and then returns that bit length and, for every position, generators hashed from pairwise different labels, so that nobody knows a relation between them. Vote-proof setup succeeds exactly if a mask of at least one bit fits between response and group order and the challenge fits into a digest; election setup gives all proofs one blinding base, one candidate range and the groups of the election, on each of the four curves.",
  ["inputs", "configurations", "histories"], "every length and candidate range of the vote proof; range ends from -9 to 300 and all powers of two with their neighbours; an arbitrary group and the four curves",
  "Related or repeated generators and parameter mismatches leave honest proofs valid, but make forging possible.",
  ["bulletproofs/bp.go", "bulletproofs/bip.go", "voteproof/voteproof.go", "main.go"],
  [("range proof setup", "bulletproofs/bp.go: Setup"), ("vote proof setup", "voteproof/voteproof.go: Setup"), ("election setup", "main.go: setup")],
  "Hashing to the group is an uninterpreted function of the label. Range ends other than those named are not decided." + HISTORY)

P("C17", "Vector and commitment helpers compute what they are named after",
  "Sum, difference, product, multiple, shift, scalar product and linear combination of vectors have the componentwise value modulo the group order, reduced to the range from zero to the order, and leave their operands unchanged; vectors of different lengths are refused with an error where an error can be returned. Decomposition gives the binary digits of a number, a commitment is value times base plus randomness times blinding base, and powers of two are recognised exactly.",
  ["inputs", "histories"], "every entry of vectors of length 0 to 8, 16 and 32, pairs of different lengths, every number of 1 to 33, 63, 64 and 100 bits",
  "Tests use short vectors of small positive numbers; negative or unreduced entries and empty or unequal vectors are other cases.",
  ["bulletproofs/vector.go", "bulletproofs/util.go", "util/util.go"],
  [("vectors", "bulletproofs/vector.go"), ("linear combinations", "bulletproofs/util.go: VectorExp, ScalarProduct"), ("digits and commitments", "util/util.go: Decompose, PedersenCommit")],
  "Decided for the named lengths and all entries; IsPowerOfTwo for -20 to 1100 and around all powers of two." + HISTORY)

P("C18", "Groups have their standard parameters and hash texts to members",
  "Each group reports its standard name, prime order and field size, in its JSON description and from every element, and its generator has exactly that order. Generators and identities are made anew for every caller, and hashing a text to a group gives a member that depends on the text alone and not on the element it is called on.",
  ["inputs", "histories"], "the five groups, every element",
  "A wrong constant or a shared generator object shows only in what later operations compute from it.",
  ["group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/types.go"],
  [("constants", "group/*.go: P256, P384, SecP256k1, Ristretto255, NewModPGroup"), ("hashing", "group/*.go: MapToGroup"), ("description", "group/*.go: MarshalJSON")],
  "Constants are compared with those of the standards; hashing to the group is an uninterpreted function of the text." + HISTORY)

P("C20", "Concurrent use of shared parameters, proofs and groups has no effects",
  "Making and verifying range proofs, aggregated proofs, inner-product arguments and vote proofs, casting and counting ballots, encoding, decoding and all group operations write nothing, not even for a moment, that another such call may use: parameters, secrets, proofs, ballots, elements other than the receiver, group objects, package state. Only memory whose accesses are all guarded by a lock or a sync.Once is exempt. Calls that run at the same time on shared arguments therefore give the results they give one after the other.",
  ["schedules", "inputs"], "every interleaving of these operations on shared arguments, every secret, proof, ballot and element",
  "A data race needs two calls to meet at one instruction; the tests are sequential, and a write that restores the old value leaves no trace in any result they compare.",
  ["server.go", "voter.go", "marshal.go", "bulletproofs/bp.go", "bulletproofs/multibp.go", "bulletproofs/bip.go", "bulletproofs/util.go", "bulletproofs/vector.go", "bulletproofs/marshal.go", "voteproof/voteproof.go", "voteproof/marshal.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("verification", "bulletproofs/bp.go, multibp.go, bip.go, voteproof/voteproof.go: Verify"), ("proving", "bulletproofs/bp.go: Prove; voteproof/voteproof.go: Prove"), ("encoding of elements", "group/*.go: String, MarshalBinary, MarshalJSON"), ("counting", "server.go: verifyVote")],
  "All writes on all paths to memory that is older than the call are collected, for arbitrary arguments (sizes as in C02); none may be reachable outside a lock. The library contracts record which operand each library call writes. MapToGroup is an operation on its receiver. Starting goroutines inside these operations is reported as undecided.",
  technique="static analysis: effect analysis of writes to pre-existing memory by abstract interpretation of the Go SSA form (alias-precise heap, path conditions, lock regions)")

P("C21", "Without randomness nothing is proved, encrypted or drawn",
  "If the system's source of randomness fails at any of the draws of an operation, the operation returns an error or panics: no range proof, aggregated proof, vote proof, ballot, ciphertext or random element is produced from a failed draw.",
  ["fault_sequences", "inputs"], "every set of draws that fail, every secret and parameter set",
  "The source does not fail in tests; a value that replaces a failed draw gives proofs that verify and disclose the secret.",
  ["voter.go", "bulletproofs/bp.go", "bulletproofs/multibp.go", "voteproof/voteproof.go", "group/group.go", "group/modsafeprime.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
  [("range proof draws", "bulletproofs/bp.go: Prove"), ("aggregated proof draws", "bulletproofs/multibp.go: MultiProve"), ("vote proof draws", "voteproof/voteproof.go: Prove"), ("encryption", "voter.go: encryptVote"), ("random elements", "group/*.go: Random")],
  "Each draw fails under a fresh condition; a result without error must be infeasible under any of them. A failing draw that leaves a nil number counts as a panic where the number is used. Sizes as in C08. The generator of ristretto255 in the library aborts the process on its own.",
  technique="static analysis: fault-injected value-graph abstract interpretation of the Go SSA form (every draw may fail; path conditions of the results)")

NA = [
 ("C22", "No efficient adversary can forge a proof", "Nobody can make a range proof, aggregated proof or vote proof that verifies for a false statement, other than with negligible probability, if discrete logarithms are hard and SHA-256 behaves as a random oracle.",
  ["programs"], "every probabilistic polynomial-time adversary", "Adversaries cannot be enumerated.",
  ["bulletproofs/bp.go", "bulletproofs/bip.go", "voteproof/voteproof.go"], [("verification", "Verify")],
  "a reduction to a hardness assumption over all polynomial-time adversaries; static analysis decides only that the implemented equations, transcripts and parameters are the published ones (C02, C03, C04, C05, C15, C16)"),
 ("C23", "Proofs and ballots disclose nothing about the choice", "The distribution of a published ballot is computationally independent of the voter's choice, and that of a proof statistically independent of its secret.",
  ["inputs"], "every pair of secrets, every distinguisher", "A test sees single samples, not distributions.",
  ["voter.go", "bulletproofs/bp.go", "voteproof/voteproof.go"], [("proving", "Prove"), ("encryption", "encryptVote")],
  "distance of distributions and indistinguishability of ciphertexts are outside static analysis; the structural half (fresh, uniform, independent blinding of every published value) is decided as C08, that of encryption as C09, failure of the source as C21"),
 ("C24", "Running time does not depend on secrets", "The time and memory accesses of proving and casting are independent of the vote, the blinding values and the masks.",
  ["inputs"], "every pair of secrets", "Timing tests are noisy and see few secrets.",
  ["voter.go", "bulletproofs/bp.go", "voteproof/voteproof.go", "util/util.go"], [("digits", "util.Decompose"), ("exponentiation", "group/*.go: Scale")],
  "does not hold and is not claimed by the project: math/big is variable-time by design, so a taint analysis would report every arithmetic operation on a secret"),
 ("C25", "The vote prover terminates after few attempts", "The prover of the vote proof restarts until its response lies in the hiding interval; it needs fewer than two attempts in expectation, so casting a vote takes bounded time.",
  ["inputs", "histories"], "every secret and every sequence of draws", "The number of attempts is a random variable of which tests see a few values.",
  ["voteproof/voteproof.go"], [("abort loop", "voteproof/voteproof.go: Prove")],
  "a bound on the expected value of a random variable; on some draws the loop never ends, so termination for all draws is false. That the interval is the right one is part of C08 and C15"),
 ("C26", "Proving and verifying are fast enough for an election", "Casting takes at most seconds and counting scales linearly with the number of ballots, so that an election can be counted in time.",
  ["inputs", "configurations"], "every ballot and machine", "Benchmarks sample one machine.",
  ["main.go", "server.go", "voter.go"], [("measurement", "main.go: main")],
  "a quantity of the runtime, not of the source"),
]
for id, title, st, over, text, why, files, mech, reason in NA:
    P(id, title, st, over, text, why, files, mech, "NA: " + reason)
