VG = "abstract interpretation of SSA to value-graph normal forms, compared with a reference definition"

prop("C01", "BLS verification is exactly the pairing equation",
 "Verifying a BLS signature, single-key or aggregated-key, succeeds if and only if e(H(message), key) equals e(signature, G2 generator) for exactly the message, key and signature given, and otherwise returns an error. In particular a signature made with the matching secret key always verifies, whether it was produced in one step, aggregated from several signers, or rebuilt from its byte form.",
 ["inputs"], "all messages (any length), keys and signatures, any number of aggregated signers",
 "The tests verify a few random keys and fixed short messages; acceptance of one wrong (message, key, signature) triple out of an infinite set is not sampled.",
 ["bls/bls.go"], [("pairing check", "bls/bls.go: verify, apkSigWrap"), ("hash to curve", "bls/bls.go: h0")],
 VG, BASE + "keys and signatures that are nil pointers are outside the property.", observe=["bls.Verify", "bls.VerifyUnsafe", "bls.Sign", "bls.UnsafeSign"])

prop("C02", "BLS batch verification binds each message to its own key",
 "Batch verification (of plain, aggregated or compressed keys and signatures) succeeds if and only if there is at least one key, exactly one message per key, the messages are pairwise distinct unless repetition was explicitly allowed, and the product of e(H(message_i), key_i) over every i equals e(signature, G2 generator). Anything else is an error, never a panic.",
 ["inputs"], "all lists of keys and messages, including lists of different lengths and repeated messages",
 "The tests batch 2-10 random keys with matching lists; mismatched, empty or repeated lists at arbitrary positions are not sampled.",
 ["bls/bls.go"], [("distinctness and length check", "bls/bls.go: verifyBatch, distinct"), ("accumulated pairing", "bls/bls.go: verifyBatch")],
 VG, BASE + "lists of up to 9 keys and messages in all combinations, longer ones (to 65) for the equation.", observe=["bls.VerifyBatch", "bls.VerifyUnsafeBatch", "bls.VerifyCompressed"])

prop("C03", "Every key enters a BLS aggregate exactly once, weighted by its own hash",
 "An aggregated public key is the sum, over exactly the keys aggregated, of H1(key)*key, and a safe signature is H1(key) times the plain signature, so that no key can be chosen to cancel another; every way of building an aggregate (at once, key by key, from bytes) gives the same sum. The unweighted aggregation operations return the plain sum of exactly their arguments, and aggregating nothing is an error rather than a nil or neutral key.",
 ["inputs", "histories"], "all lists of keys and signatures, all sequences of aggregation calls",
 "The tests only check that honestly built aggregates verify; an aggregate that omits, repeats or mis-weights a key consistently on both sides still verifies.",
 ["bls/bls.go"], [("key hash weight", "bls/bls.go: h1, pkt"), ("aggregation", "bls/bls.go: AggregateApk, Apk.Aggregate, Signature.Add, Signature.Aggregate, UnsafeAggregate, UnsafeBatch")],
 VG, BASE + "up to 65 keys per call.", observe=["bls.AggregateApk", "bls.NewApk", "bls.UnsafeAggregate", "bls.UnsafeBatch"])

prop("C04", "BLS keys and signatures survive encoding; invalid encodings change nothing",
 "Encoding a BLS key or signature to bytes, text or compressed form and decoding it yields the same group element, and decoding returns an error exactly when the group (or base64) decoder rejects the bytes. A failed decode leaves the receiver as it was.",
 ["inputs"], "all group elements and all byte strings of any length",
 "The tests round-trip a handful of random keys and never feed malformed bytes.",
 ["bls/bls.go"], [("codecs", "bls/bls.go: Marshal, Unmarshal, MarshalText, UnmarshalText, Compress, Decompress, UnmarshalPk, UnmarshalApk, UnmarshalSignature")],
 VG, BASE + "the curve arithmetic inside bn256 is modelled, not analysed.", observe=["bls.PublicKey", "bls.Apk", "bls.Signature", "bls.UnsafeSignature"])

prop("C05", "The hash functions are the named digests of exactly the given bytes",
 "Each hash function returns the digest its name promises of exactly the bytes passed in, all of them and in order, with the full standard output length; the generic helper does so for whatever hash it is given. The checksum is the big-endian integer of the first four bytes of the 64-bit xxHash, and comparing a checksum succeeds exactly when it is that of the data.",
 ["inputs"], "all byte strings, all requested checksums",
 "The tests compare a few digests of fixed strings.",
 ["hash/hash.go"], [("digest helpers", "hash/hash.go: PerformHash and the functions built on it"), ("checksum", "hash/hash.go")],
 VG, BASE + "SHA-3, BLAKE2b and xxHash themselves are modelled as opaque functions.")

prop("C06", "All secret randomness comes fresh from the system generator",
 "Every secret scalar, blinding factor, nonce, decoy response, ring position and random byte string is drawn from the operating system's cryptographic generator (or the reader the caller supplied), in full, and used for one purpose only; no two of them are copies or functions of one another, and none is a constant, a counter or derived from public data. A failed draw is reported to the caller rather than replaced.",
 ["inputs", "histories"], "all inputs, ring sizes and signer positions, all values produced during one call",
 "Outputs of a weak or reused source look random and verify; tests only check that signatures verify.",
 ["ringsig/blsag/blsag.go", "mlsag/proof.go", "mlsag/dualkey.go", "rangeproof/pedersen/pedersen.go", "rangeproof/rangeproof.go", "hash/hash.go", "bls/bls.go"],
 [("random draws", "Scalar.Rand, crypto/rand.Int, crypto/rand.Read calls")],
 "taint and value-graph analysis of random draws", BASE + "crypto/rand and Scalar.Rand are assumed to be sound generators.")

prop("C07", "The Merkle root commits to every payload, in order",
 "The root of a tree is the SHA3-256 fold of the payload hashes taken pairwise in the order given, an odd level repeating its last element and a single payload being paired with itself; every payload appears as a leaf exactly once apart from that repetition. Building (or rebuilding) fails exactly when there is no payload or a payload cannot be hashed, and a tree just built verifies and contains each of its payloads.",
 ["inputs", "histories"], "all payload lists, every build and rebuild",
 "The tests use fixed lists of up to 4 payloads.",
 ["merkletree/merkletree.go"], [("construction", "merkletree/merkletree.go: buildWithPayload, createIntermediate, hashChildren")],
 VG, BASE + "trees of up to 65 payloads, and up to 260 next to constants in the code.", observe=["merkletree.NewTree", "Tree.RebuildTree", "Tree.RebuildTreeUsing"])

prop("C08", "Merkle verification recomputes hashes from the payloads",
 "Tree verification accepts if and only if re-hashing every leaf payload and refolding it upwards yields the stored root hash, and content verification accepts a payload if and only if it equals one of the leaves and every recorded hash on the path from that leaf to the root recomputes from its children (payloads for leaves, recorded hashes below otherwise). A change to any payload, leaf hash on the path or interior hash on the path is detected, and payload errors are returned.",
 ["inputs", "histories"], "all trees, including ones altered after they were built",
 "The tests alter one root or one payload of small fixed trees.",
 ["merkletree/merkletree.go"], [("verification", "merkletree/merkletree.go: VerifyTree, VerifyContent, verifyNode, calculateNodeHash")],
 VG, BASE + "trees of up to 8 leaves with independent symbolic hashes and payloads, larger ones for built trees.", observe=["merkletree.VerifyTree", "Tree.VerifyContent"])

prop("C09", "MLSAG verification is exactly the closing of the challenge chain",
 "Verifying an MLSAG signature succeeds if and only if the challenge chain, recomputed over every ring member and key with the signature's message, challenge, responses and the given key images, ends in the signature's challenge, for a non-empty ring in which every member has exactly as many responses as keys, and at least one and at most as many key images as every member has keys. Everything else, including malformed dimensions, is rejected with an error and without a panic.",
 ["inputs"], "all signatures, rings, messages and key images of any dimensions",
 "The tests verify freshly made signatures and a few tampered ones; acceptance of forged or malformed ones is not sampled.",
 ["mlsag/mlsag.go", "mlsag/proof.go"], [("challenge chain", "mlsag/mlsag.go: Verify"), ("challenge hash", "mlsag/proof.go: generateChallenge and helpers")],
 VG, BASE + "rings of up to 128 members (257 next to constants in the code), up to 4 keys each.", observe=["mlsag.Signature.Verify"])

prop("C10", "bLSAG verification is exactly the closing of the challenge chain",
 "Verifying a bLSAG signature returns true if and only if the ring is non-empty, there is one response per ring member, and the challenge chain recomputed from the message, key image, responses and every ring key ends in the signature's challenge. Any other signature is rejected without a panic.",
 ["inputs"], "all messages and signatures with rings and responses of any length",
 "The tests verify honestly made signatures with one or two random changes.",
 ["ringsig/blsag/blsag.go"], [("challenge chain", "ringsig/blsag/blsag.go: Verify")],
 VG, BASE + "rings of up to 128 members, and to 257 next to constants in the code.", observe=["blsag.Verify"])

prop("C11", "Key images are determined by the secret key alone",
 "The key image published with a ring signature is the secret key times the hash-to-point of its own public key, whatever the message, the ring, the decoys or the signer's position, so two signatures by one key always carry the same image. In dual-key signatures exactly the primary key has an image, and for general signatures each requested image belongs to the key at the same index.",
 ["inputs", "histories"], "all secret keys, messages, rings and positions",
 "The tests do not compare images across rings, positions or messages.",
 ["ringsig/blsag/blsag.go", "mlsag/pubkeys.go", "mlsag/proof.go", "mlsag/dualkey.go"], [("key image", "CalculateKeyImages, blsag.Sign, DualKey.Prove")],
 VG, BASE + "rings of up to 8 members, and to 130 next to constants in the code.", observe=["blsag.Sign", "mlsag.DualKey.Prove", "mlsag.Proof"])

prop("C12", "A ring is exactly the decoys plus the signer, at a uniformly random place",
 "The ring carried by a signature consists of exactly the decoy keys supplied, unchanged and each once, plus the signer's own public key, and the signer's place is drawn uniformly from all places by the cryptographic generator independently of everything else. Nothing else in the signature is treated differently at the signer's place.",
 ["inputs", "histories"], "all decoy lists, keys and random draws",
 "A biased or predictable position, a dropped or duplicated decoy still yields a valid signature.",
 ["ringsig/blsag/blsag.go", "mlsag/proof.go", "mlsag/dualkey.go", "mlsag/pubkeys.go"], [("ring assembly", "blsag.Sign, Proof.shuffleSet, Proof.addSignerPubKey, AddDecoy")],
 VG, BASE + "every position in rings of up to 8 members, and rings of up to 130 next to constants in the code.", observe=["blsag.Sign", "mlsag.DualKey.Prove"])

prop("C13", "Range-proof challenges bind everything sent before them",
 "Each Fiat-Shamir challenge of the range proof and of the inner-product proof is derived by hashing, in a fixed order and in full, every commitment and every proof element that precedes it, together with the earlier challenges, and prover and verifier derive the same challenges. No component can be changed after the challenge that depends on it without changing that challenge.",
 ["inputs"], "all proofs, all numbers of values",
 "Prover and verifier that both forget an element still agree, so every test passes.",
 ["rangeproof/rangeproof.go", "rangeproof/innerproduct/innerproduct.go", "rangeproof/fiatshamir/fiatshamir.go"],
 [("transcript", "fiatshamir.HashCacher"), ("outer challenges", "rangeproof/rangeproof.go: Prove, Verify"), ("inner challenges", "innerproduct.go: Generate, VerifScalars")],
 VG, BASE + "the inner-product challenges start from a fresh transcript in this code base; that is recorded, not changed.", observe=["rangeproof.Prove", "rangeproof.Verify", "innerproduct.Generate"])

prop("C14", "Range-proof verification is exactly the Bulletproof equations",
 "Verifying a range proof accepts if and only if it carries 1, 2, 4, 8 or 16 commitments and matching inner-product rounds and both Bulletproof verification equations (the polynomial identity and the inner-product identity) hold for the recomputed challenges, up to a fresh random combination of the two. Everything else is rejected with an error and without a panic.",
 ["inputs"], "all proofs: all points, scalars, numbers of commitments and rounds",
 "The tests verify honest proofs and one tampered proof per case.",
 ["rangeproof/rangeproof.go", "rangeproof/innerproduct/innerproduct.go", "rangeproof/vector/vector.go"], [("combined check", "rangeproof/rangeproof.go: megacheckWithC"), ("inner-product scalars", "innerproduct.go: VerifScalars")],
 VG, BASE + "all admissible numbers of values (1, 2, 4, 8, 16) and the malformed ones around them.", observe=["rangeproof.Verify"])

prop("C16", "Pedersen commitments open to exactly what was committed",
 "Committing to scalars or vectors yields the sum of each value times its own fixed generator plus a fresh random blinding factor times the blinding generator, with every element of every vector included, and the returned openings are exactly those values and that factor; commitments therefore add up and two different openings use different bases. The generators are a deterministic hash chain: the same seed always gives the same sequence, each element extending the previous one, and within the first 256 vectors no two roles share a generator.",
 ["inputs", "histories"], "all scalars, vectors of any length, all generator seeds and numbers of generators",
 "The tests commit to a few random vectors and compare with the same code run twice.",
 ["rangeproof/pedersen/pedersen.go", "rangeproof/generators/generator.go"], [("commitments", "pedersen.go: CommitToScalar, CommitToVectors, commitToVector"), ("generator chain", "generator.go: New, Iterate, Compute, Clear")],
 VG, BASE + "vectors of up to 257 elements, up to 4 vectors, up to 1024 generators (more next to constants in the code).", observe=["pedersen.Pedersen", "generators.Generator"])

prop("C20", "Encodings carry every component and decode to the same value",
 "Encoding a signature, key list, response list, commitment, inner-product proof or range proof writes every component of it, in full and in a fixed order, with every count it needs, and decoding those bytes yields the same value and consumes exactly them. Encoding to a writer that does not fail never fails.",
 ["inputs"], "all values of every encodable type with any number of components",
 "The tests round-trip a few random values.",
 ["mlsag/mlsag.go", "mlsag/pubkeys.go", "mlsag/responses.go", "rangeproof/rangeproof.go", "rangeproof/pedersen/pedersen.go", "rangeproof/innerproduct/innerproduct.go"],
 [("encoders", "Encode methods"), ("decoders", "Decode methods")], VG, BASE + "lists of up to 257 components, plus counts next to constants in the code.")

prop("C21", "Decoders accept exactly complete, valid encodings",
 "Decoding a signature, key list, response list, commitment, inner-product proof or range proof succeeds if and only if the reader supplies the whole encoding with valid scalars and points and consistent counts; every short, truncated or invalid input yields an error, never a panic and never a value with missing or unset components, no matter how the reader splits the bytes.",
 ["inputs", "fault_sequences"], "all byte streams, cut anywhere, and every pattern of short reads and read errors",
 "The tests decode only complete honest encodings from memory.",
 ["mlsag/mlsag.go", "mlsag/pubkeys.go", "mlsag/responses.go", "rangeproof/rangeproof.go", "rangeproof/pedersen/pedersen.go", "rangeproof/innerproduct/innerproduct.go"],
 [("decoders", "Decode methods"), ("point reading", "readerToPoint, readerToScalar")], VG, BASE + "lists of up to 257 components; streams cut at every component boundary and inside components.")

prop("C25", "Encoders report every failed write, and nothing else",
 "Encoding a signature, key list, response list, commitment, inner-product proof or range proof returns no error if and only if no write to the given writer failed, and then exactly the whole encoding has been written. A failure of any single write, at any point, is reported.",
 ["fault_sequences", "inputs"], "all values of every encodable type, a failure at any write",
 "The tests encode to memory, where no write fails.",
 ["mlsag/mlsag.go", "mlsag/pubkeys.go", "mlsag/responses.go", "rangeproof/rangeproof.go", "rangeproof/pedersen/pedersen.go", "rangeproof/innerproduct/innerproduct.go"],
 [("encoders", "Encode methods, EncodeCommitments")], "abstract interpretation of SSA with an opaque writer: error result and bytes written on every path, one failure predicate per write", BASE + "lists of up to 5 components and next to constants in the code; a writer that fails is taken to fail as a function of the bytes offered to it so far.")

prop("C22", "Decoders allocate no more than the input pays for",
 "The memory a decoder allocates before it has read the corresponding bytes is bounded by a constant; a length field alone never causes an allocation proportional to its value.",
 ["inputs"], "all length fields, up to 2^32-1",
 "No test feeds a hostile length.",
 ["mlsag/pubkeys.go", "mlsag/responses.go", "mlsag/mlsag.go", "rangeproof/rangeproof.go", "rangeproof/innerproduct/innerproduct.go"],
 [("allocation sites", "make and append in Decode methods")], "allocation-size analysis: every make/append size in a decoder is traced to constants and bytes already read", BASE + "memory used by the reader itself is outside the property.")

prop("C23", "Equality means every component is equal",
 "The equality methods of signatures, key lists, responses, commitments, inner-product proofs and range proofs return true if and only if the two values have the same number of every component and each component is equal; they are reflexive and symmetric and never panic on values of different sizes.",
 ["inputs"], "all pairs of values, of equal or different sizes",
 "The tests compare a value with its own decoded copy, which an equality that ignores a component also passes.",
 ["mlsag/mlsag.go", "mlsag/pubkeys.go", "mlsag/responses.go", "rangeproof/rangeproof.go", "rangeproof/pedersen/pedersen.go", "rangeproof/innerproduct/innerproduct.go"],
 [("equality", "Equals methods")], VG, BASE + "lists of up to 33 components, all pairs of small sizes.")

prop("C24", "Vector operations are the exact element-wise algebra",
 "The vector operations (addition, subtraction, scalar add, subtract and multiply, negation, Hadamard and inner product, multi-exponentiation, powers and power sums, splitting, constant vectors) compute exactly the textbook result for every length including zero; the arithmetic ones return a new vector rather than altering or returning an operand; and operations on two vectors reject operands of different length with an error instead of truncating or panicking.",
 ["inputs"], "all vectors of all lengths over the scalar field",
 "The tests use a few short fixed vectors.",
 ["rangeproof/vector/vector.go"], [("operations", "rangeproof/vector/vector.go")], VG, BASE + "lengths up to 257, and to 1100 next to constants in the code.")

prop("C28", "Honest ring signatures always verify",
 "A bLSAG or MLSAG signature produced from a secret key verifies with the message and ring it was made for and the key images returned with it, for every message, every decoy list (including none), every key and every position the signer is assigned.",
 ["inputs", "schedules"], "all messages, keys, decoys and outcomes of the random draws",
 "The tests sign with random keys and one random position per run; a failure at a particular position or ring size is sampled at best.",
 ["ringsig/blsag/blsag.go", "mlsag/proof.go", "mlsag/dualkey.go"], [("signing", "blsag.Sign, Proof.prove, DualKey.Prove")],
 VG, BASE + "every position of the signer in rings of up to 8 members, and rings of up to 130 next to constants in the code.", observe=["blsag.Sign", "blsag.Verify", "mlsag.DualKey.Prove", "mlsag.Signature.Verify"])

prop("C15", "Honest range proofs prove exactly the values in range, and verify",
 "Proving fails unless every value is an integer below 2^64 and there are between 1 and 16 of them. Otherwise the proof returned carries a commitment to each value in order (padded with commitments to zero up to a power of two), its other messages are exactly those of the Bulletproof prover for the bits of those values, and it verifies.",
 ["inputs", "schedules"], "all lists of scalars, all outcomes of the random draws",
 "The tests prove a few random small values; a proof that is wrong only for particular bit patterns, value counts or positions is not sampled.",
 ["rangeproof/rangeproof.go", "rangeproof/poly.go", "rangeproof/bitCommitment.go", "rangeproof/helper.go", "rangeproof/debug.go", "rangeproof/innerproduct/innerproduct.go"],
 [("prover", "rangeproof/rangeproof.go: Prove and its compute helpers"), ("polynomial", "rangeproof/poly.go"), ("bits", "rangeproof/bitCommitment.go")],
 VG, BASE + "one value in full in the quick run, two in the thorough one; 2, 3, 5 and 16 with the inner-product argument kept abstract (C29 decides it). BitCommit is decided on its own for all values below 2^64 and used by its contract.", observe=["rangeproof.Prove", "rangeproof.Verify"])

prop("C29", "Inner-product proofs are the folding argument and verify by its equation",
 "Generating an inner-product proof succeeds exactly for vectors of one common length that is a power of two, and then produces exactly the folding argument's left and right terms and final scalars. Verification accepts if and only if the dimensions fit and the folding equation holds for the recomputed challenges, so honest proofs always verify; other inputs are rejected without a panic. The scalars offered for batched verification and the padding helper agree with that definition.",
 ["inputs"], "all vectors and bases of any length, all proofs",
 "The tests use random vectors of one or two fixed lengths and never malformed proofs.",
 ["rangeproof/innerproduct/innerproduct.go"], [("folding", "innerproduct.go: Generate"), ("verification", "innerproduct.go: Verify, VerifScalars, DiffNextPow2")],
 VG, BASE + "vectors of up to 16 (thorough: 64) elements; padding for all n up to 600 and around powers of two up to 2^31.", observe=["innerproduct.Generate", "innerproduct.Proof.Verify", "innerproduct.Proof.VerifScalars"])

ALLF = ["bls/bls.go", "hash/hash.go", "merkletree/merkletree.go", "mlsag/mlsag.go", "mlsag/proof.go", "mlsag/dualkey.go", "mlsag/pubkeys.go", "mlsag/responses.go", "mlsag/privatekeys.go", "ringsig/blsag/blsag.go",
        "rangeproof/rangeproof.go", "rangeproof/innerproduct/innerproduct.go", "rangeproof/pedersen/pedersen.go", "rangeproof/generators/generator.go", "rangeproof/fiatshamir/fiatshamir.go", "rangeproof/vector/vector.go"]
MEMT = "effect and alias analysis: abstract heap after every exported operation compared with the heap before it"

prop("C17", "No operation leaves anything behind in package-level state",
 "No exported operation changes a package-level variable or memory reachable from one, so what a call returns depends on its arguments (and random draws) only, never on which calls came before it or run at the same time. State that is guarded by a lock or computed once is not judged.",
 ["histories", "schedules"], "all sequences and interleavings of calls",
 "The tests call operations one at a time in one order; a value left in a package variable shows only when a later or concurrent call reads it.",
 ALLF, [("package-level variables", "rangeproof/const.go and the var blocks of every package")],
 MEMT, BASE + "124 exported operations, each with several argument shapes; the initial values of package variables are those of the package initialisers.")

prop("C18", "Operations change nothing they are given",
 "No exported operation changes the keys, scalars, points, vectors, messages, signatures, proofs or byte slices passed to it, nor the elements of a caller's slice beyond its length; the only thing an operation may change is the receiver of a method whose purpose is to change it. Two threads may therefore pass the same key, ring or vector to different operations.",
 ["histories", "schedules"], "all arguments, including slices with spare capacity, all later uses of them",
 "The tests rarely look at an argument again after the call, and slices with spare capacity shared between callers do not occur in them.",
 ALLF, [("writes through arguments", "every exported function and method")],
 MEMT, BASE + "124 exported operations, each with several argument shapes; arguments are taken not to overlap one another; representation changes inside bn256 values are not modelled.")

prop("C19", "Results and receivers hold their own copies",
 "What an operation returns, or stores in its receiver, shares no memory with its arguments or with package-level variables, so changing an argument afterwards never changes a key, ring, signature, proof or vector obtained earlier. Exceptions are the ones that are views by design: splitting a vector, the seed and message slices held by a generator, a commitment base or a signer, the transcript bytes handed out by the transcript, the payloads held by a Merkle tree, and a method returning its own receiver.",
 ["histories"], "all arguments and all later changes to them",
 "The tests do not modify an argument after the call and look at the result again.",
 ALLF, [("copies", "AddDecoy, AddSecret, AddPubKey, AddResponse, Copy, Decode, Prove, Sign")],
 MEMT, BASE + "124 exported operations, each with several argument shapes; values held behind interfaces (Merkle payloads, readers, writers) are outside the property.")

prop("C30", "Signatures and proofs cannot be forged",
 "Without the secret key nobody can produce a BLS or ring signature that verifies, and without a value in range nobody can produce a range proof that verifies.",
 ["programs"], "all adversaries of bounded computing power",
 "A test cannot enumerate adversaries.", ["bls/bls.go", "ringsig/blsag/blsag.go", "mlsag/proof.go", "rangeproof/rangeproof.go"], [("hardness assumptions", "outside the code")], "", "")

prop("C31", "Ring signatures hide the signer and range proofs hide the value",
 "The distribution of a ring signature is the same for every ring member that could have signed, and that of a range proof the same for every value in range, up to what a computationally bounded observer can tell.",
 ["programs"], "all observers of bounded computing power",
 "A test cannot compare distributions.", ["ringsig/blsag/blsag.go", "mlsag/proof.go", "rangeproof/rangeproof.go"], [("blinding", "C06, C11 and C12 decide the parts visible in the code")], "", "")

prop("C32", "Operations on secrets take the same time for all secrets",
 "The time and memory accesses of signing, proving and committing do not depend on secret keys, nonces, blinding factors or committed values.",
 ["inputs"], "all secrets, on the compiled code and the actual machine",
 "A test cannot see all timings.", ["ringsig/blsag/blsag.go", "mlsag/proof.go", "rangeproof/rangeproof.go", "bls/bls.go"], [("scalar arithmetic", "in go-ristretto and bn256, outside the repository")], "", "")

NA += [("C30", "Unforgeability is a reduction to hardness assumptions about the curves and hash functions, not a fact visible in the source. The parts that are visible are decided as C01-C03, C09, C10, C13 and C14 (verification is exactly the published equation, and challenges bind everything)."),
       ("C31", "Anonymity and zero knowledge are statements about probability distributions against bounded observers. The structural necessary conditions are decided as C06 (fresh independent randomness everywhere), C11 and C12 (nothing but the image depends on the signer's place, which is uniform)."),
       ("C32", "The code is not constant-time today and cannot be made so here: math/big and the scalar multiplication of bn256 in the dependencies branch on secret data, and the repository itself goes through BigInt for the bits of a value. Timing of the compiled code is not decided by its source.")]

BUILT = set("C25 C01 C02 C03 C04 C05 C16 C20 C21 C22 C23 C24 C07 C08 C09 C10 C11 C12 C14 C28 C13 C15 C29 C06 C17 C18 C19".split())
P[:] = [x for x in P if x[0]["id"] in BUILT | {i for i, _ in NA}]
