#!/usr/bin/env python3
# Source of properties.jsonl (python3 tools/props.py > properties.jsonl)
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
                 "observe_at":list(observe),"hook_needed":None}})
I=["inputs"]; H=["histories"]; IC=["inputs","configurations"]; IF=["inputs","fault_sequences"]
prop("C01","Scalar arithmetic is exact modulo the group order",
 "Adding, subtracting, multiplying, negating and inverting scalars gives the exact residue modulo the secp256k1 group order for all operands, including when the receiver is one of the operands, and leaves the other operands unchanged. Equality, zero test, integer conversion and the high-half test agree with the canonical integer value; a node index maps to the scalar index plus one.",
 I,"all pairs of residues modulo the group order, every receiver/operand aliasing, all 64-bit integers",
 "The few scalar tests use one or two fixed values; no test covers the high-half test, aliasing or operands near the order.",
 ["curve/k256_scalar.go","curve/scalar.go"],
 [("Add/Sub/Mul/Invert/Negate/Assign/Clone","curve/k256_scalar.go:63-110"),("IsHigh","curve/k256_scalar.go:127"),("FromNodeIndex","curve/scalar.go:135")],
 ["value of the returned scalar and of every operand after the call"])
prop("C02","Scalar encodings are canonical and round trip",
 "A scalar serialises to the 32-byte big-endian form of its value (one curve-tag byte first in the tagged form), and decoding that gives the scalar back. Decoding any other byte string (wrong length, empty, value not below the group order, wrong tag) returns an error and never panics; the wide decoder reduces any string of up to 64 bytes modulo the order and rejects longer ones.",
 I,"all byte strings of every length up to the bound, all scalars",
 "Tests decode a handful of valid strings; malformed, non-canonical and odd-length inputs are untested.",
 ["curve/k256_scalar.go","curve/scalar.go"],
 [("Serialize/SerializeTagged/Deserialize","curve/k256_scalar.go:22,111,116"),("scalar.Deserialize, DeserializeTagged, FromBytesWide, ToScalarBytes","curve/scalar.go:46-125")],
 ["decoded value, error, panic"])
prop("C03","Point encodings round trip and decoding accepts only points on the curve",
 "Every point encodes to its SEC1 compressed form (33 zero bytes for the identity) and, tagged, with a curve-tag byte first; the uncompressed form holds both coordinates; each decodes back to the same point. Decoding arbitrary bytes returns either an error or a value that satisfies the curve equation and is the point those bytes name; it never panics.",
 I,"all points including the identity; all byte strings of every length up to 66",
 "Tests decode a few valid points; x coordinates with no point, non-canonical coordinates, off-curve pairs, bad tags and empty input are not covered.",
 ["curve/k256_point.go","curve/point.go","curve/encode.go"],
 [("encodePoint/Serialize*","curve/k256_point.go:153-188"),("decompress, fromUncompressed, fromEncodedPoint","curve/k256_point.go:47-96"),("Encode.FromBytes, Coordinates","curve/encode.go:122-231"),("Point.Deserialize*","curve/point.go:100-140")],
 ["decoded point, error, panic, encoded bytes"])
prop("C04","Point operations implement the group law",
 "Addition, subtraction, doubling, scalar multiplication, two-term linear combinations, multiplication by a node index and the Pedersen map compute the group operation exactly for all points (identity, equal and opposite operands included) and all scalars, also when the receiver is one of the operands. Operands other than the receiver are unchanged and clones share no state with their source.",
 I,"all group elements and scalars, all aliasings; node indices below 2^10",
 "Tests use fixed multiples of the generator and never alias receivers or use the identity.",
 ["curve/k256_point.go","curve/point.go"],
 [("AddPoints..LinComb","curve/k256_point.go:102-151"),("MulByNodeIndex","curve/k256_point.go:134"),("MulPoints, Pedersen, MulByG","curve/point.go:80-98")],
 ["resulting point and every operand after the call"])
prop("C05","Serialised commitments, openings and keys decode back to the same value",
 "Commitments and commitment openings of both kinds and encryption keys decode, from their serialised form, to a value of the same kind that behaves identically (same points and same opening checks), and encodings of values of different kinds or contents differ. Decoding arbitrary or truncated bytes returns an error or a well-formed value and never panics.",
 I,"all scalar and point contents including identity points, commitments up to 3 points, malformed encodings up to the bound",
 "Serialisation tests round trip one example and do not use the decoded value, change the kind or truncate the bytes.",
 ["poly/commitment.go","curve/k256_point.go","curve/k256_scalar.go","mega/key.go"],
 [("Serialize/Deserialize of openings and commitments","poly/commitment.go:52,79,98,162,284,401"),("Point/Scalar CBOR","curve/k256_point.go:202, curve/k256_scalar.go:131"),("key Deserialize","mega/key.go:33,85")],
 ["decoded value, result of checking an opening with it, error, panic"])
prop("C06","Hashing to curve points and scalars follows the hash-to-curve standard",
 "Hashing a message and domain separator to scalars or field elements reduces consecutive blocks of the expanded message (order length plus security margin) modulo the right prime, and hashing to a point applies the simplified SWU map with the standard secp256k1 isogeny to two field elements and adds the results. The mapped value is on the curve for every field element, the exceptional inputs included.",
 I,"every field element as input to the map (exceptional ones too), symbolic messages up to the bound",
 "Only fixed test vectors are checked; the exceptional cases of the map occur with negligible probability in random tests.",
 ["curve/hash_to_curve.go","curve/k256_fe.go","curve/fe.go"],
 [("sqrtRatio, sswu, isogeny","curve/hash_to_curve.go:15-90,216"),("HashToField, HashToScalar, HashToCurveRo","curve/hash_to_curve.go:104-160"),("field element operations","curve/k256_fe.go")],
 ["returned point, scalars, field elements, error"])
prop("C07","Message expansion is standard XMD with SHA-256 for every length",
 "Expanding a message under a domain separator to a requested length gives exactly the bytes of the RFC 9380 XMD construction with SHA-256, for every length it accepts, a separator longer than 255 bytes is hashed down first as the standard says, and a length the standard cannot express gives an error. Different messages, separators or lengths never lead to the same hash inputs.",
 I,"all messages and separators of the bounded lengths, all output lengths in range",
 "Only a few published vectors are compared.",
 ["seed/xmd.go"],[("ExpandMessageXmd","seed/xmd.go:12")],["output bytes, error"])
prop("C08","Random-oracle inputs are encoded injectively and never dropped",
 "The output of the random oracle depends on every named input: two oracles whose domain, set of names, input kinds or input values differ in anything absorb different byte strings, and every input accepted is absorbed whatever its size, with the order of addition irrelevant. Duplicate or empty names and inputs that cannot be absorbed are reported as errors.",
 I,"all names and values of bounded sizes, all pairs of differing transcripts, inputs around the 1-byte and 4-byte length boundaries",
 "Tests compare single outputs; injectivity is a statement about all pairs of transcripts, and no test uses a long input.",
 ["ro/ro.go"],[("AddInput and typed variants","ro/ro.go:36-93"),("formRoInput, Output*","ro/ro.go:95-140")],["bytes given to the hash, returned errors, outputs"])
prop("C09","Seeds and randomness streams are deterministic functions of their inputs",
 "A seed is the domain-separated hash of its input, a stream is the ChaCha20 keystream of its seed consumed once in order whatever mix of reads is made, and filling a buffer yields stream bytes regardless of the buffer's previous content. Random scalars and polynomials are the successive in-range 32-byte words of the stream, out-of-range words being rejected.",
 I,"all seeds, all sequences of up to 4 reads of mixed sizes, all previous buffer contents, all rejection patterns up to the bound",
 "Tests only check that things run; rejection has probability 2^-128 and is never reached by sampling.",
 ["rand/chacha20.go","seed/seed.go","curve/scalar.go","poly/poly.go"],
 [("ChaCha20","rand/chacha20.go:12-41"),("NewSeed, Derive, Rng","seed/seed.go:15-47"),("Scalar.Random","curve/scalar.go:101"),("Poly.Random","poly/poly.go:35")],["bytes and scalars produced"])
prop("C10","Polynomial operations agree with polynomial algebra",
 "Sum, product, scaling and evaluation of polynomials agree with the algebra of polynomials over the scalar field for all coefficients and lengths, equality ignores trailing zeros, and interpolation of samples with distinct positions returns the polynomial of lowest degree through all of them and an error when positions repeat.",
 I,"all coefficient values, lengths up to the bound (zero and trailing-zero coefficients, samples already on the partial interpolant included)",
 "Tests use random polynomials: zero coefficients, degenerate samples and receiver reuse are never hit.",
 ["poly/poly.go"],[("Add/Mul/MulScalar/EvaluateAt/Equal","poly/poly.go:94-163"),("Interpolate","poly/poly.go:165"),("RandomWithConstant","poly/poly.go:46")],["coefficients and values of results, operands after the call"])
prop("C11","Lagrange interpolation recovers the polynomial value at any position",
 "The interpolation coefficients for any set of distinct node positions reproduce the value at the requested position of every polynomial of degree below the number of positions, for scalars and for points; repeated positions or mismatched lengths give an error.",
 I,"all polynomials and evaluation positions, node sets up to the bound with symbolic indices",
 "Tests interpolate a few random polynomials over consecutive indices.",
 ["poly/lagrange.go"],[("AtZero, AtValue","poly/lagrange.go:84-130"),("InterpolatePoint/Scalar","poly/lagrange.go:48-71")],["interpolated values, errors"])
prop("C12","Commitments bind polynomials and accept exactly the right openings",
 "A commitment to a polynomial (plain or blinded) has one point per coefficient, and an opening is accepted at a node exactly when the committed group element equals the one computed from the opening; the values of the committed polynomials at the node are accepted. Commitments are equal exactly when kind and points agree, are rejected when the kind, curve or size is wrong, and no argument makes creation drop coefficients silently.",
 I,"all coefficients, openings and commitments up to 3 points, node indices up to the bound, both kinds",
 "Tests open honest commitments at small fixed nodes.",
 ["poly/commitment.go"],[("Create","poly/commitment.go:142,263"),("evaluateAt","poly/commitment.go:121"),("checkOpening","poly/commitment.go:248,371"),("Equal, VerifyIs","poly/commitment.go:207-235,330-358")],["verdict of the opening check, equality, errors"])
prop("C13","Discrete-log equality proofs are complete and bind their statement",
 "A proof made for a witness verifies for its statement and associated data for every seed; verification accepts exactly the proofs whose challenge is the hash of the statement, both recovered commitments and the associated data. Consequently a statement without a common discrete log is accepted only when the hash output hits one predetermined value.",
 I,"all bases, witnesses, seeds, statements, proofs and associated data (lengths up to the bound)",
 "Tests prove and verify single honest instances and one corruption.",
 ["zk/dlog.go"],[("Create","zk/dlog.go:79"),("Verify","zk/dlog.go:104"),("HashToChallenge","zk/dlog.go:59")],["verification result"])
prop("C14","Equal-openings proofs are complete and bind their statement",
 "A proof that a plain and a blinded commitment hold the same value verifies for every witness, seed and associated data; verification accepts exactly when the challenge is the hash of the statement, the recovered commitment and the associated data, so commitments to different values are accepted only when the hash output hits one predetermined value.",
 I,"all witnesses, seeds, statements, proofs and associated data up to the bound","Tests prove and verify single honest instances.",
 ["zk/equal_opening.go"],[("Create","zk/equal_opening.go:63"),("Verify","zk/equal_opening.go:113"),("RecoverCommitments/HashToChallenge","zk/equal_opening.go:85,102")],["verification result"])
prop("C15","Product proofs are complete and bind their statement",
 "A proof that a commitment holds the product of two committed values verifies for every witness, seed and associated data; verification accepts exactly when the challenge is the hash of the statement, both recovered commitments and the associated data, so a wrong product is accepted only when the hash output hits one predetermined value.",
 I,"all witnesses, seeds, statements, proofs and associated data up to the bound","Tests prove and verify single honest instances.",
 ["zk/product.go"],[("Create","zk/product.go:68"),("Verify","zk/product.go:104"),("RecoverCommitment/HashToChallenge","zk/product.go:60,91")],["verification result"])
prop("C16","Encrypted shares decrypt only for their recipient and context",
 "Each recipient decrypts exactly the plaintext(s) addressed to it for all keys, seeds and contexts; the mask depends on ciphertext kind, dealer, recipient position, associated data, recipient key, ephemeral key and shared secret, so any other context gives a different mask. A ciphertext is accepted only with a valid proof of possession bound to kind, dealer and associated data and the expected recipient count, and tampering with any share makes the checked decryption fail.",
 I,"all plaintexts, keys, seeds; up to 3 recipients; both ciphertext kinds; altered contexts and shares",
 "Tests cover one honest run for each kind and a few corruptions.",
 ["mega/mega.go","mega/ciphertext.go","mega/key.go"],[("megaHashToScalars","mega/mega.go:16"),("ComputePopBase, VerifyPop, ComputeEphKeyAndPop","mega/mega.go:37-90"),("Encrypt*, Decrypt*, DecryptAndCheck","mega/ciphertext.go:65,236,200,288,217,330")],["decrypted scalars, errors"])
prop("C17","Honest dealings of every kind are created and pass verification",
 "A dealing made from valid inputs (random secret, masked or unmasked resharing, product) passes public verification for the matching operation and private verification by every recipient, commits to polynomials whose constant is the shared secret and whose number of coefficients is the threshold, and carries the proof its kind requires. Creation with invalid thresholds, recipients or secret kinds returns an error.",
 IC,"all secrets, masks, seeds and keys; thresholds and recipient counts up to 3; all four kinds",
 "Tests run one seeded example per kind.",
 ["dealings/dealings.go","dealings/secret_shares.go"],[("NewIDkgDealingInternal","dealings/dealings.go:60"),("EncryptAndCommit*","dealings/dealings.go:13,34"),("Secret.From","dealings/secret_shares.go:39")],["verification results, committed constant, errors"])
prop("C18","Malformed or tampered dealings are rejected without crashing",
 "Public verification fails for a dealing whose commitment kind, commitment size, ciphertext kind, recipient count, proof presence or proof content does not match the operation, threshold, context or previous commitments; private verification fails when the decrypted share does not open the commitment. Neither check panics on any combination of parts.",
 IF,"all combinations of dealing parts and operations, tampered scalars and points, altered context",
 "Tests corrupt a single ciphertext byte of one dealing.",
 ["dealings/dealings.go","mega/ciphertext.go"],[("PubliclyVerify","dealings/dealings.go:121"),("PrivateVerify","dealings/dealings.go:189")],["error or acceptance, panic"])
prop("C19","Transcripts combine dealings into a commitment to the combined secret",
 "A transcript made from enough verified dealings commits to the sum (random), the interpolated secret (resharing) or the interpolated product (multiplication) of the dealt secrets and its commitment opens with the combination of the dealt shares at every node; its kind follows the operation. Too few or mismatching dealings give an error, and transcripts compare equal exactly when their commitments are equal.",
 IC,"all dealing polynomials; up to 3 dealers with symbolic indices; thresholds up to 3; all operations",
 "Tests check a few seeded runs.",
 ["dealings/transcript.go","dealings/transcript_operation.go","dealings/combined_commitment.go"],[("CombineCommitmentsViaInterpolation","dealings/transcript.go:25"),("NewTranscriptInternal","dealings/transcript.go:59"),("ConstantTerm/EvaluateAt/Compare","dealings/transcript_operation.go:13-30")],["combined commitment, errors"])
prop("C20","Shares computed or reconstructed open the transcript commitment",
 "The opening a node computes from its decrypted dealing shares (directly, or with missing shares supplied by openings) opens the transcript's commitment at that node, and a share reconstructed from enough openings by other nodes equals the dealer's share. Inconsistent, missing or too few openings give an error rather than a wrong share.",
 IF,"all share values; up to 3 dealings/openings; symbolic node indices; one corrupted opening",
 "Tests follow one honest run.",
 ["dealings/commitment.go","dealings/transcript.go"],[("FromDealings, FromDealingsAndOpenings, CombineOpenings","dealings/commitment.go:23-130"),("ReconstructShareFromOpenings","dealings/transcript.go:138")],["returned opening, errors"])
prop("C21","Complaints are raised exactly for bad dealings and convince verifiers",
 "A receiver raises a complaint for exactly those dealings whose share for it does not decrypt to a valid opening, each complaint verifies for that dealing, dealer, complainer key and context, and a complaint about a dealing whose share is valid, or one presented for another dealer, complainer or context, is rejected.",
 IF,"all dealings, keys and seeds; both ciphertext kinds; altered contexts, up to 2 dealings",
 "Tests use one corrupted dealing and a fixed set of alterations.",
 ["complaints/complaints.go"],[("GenerateComplaints, NewComplaintInternal","complaints/complaints.go:22-60"),("Verify","complaints/complaints.go:71")],["set of complaints, verification result"])
prop("C22","Key derivation follows the generalised BIP32 scheme for all paths",
 "For every public key and path, the derived key is the master key plus the returned tweak times the generator, with chain keys computed by HMAC-SHA512 over the compressed key and index, and four-byte indices below 2^31 match BIP32 non-hardened derivation. When the left half of a hash is not a valid tweak or the child is the identity, the derivation continues with the successor index at that step.",
 I,"all public keys, all index byte strings up to the bound, paths up to 3 elements, both halves of the hash output arbitrary",
 "Tests use published vectors; the retry branch has probability 2^-127 and cannot be sampled.",
 ["key/key_derivation.go","sign/sign.go"],[("ckdpub","key/key_derivation.go:75"),("DeriveTweak","key/key_derivation.go:92"),("DerivationIndex.Next","key/key_derivation.go:35"),("DerivePublicKey","sign/sign.go:52")],["derived key, chain key, tweak"])
prop("C23","Signature shares verify exactly when they match the signer's openings",
 "A share computed from a signer's openings verifies for that signer, message, randomness, path and transcripts, and verification rejects every share whose numerator or denominator opening does not open the corresponding combination of the transcript commitments at the signer's node. No share content makes verification crash.",
 I,"all openings, transcripts, messages and randomness (commitments up to 2 points, symbolic signer index)",
 "Tests verify honest shares only; a wrong share is never presented.",
 ["sign/share.go","sign/sign.go"],[("NewThresholdEcdsaSigShareInternal","sign/share.go:17"),("Verify","sign/share.go:56"),("DeriveRho","sign/sign.go:21")],["verification result, share contents"])
prop("C24","Combined signatures are valid low-s ECDSA signatures",
 "Combining at least the threshold of valid shares yields r and s with r the presignature x-coordinate and s the ECDSA value for the derived key normalised to the lower half, and it verifies; fewer shares give an error. Verification accepts exactly the signatures that satisfy the ECDSA equation for the derived key, with r matching the presignature, both components nonzero and s low.",
 I,"all secrets, nonces, messages (0 to 64 bytes), randomness, signer sets up to 3",
 "Tests check one seeded protocol run and one corruption.",
 ["sign/combined_sig.go","sign/sign.go"],[("NewThresholdEcdsaCombinedSigInternal","sign/combined_sig.go:18"),("Verify","sign/combined_sig.go:68"),("EcdsaConversion, ConvertHashToInteger","sign/sign.go:12-20")],["signature components, verification result"])
prop("C25","The whole protocol yields signatures valid under the derived public key",
 "Running key generation, resharing, presignature creation, multiplication and signing with honest nodes yields a signature that an independent ECDSA verifier accepts under the public key derived from the master key for the path and message, whatever the seeds, and whichever qualified subset of nodes contributes.",
 ["inputs","configurations","schedules"],"all seeds (random coefficients symbolic), 2 to 3 nodes with threshold up to 2, all qualified signer subsets, path lengths 0 to 1",
 "Tests run a handful of seeds and one configuration.",
 ["dealings/dealings.go","dealings/transcript.go","dealings/commitment.go","sign/share.go","sign/combined_sig.go"],[("NewIDkgDealingInternal .. NewTranscriptInternal","dealings/"),("sign share, combine, verify","sign/")],["final signature and derived key"])
prop("C26","Operations never alter their inputs or share mutable state",
 "Verification, evaluation, serialisation, combination, derivation, decryption and signing leave every argument they are given with the value it had, and results and clones can be changed in place without affecting the values they were made from (accessors that hand out a part of a value, and constructors that wrap the values they are given, excepted).",
 H,"all contents of the argument values; each listed operation followed by a use or a mutation of result or argument",
 "A test would have to compare every argument after every call for all values.",
 ["curve/k256_point.go","poly/commitment.go","poly/poly.go","mega/ciphertext.go","dealings/zk_proof.go","sign/share.go"],[("Clone methods and operations that reuse receivers","curve, poly, mega, zk, dealings, sign")],["arguments after the call"])
for p in P: print(json.dumps(p))
