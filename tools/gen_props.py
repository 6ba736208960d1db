#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

NOH="The repository's tests assert nothing about this; "
# ---------------------------------------------------------------- hashes
prop("H01","Hash computes the published function for every algorithm and message",
 "For every supported hash algorithm and every message of any length, the digest returned is exactly the one the algorithm's public specification defines (including the composites double-SHA256, HASH160, Keccak256+RIPEMD160 and SHA3-256+RIPEMD160). BLAKE2b and BLAKE2s return a digest of the requested length (1..64 and 1..32 bytes; BLAKE2s treats length 0 as 32) computed for that length, every other algorithm ignores the requested length, and an unknown algorithm or an impossible BLAKE2 length yields no digest.",
 ["inputs"],"all messages (every length, especially around each algorithm's block and padding boundaries), all digestLen values, all algorithm identifiers",
 NOH+"Test_puzzle_hash reaches SHA-256 through one input; padding and multi-block paths of sm3, blake256, blake512, blake2s, sha3 are never compared with anything.",
 ["hashset.go","sm3/sm3.go","blake256/blake256.go","blake256/blake256block.go","blake512/blake512.go","blake512/blake512block.go","blake2s/blake2s.go","blake2s/block.go","sha3/sha3.go","sha3/keccakf.go"],
 [("dispatch by algorithm id","hashset.go Hash"),("compression functions and padding","sm3, blake256, blake512, blake2s, sha3 packages")],["Hash(data, digestLen, alg)"])
prop("H02","Hash objects depend only on the bytes written, not on the call history",
 "For every hash object the library's hash packages hand out, any sequence of writes, intermediate sums, resets (and clones and reads for SHAKE) gives the same digests as hashing the concatenation of the bytes written since creation or the last reset with a fresh object. Asking for a digest appends it to the caller's prefix and changes nothing that later writes or digests can observe, and the advertised digest and block sizes are the true ones.",
 ["histories","inputs"],"all interleavings of Write(chunk)/Sum(prefix)/Reset/Clone/Read with chunks of any size, for every constructor of sm3, blake256, blake512, blake2s and sha3",
 NOH+"no test splits a message over writes, sums twice or resets; buffering bugs appear only for particular chunk boundaries.",
 ["sm3/sm3.go","blake256/blake256.go","blake512/blake512.go","blake2s/blake2s.go","sha3/sha3.go","sha3/shake.go"],
 [("partial-block buffering and counters","Write/Sum/Reset of each package"),("state copied before finalisation","Sum")],["hash.Hash methods"],
 [("block buffer and counters","bytes absorbed but not yet compressed, total length","digest structs of each package")])
prop("H03","Parameterised BLAKE and SHAKE variants match their specifications",
 "BLAKE-224/256/384/512 with or without salt, BLAKE2s with every legal size, key, salt, personalisation and tree parameters, and SHAKE128/256 with any output length compute exactly what their specifications define. Parameter sets the specification forbids are refused instead of being silently altered, and a constructed hash does not change when the caller later reuses the parameters' storage.",
 ["inputs","configurations"],"all salts, keys, personalisations, tree parameters, digest sizes and messages",
 NOH+"none of these constructors is exercised by any test.",
 ["blake256/blake256.go","blake512/blake512.go","blake2s/blake2s.go","sha3/shake.go","sha3/hashes.go"],
 [("parameter block and key block","blake2s New/NewMAC"),("salted initial state","blake256/blake512 setSalt"),("squeezing","sha3 Read")],["constructors and Sum/Read"])
prop("H04","Hmac is RFC 2104 HMAC for every key and message",
 "For every key (empty, shorter than, equal to or longer than the hash block) and every message, the MAC returned for SHA-256, SHA-512 and SM3 is the RFC 2104 HMAC of the message under that key; an unknown algorithm yields nothing.",
 ["inputs"],"all keys and messages, in particular key lengths around 64 and 128 bytes",
 NOH+"HMAC is not called by any test that runs reliably.",
 ["hashset.go","sm3/sm3.go"],[("HMAC construction over the hash objects","hashset.go Hmac"),("SM3 as a hash.Hash","sm3/sm3.go Sum/Reset")],["Hmac(key, data, alg)"])
# ---------------------------------------------------------------- keys
prop("K01","Public keys are the defined point for every legal private key",
 "For every legal private key of every curve type, key generation returns the public key that the scheme mathematically defines, in the documented encoding (X||Y big-endian with leading zeros kept for the Weierstrass and Pasta curves; 32-byte RFC 8032 / RFC 7748 encodings for the 25519 family, where the raw-scalar types multiply by the key as given, which for clamped X25519 keys is RFC 7748; 48-byte compressed G1 for BLS). Base-point multiplication returns the same point, compressed for the Weierstrass and Pasta curves.",
 ["inputs"],"all private keys in the legal range of each of the ten curve types, including keys near 0, near the group order and giving coordinates with leading zero bytes",
 "The stable tests pin a handful of BLS keys and print the rest; wrong results for rare scalars (long runs of zero/one bits, boundary digits, short coordinates) stay invisible.",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","ecdsa.go","eddsa/ed25519.go","eddsa/curve25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","pasta/pasta.go","bls12_381/bls12-381.go"],
 [("scalar multiplication of the base point","each curve implementation"),("fixed-width serialisation","secp256k1.go genPublicKey")],["GenPubkey","Point_mulBaseG"])
prop("K02","Illegal private keys are refused, legal ones accepted",
 "A private key of the wrong length, equal to zero (for the prime-order-scalar schemes), or not below the group order is refused by key generation, signing and decryption with a non-success status and no output, while every key inside the legal range is accepted by all of them. The legal range is [1,N-1] for secp256k1, secp256r1, SM2 (signing with SM2: [1,N-2]) and BLS12-381, [1,2^254-1] for Pasta, and any 32 bytes for the 25519 family (for the raw-scalar types ED25519 and X25519: not a multiple of the group order).",
 ["inputs"],"all byte strings offered as private keys, in particular 0, 1, N-2, N-1, N, N+1, 2^256-1, nil and 0..65-byte lengths",
 NOH+"the boundary values decide it and none of them is tested.",
 ["secp256k1.go","sm2_std.go","bls12_381/bls12-381.go","pasta/pasta.go","eddsa/ed25519.go","eddsa/curve25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","eccset.go"],
 [("range checks","genPublicKey, sign, decrypt, isScalarLegal, pasta.GenPublicKey")],["GenPubkey","Signature","Decryption","Point_mulBaseG"])
# ---------------------------------------------------------------- signatures
prop("S01","Every signature made verifies under the signer's public key",
 "For every scheme, every legal private key and every message the scheme accepts (and every SM2 identity), a signature produced successfully is accepted by verification with the public key generated from that private key, the same message and the same identity. This holds whatever random numbers the signer draws.",
 ["inputs"],"all keys, messages, SM2 identities (nil: the 32-byte message is the digest) and random streams, for the ten curve types; raw-scalar ED25519/X25519 keys are clamped scalars, X25519 and CURVE25519_SHA256 messages are non-empty",
 "The stable tests sign with two or three fixed BLS/Pasta keys; none asserts a round trip for ECDSA, SM2 or the 25519 family.",
 ["eccset.go","ecdsa.go","secp256k1.go","sm2_std.go","eddsa/curve25519.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","pasta/pasta.go","bls12_381/bls12-381.go"],
 [("sign / verify pairs","each scheme")],["Signature","Verify"])
prop("S02","A signature is bound to its message, key, identity and scheme",
 "A valid signature is rejected as soon as the message, the public key, the SM2 identity or the scheme is replaced by a different one, or any bit of the signature itself is changed; for ECDSA the only other accepted signature is the negated-s twin of the original. This includes messages that differ only in length, trailing bytes or bytes far from the beginning.",
 ["inputs"],"all valid signatures and all single-element alterations of message, key, identity, signature and scheme",
 NOH+"rejection is never tested: a verifier that ignored part of its input would pass every test.",
 ["eccset.go","ecdsa.go","secp256k1.go","sm2_std.go","eddsa/curve25519.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","pasta/pasta.go","pasta/mina.go","bls12_381/bls12-381.go","bls12_381/g2.go"],
 [("challenge hash covers R, key and message","EdDSA-family verify"),("ZA and e","sm2_std.go ZA, msgHash"),("message hash","pasta/mina.go MessageHash")],["Verify"])
prop("S03","ECDSA and SM2 verification accepts exactly the standard's valid signatures",
 "For secp256k1, secp256r1 and SM2, verification returns success for a public key, message and 64-byte r||s if and only if the standard's verification equation holds with 1 <= r,s <= N-1 (and r+s not 0 mod N for SM2). In particular signatures produced by other implementations, with any r or s in range, are accepted, and r or s equal to 0, N or beyond is rejected.",
 ["inputs"],"all (key, digest/message, identity, r, s), including signatures made with chosen nonces, digests above N and r or s at the ends of the range",
 NOH+"only signatures produced by the library itself could be reached by a round-trip test, and those never have high r, high s, digest >= N or edge nonces.",
 ["ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go"],[("range checks and equation","ecdsa.go verifyesdsa, verifyGeneric; sm2_std.go sm2_std_verify"),("SM2 digest with identity","sm2_std.go ZA, msgHash")],["Verify"])
prop("S04","ECDSA signatures are low-S, canonical and carry the right recovery bit",
 "Every ECDSA signature the library produces on secp256k1 or secp256r1 has s <= N/2 and both r and s in canonical form (top bit clear, and no redundant leading zero byte), fixed 64-byte r||s encoding, and the extra output v is 0 or 1 and is the parity bit that selects the nonce point for the returned s. For SM2 v is the parity of the nonce point.",
 ["inputs"],"all keys, digests and random streams",
 NOH+"each signature satisfies the low-S and canonical conditions by chance often enough that sampling a few never exposes a missing branch; v is never checked.",
 ["ecdsa.go","secp256k1.go","sm2_std.go"],[("retry loop, s negation and v flip","ecdsa.go signGeneric"),("v of SM2","sm2_std.go sm2_std_sign")],["Signature"])
prop("S05","Public key recovery returns the signer's key or fails",
 "For every signature the library produces over a 32-byte digest on secp256k1, secp256r1 or SM2 (digest mode), recovery from r||s||v and the digest returns exactly the signer's public key, also for digest zero. For any other 65-byte signature and digest, recovery either fails or returns a public key under which r||s verifies for that digest; it never returns another key and never crashes.",
 ["inputs"],"all keys, digests (including 0, N and above), nonces, and arbitrary r, s, v bytes",
 NOH+"recovery is never called by a reliable test.",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go"],[("candidate R from r and v, then (sR-eG)/r","*_recover_public"),("re-verification of the candidate","*_recover_public")],["RecoverPubkey"])
prop("S06","Ed25519 (both variants) interoperates with RFC 8032",
 "ED25519_NORMAL public keys and signatures are byte-for-byte those of RFC 8032 for every seed and message, and verification of both Ed25519 variants accepts exactly the public key, message and signature triples RFC 8032 verification accepts, including rejecting s >= L and undecodable keys. Raw-scalar ED25519 signatures verify under any RFC 8032 verifier.",
 ["inputs"],"all seeds, clamped scalars, messages, and altered or adversarial (s+L, bad point) signatures and keys",
 NOH+"Test_ed only prints; no comparison with another implementation.",
 ["eddsa/curve25519.go","eddsa/ed25519.go","eddsa/edwards25519/edwards25519.go"],[("sign/verify equation","eddsa/curve25519.go, eddsa/ed25519.go"),("scalar reduction and multiply-add","edwards25519 ScReduce, ScMulAdd")],["GenPubkey","Signature","Verify"])
prop("S07","X25519 and Curve25519-SHA256 signatures follow their published schemes",
 "X25519-key signatures are XEdDSA signatures (Edwards sign bit carried in the top bit of s) that an independent verifier accepts, and verification accepts independently produced ones and rejects those whose equation fails. CURVE25519_SHA256 signatures and public keys equal, byte for byte, the deterministic EC-KCDSA scheme (Curve25519 x-coordinate, SHA-256) for every key and message, and only canonical signatures and public keys are accepted.",
 ["inputs"],"all keys, messages, and independently produced or altered signatures",
 NOH+"neither scheme is compared with anything.",
 ["eddsa/x25519.go","eddsa/curve25519_sha256.go","eddsa/convert.go"],[("sign-bit handling and conversion","eddsa/x25519.go"),("KCDSA sign/verify and big-integer helpers","eddsa/curve25519_sha256.go Sign, Verify, core, divmod, egcd32")],["GenPubkey","Signature","Verify"])
prop("S08","Signing nonces are fresh, message-dependent and cover the whole range",
 "Two signatures over different messages never share a nonce, even when the system random source repeats itself for the schemes that mix the message into the nonce; and when the random source is healthy, repeated randomised signatures over the same message use different nonces. Nonces of the randomised schemes are not confined to a small part of the scalar range: every bit of them varies, and they depend on at least 128 bits of the random source.",
 ["inputs","fault_sequences"],"all keys and message pairs, with a healthy, repeating or constant random source",
 "A reused or biased nonce still verifies, so no functional test can see it; it shows only when several signatures under one key are related to each other.",
 ["ecdsa.go","sm2_std.go","eddsa/ed25519.go","eddsa/curve25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","pasta/pasta.go"],[("CSPRNG keyed by private key, entropy and digest","ecdsa.go signecdsa; sm2_std.go sm2_std_sign"),("nonce hash","eddsa sign functions"),("nonce sampling","pasta/pasta.go Sign")],["Signature"])
# ---------------------------------------------------------------- SM2 encryption / KA
prop("E01","SM2 encryption and decryption round-trip and follow the standard format",
 "For every SM2 key pair and every non-empty plaintext, decryption of the encryption is the plaintext, and the ciphertext is 0x04||x1||y1||C3||C2 of length 97+|plaintext| as defined by GM/T 0003.4 (C1C3C2 order), so that an independent implementation decrypts it and the library decrypts what an independent implementation encrypts. Empty or missing plaintext and illegal public keys are refused with the documented status and no ciphertext.",
 ["inputs"],"all keys, plaintexts (lengths around multiples of 32 and beyond one KDF block), and random streams",
 NOH+"SM2 encryption is never exercised by a reliable test.",
 ["sm2_std.go","secp256k1.go","eccset.go"],[("encrypt/decrypt","sm2_std.go sm2_std_encrypt, sm2_std_decrypt"),("KDF counter","sm2_std.go kdf")],["Encryption","Decryption"])
prop("E02","SM2 decryption refuses every ciphertext that was altered or is malformed",
 "Decryption returns success only for ciphertexts whose integrity value matches: any changed bit, truncation, extension, splice of two ciphertexts, off-curve point, wrong prefix byte or wrong private key makes it return a non-success status and no plaintext. No input makes it crash.",
 ["inputs"],"all alterations of valid ciphertexts and all byte strings",
 NOH+"tampering is never tested.",
 ["sm2_std.go","secp256k1.go","eccset.go"],[("C3 comparison","sm2_std.go sm2_std_decrypt"),("status mapping","eccset.go Decryption")],["Decryption"])
prop("E03","SM2 encryption and key agreement use a fresh ephemeral key every time",
 "With a healthy random source, every SM2 encryption and every key-agreement step that draws an ephemeral key uses a new one, for equal and for different inputs alike: repeated encryptions of a plaintext have different C1, and repeated key-agreement steps give different ephemeral keys. The ephemeral keys are not confined to a small part of the scalar range: every bit of them varies, and they depend on at least 128 bits of the random source.",
 ["inputs","histories"],"all keys and plaintexts, all sequences of encryptions and key-agreement steps, with a healthy random source",
 "A reused or short ephemeral key still decrypts and agrees, so no functional test can see it; it shows only when several results are related to each other and to the random bytes drawn.",
 ["sm2_std.go","utils.go","eccset.go"],[("ephemeral scalar of an encryption","sm2_std.go sm2_std_encrypt; utils.go randFieldElement"),("ephemeral keys of the key agreement","sm2_std.go sm2_std_ka_initiator_step1, sm2_std_ka_responder_step1")],["Encryption","KeyAgreement_initiator_step1","KeyAgreement_responder_step1"])
prop("A01","SM2 key agreement gives both parties the same standard key",
 "For every pair of key pairs, identities, ephemeral keys and key length, an honest run of the SM2 key agreement (Diffie-Hellman or fixed-ephemeral mode) succeeds at every step and both parties obtain the same key, of exactly the requested number of bytes, equal to the key and check values GM/T 0003.3 defines. This holds for every key length the interface can express.",
 ["inputs","histories"],"all static and ephemeral keys, identities, key lengths 0..65535 and random streams",
 NOH+"the key agreement is never exercised by a reliable test.",
 ["sm2_std.go","eccset.go"],[("shared point with truncated ephemeral x","sm2_std.go ka initiator/responder"),("KDF and check values","sm2_std.go ka_kdf, ka_check")],["KeyAgreement_*"])
prop("A02","SM2 key agreement detects any disagreement and hands out no unconfirmed key",
 "If the two parties' views of an identity, a static or ephemeral public key, or a check value differ in any way, the initiator's second step or the responder's final step returns a non-success status; the initiator returns no key or check value in that case. Missing, short or off-curve inputs are refused with a status and never crash.",
 ["inputs","fault_sequences"],"all single-field alterations of the messages exchanged and of either party's inputs, and all malformed inputs",
 NOH+"a man in the middle is never simulated.",
 ["sm2_std.go","eccset.go"],[("S1/S2 comparison","sm2_std.go sm2_std_ka_initiator_step2, sm2_std_ka_responder_step2"),("on-curve checks","sm2_std.go ka steps")],["KeyAgreement_*"])
prop("A03","Curve25519 key agreement is X25519 and the EC-KCDSA steps obey their equations",
 "For every private key, clamped in place as the scheme defines, the Curve25519 key generation returns the clamped multiple of the base point and, on request, the signing key s with s|P| = G. The agreement function returns exactly the X25519 value of RFC 7748 for every clamped key and every canonical u coordinate, on the curve or on its twist, so that both parties always derive the same secret. The signing step returns v = (x-h)s modulo the group order and reports failure exactly when v is 0; the verification step returns the u coordinate of v|P|+hG whenever that sum is not the identity. Inputs other than the clamped key are left unchanged.",
 ["inputs"],"all private keys, all canonical u coordinates (for the verification step those of prime order), all v below the order, all 32-byte x and h",
 NOH+"the exported functions of the eddsa package are reached only through a few signatures, and the 10-limb field arithmetic errs only for rare values of the limbs.",
 ["eddsa/curve25519_sha256.go"],[("Montgomery ladder and sign of P","eddsa/curve25519_sha256.go core, Keygen, Curve"),("arithmetic modulo the group order","eddsa/curve25519_sha256.go Sign, mulaSmall, mula32, divmod, egcd32"),("differential addition chain","eddsa/curve25519_sha256.go Verify"),("field arithmetic","eddsa/curve25519_sha256.go unpack, pack, mul, sqr, recip, sqrt")],["eddsa.Keygen, eddsa.Curve, eddsa.Sign, eddsa.Verify"])
# ---------------------------------------------------------------- group
prop("G01","Point operations implement the curve group, exceptional cases included",
 "Point addition, point multiplication and scalar*G+point return the group-law result on secp256k1, secp256r1, SM2, Pasta, Ed25519 and (scalar*G+point) BLS12-381 for all valid points and scalars, including doubling, adding opposite points, points with a zero coordinate, and scalars 0, 1, N-1 and N or more. The result is reported as infinity or failure exactly when it is the identity, and points may be passed in every documented encoding.",
 ["inputs"],"all pairs of valid points in every accepted encoding (33/64/65 bytes) and all 32-byte scalars",
 "Test_ed25519_add and TestSecp256k1Curve_ScalarMult print a few results; exceptional cases of the addition formulas are never reached by chance.",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/pasta.go","pasta/crypto.go","eddsa/ed25519.go","bls12_381/bls12-381.go"],
 [("addition formulas and exceptional cases","secp256k1.go addJacobian; sm2_std.go sm2_stdPointAdd; pasta/crypto.go GroupAdd"),("infinity reporting","Add, Mul, MulBaseG_Add")],["Point_add","Point_mul","Point_mulBaseG_add"])
prop("G02","Key derivation commutes with public keys",
 "For every curve with scalar*G+point, deriving a child public key from a parent public key and a tweak gives the public key of the child private key (parent + tweak modulo the published group order), over chains of any length; the published curve order is the order of the base point.",
 ["inputs","histories"],"all parent keys, tweaks and chains of derivations",
 NOH+"hierarchical derivation relies on this identity for every key, not for a sample.",
 ["eccset.go","secp256k1.go","sm2_std.go","pasta/pasta.go","eddsa/ed25519.go","bls12_381/bls12-381.go"],[("scalar*G+point","MulBaseG_Add, ScalarMultBaseAdd, PointMulBaseGAdd"),("published orders","eccset.go GetCurveOrder")],["Point_mulBaseG_add","GetCurveOrder","GenPubkey"])
prop("G03","Point compression is lossless and decompression yields only curve points",
 "For every curve point, compressing (from X||Y or 04||X||Y) and decompressing returns 04||X||Y of the same point, and every decompression that returns a point returns one on the curve with the given x and y parity. An x without a curve point or not below the field prime, a wrong prefix or a wrong length yields no point.",
 ["inputs"],"all points and all 33-byte strings on secp256k1, secp256r1, SM2 and Pasta",
 NOH+"half of all 33-byte strings have no point, and none is tested.",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/crypto.go","pasta/pasta.go"],[("square root and parity selection","*_decompress, pasta Decompress"),("parity byte","PointCompress")],["PointCompress","PointDecompress"])
prop("G04","X25519/Ed25519 key conversion is the birational map, both ways",
 "Converting an Ed25519 public key to X25519 and an X25519 public key to Ed25519 computes the birational map u=(1+y)/(1-y), y=(u-1)/(u+1) for every key where it is defined (not the identity, not u=-1), so the two conversions undo each other up to the sign of x, and converting the Ed25519 key of a scalar gives the X25519 key of the same scalar. Non-reduced X25519 keys and wrong lengths are refused with an error.",
 ["inputs"],"all 32-byte keys, all scalars",
 "Test_conv converts one key and prints it.",
 ["eddsa/convert.go","eccset.go"],[("birational maps","eddsa/convert.go montToEdy, montFromEdy"),("reduction check","eddsa/convert.go feIsReduced")],["CURVE25519_convert_X_to_Ed","CURVE25519_convert_Ed_to_X"])
prop("G05","Curve25519 field, scalar and group primitives are exact",
 "The exported Edwards-curve primitives compute exact results: field operations agree with arithmetic modulo 2^255-19 (with unique reduced encodings), scalar reduction and multiply-add agree with arithmetic modulo the group order, and group operations, encodings and (double) scalar multiplications agree with the twisted Edwards group law. Decoding accepts exactly the encodings of curve points.",
 ["inputs"],"all field elements, 512-bit scalars, points and encodings, including values at the edges of the limb and digit representations",
 NOH+"carry and digit-recoding errors hit only rare operand patterns.",
 ["eddsa/edwards25519/edwards25519.go","eddsa/edwards25519/const.go"],[("limb arithmetic","FeMul, FeSquare, FeToBytes, ScReduce, ScMulAdd"),("recoding and tables","slide, GeScalarMultBase, GeDoubleScalarMultVartime")],["edwards25519 package API"])
# ---------------------------------------------------------------- BLS
prop("B01","BLS signatures are sk*H(m) of the named ciphersuite",
 "For every private key and message, a BLS signature equals the compressed G2 point sk*H(m) where H is the RFC 9380 hash-to-curve (SHA-256, SSWU, random oracle) under the NUL or AUG domain tag, and in the AUG scheme the message is prefixed by the compressed public key. Verification accepts exactly that signature for that key and message, and a signature of one scheme never verifies in the other.",
 ["inputs"],"all private keys and messages of any length, both schemes",
 "Three fixed vectors are tested; exceptional branches of the map, long messages and the accept/reject boundary are not.",
 ["bls12_381/bls12-381.go","bls12_381/g2.go","bls12_381/bls/hash_to_field.go","bls12_381/bls/swu.go","bls12_381/bls/isogeny.go","bls12_381/bls/g2.go","eccset.go"],[("expand_message_xmd, map and isogeny","bls12_381/bls"),("domain tag split","bls12_381/g2.go Hash"),("AUG prefix","eccset.go Signature, Verify")],["Signature","Verify"])
prop("B02","BLS aggregation is the group sum of the signatures",
 "Aggregating any list of valid signatures gives the compressed sum of the points, independent of order and grouping, and aggregating signatures of several keys over one message (basic scheme) verifies under the sum of their public keys. A list that is empty or contains an invalid encoding is refused with no output.",
 ["inputs"],"all lists of signatures (any order, nesting, repetition), and malformed members",
 "TestAggregateSignatures adds one pair in one order.",
 ["bls12_381/bls12-381.go","eccset.go","bls12_381/g2.go"],[("point addition in G2","AggregateSignatures"),("decoding checks","bls12_381/bls/g2.go FromCompressed")],["AggregateSignatures"])
prop("B03","BLS12-381 groups, encodings and pairing obey their laws",
 "In the BLS12-381 library, G1 and G2 operations agree with the group law, encodings round-trip and the library's point types decode exactly the canonical encodings of points in the prime-order subgroup (the raw uncompressed FromBytes form checks the curve equation only), hashing lands in the subgroup, and the pairing is bilinear and non-degenerate. Both arithmetic back ends would be interchangeable: results never depend on the internal representation of a point.",
 ["inputs"],"all points (affine, projective, infinity), scalars of any size, and byte strings offered as encodings",
 "Tests touch these layers through three signatures only.",
 ["bls12_381/bls/g1.go","bls12_381/bls/g2.go","bls12_381/bls/gt.go","bls12_381/bls/pairing.go","bls12_381/bls/fp.go","bls12_381/bls/fp2.go","bls12_381/bls/fp6.go","bls12_381/bls/fp12.go","bls12_381/bls/field_element.go"],[("tower arithmetic and Jacobian formulas","bls12_381/bls"),("subgroup checks in decoding","FromCompressed, FromUncompressed")],["bls package API","bls12_381 suite"])
# ---------------------------------------------------------------- Mina
prop("M01","Mina signatures satisfy the Schnorr equation over Pallas with the Poseidon hash",
 "A Mina signature r||s produced for a private key and message satisfies s*G - e*P = R with x(R)=r, R.y even and e the Poseidon hash of prefix||P||r||suffix under the message's sponge state; verification accepts exactly the signatures satisfying this equation with r and s in canonical range. The JSON message encoding round-trips and messages that are not valid JSON are refused.",
 ["inputs"],"all private keys, messages (prefix/suffix of any length, any sponge state) and signatures, including independently produced ones",
 "TestMina signs and verifies one message with one key.",
 ["pasta/pasta.go","pasta/mina.go","pasta/crypto.go"],[("sign/verify equation","pasta/pasta.go Sign, Verify"),("message hash","pasta/mina.go MessageHash")],["GenPubkey","Signature","Verify"])
prop("M02","Pasta field and curve arithmetic is exact",
 "Every exported Pallas base-field and scalar-field operation (addition, subtraction, multiplication, squaring, negation, inversion, power, square root, comparison, Montgomery and hex conversion) agrees with integer arithmetic modulo the respective prime, and the exported group operations (add, double, negate, scalar multiply, affine/projective conversion, on-curve test, compress/decompress) agree with the group law of y^2=x^3+5 for every representation of the operands.",
 ["inputs"],"all field elements (edges of the modulus and limbs), points in affine and projective form, scalars",
 NOH+"the field code is only reached with the values of two signatures.",
 ["pasta/crypto.go","pasta/pasta_fp.go","pasta/pasta_fq.go","pasta/utils.go","pasta/const.go"],[("Montgomery arithmetic","pasta/pasta_fp.go, pasta/pasta_fq.go"),("Jacobian formulas","pasta/crypto.go")],["pasta package API"])
prop("M03","Poseidon is the specified sponge, however the input is split",
 "The Poseidon digest equals the reference sponge (3-wide, rate 2, S-box x^5, 63 full rounds with the published constants) over the sequence of field elements absorbed, for any initial sponge state and any number of elements including zero, and feeding the elements in several updates gives the same digest as feeding them at once.",
 ["inputs","histories"],"all element sequences, initial states and ways of splitting",
 "TestPoseidon hashes one input.",
 ["pasta/poseidon.go","pasta/poseidon_3w.go"],[("absorb and permute","PoseidonUpdate, PerMutation3W")],["Poseidon3WInit","PoseidonUpdate","PoseidonDigest"])
# ---------------------------------------------------------------- cross-cutting
prop("V01","Keys and points that are not valid group elements are never used",
 "Public keys and points that are off the curve, the identity, outside the prime-order subgroup (BLS), with coordinates not below the field prime, or otherwise undecodable are refused by verification, encryption, key agreement, point operations and aggregation with a non-success result and no output. In particular no signature verifies under such a key. (The identity as a public key is refused for the Weierstrass, Pasta and BLS curves, where RFC 8032 does not say otherwise; membership in the prime-order subgroup is required of BLS points only.)",
 ["inputs"],"all byte strings offered as public keys or points, including off-curve, twist, identity, low-order and non-reduced encodings, for every entry point that takes one",
 NOH+"invalid-curve inputs are never tried.",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","ecdsa.go","pasta/pasta.go","pasta/crypto.go","bls12_381/bls12-381.go","eddsa/ed25519.go","eddsa/x25519.go"],[("on-curve and decoding checks","entry points taking points")],["Verify","Encryption","KeyAgreement_*","Point_add","Point_mul","Point_mulBaseG_add","AggregateSignatures"])
prop("R01","No input crashes the library; failures return a status and no data",
 "For every combination of arguments, including nil, empty, truncated, oversized and random byte strings and unknown type identifiers, every exported function of the package returns normally with a documented status code. Whenever the status is not success (or the result is reported as infinity), no key, signature, plaintext, ciphertext, point or digest is returned.",
 ["inputs"],"all argument values of the owcrypt package's exported functions",
 NOH+"error paths are not exercised; a slice bound, nil dereference or non-terminating loop needs a specific malformed input.",
 ["eccset.go","hashset.go","ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go","bls12_381/bls12-381.go","pasta/pasta.go","eddsa/x25519.go","eddsa/curve25519_sha256.go"],[("length checks and error mapping","eccset.go and callees")],["all exported functions of package owcrypt"])
prop("R02","Calls never modify or retain the caller's buffers",
 "No call writes to any byte slice passed to it, neither to its visible bytes nor to spare capacity behind them, and no returned slice shares memory with an argument, with library state or with another result: later changes to arguments or results affect nothing else.",
 ["inputs","histories"],"all functions and arguments, with arguments sliced out of larger buffers",
 NOH+"aliasing shows only when the caller's slice has spare capacity or is reused afterwards.",
 ["eccset.go","secp256k1.go","eddsa/curve25519_sha256.go","sm2_std.go","pasta/pasta.go","bls12_381/bls12-381.go"],[("append on argument slices","eccset.go Signature, Verify"),("in-place clamping","eddsa/curve25519_sha256.go Keygen")],["all exported functions of package owcrypt"])
prop("R03","Results do not depend on earlier or concurrent calls",
 "Every deterministic operation returns the same result however often it is repeated, whatever other operations ran before it, and when called from several goroutines at once; randomised operations stay correct (their outputs verify, decrypt or agree) under the same conditions. Concurrent calls, the first ones of a process included, share no unsynchronised mutable state, and several of them may read the same argument buffers.",
 ["histories","schedules"],"all sequences of operations and concurrent mixes of them",
 NOH+"shared mutable state (curve constants, tables, temporaries) corrupted by one call is visible only to a later or concurrent one.",
 ["init.go","curve.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/const.go","pasta/poseidon_3w.go","bls12_381/bls/bls12_381.go","eddsa/edwards25519/const.go"],[("package-level curve parameters and tables","initCurves and const tables"),("fresh temporaries per call","all entry points")],["all exported functions of package owcrypt"],
 [("curve parameters","big integers shared by all calls","secp256k1, secp256r1, sm2_std globals")])
prop("R04","The status of a refusal names its cause",
 "Refusals carry the documented status of their cause. A type identifier the operation does not support gives ECC_WRONG_TYPE whatever the other arguments are (key generation, signing, verification, aggregation of a non-empty list, encryption, decryption, key agreement, key recovery). With everything else legal, an illegal private key gives ECC_PRIKEY_ILLEGAL from key generation and signing with the secp256k1, secp256r1, SM2 and 25519 types and from decryption, and an illegal public key gives ECC_PUBKEY_ILLEGAL from encryption; a digest of the wrong length (ECDSA and SM2 signing) and an empty plaintext give MESSAGE_ILLEGAL; and with legal keys a signature that does not verify, an altered or malformed non-empty ciphertext, an invalid recovery or aggregation input, or a failed key-agreement check gives FAILURE.",
 ["inputs"],"all refused calls, by cause of refusal",
 NOH+"callers branch on the status; a status that names another cause (or none) is returned without any visible crash or wrong data, and no test looks at it for any refused call.",
 ["eccset.go","ecdsa.go","profile.go","sm2_std.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519.go","eddsa/curve25519_sha256.go"],[("mapping of internal errors to statuses","GenPubkey, Signature, Encryption, Decryption in eccset.go"),("argument checks","genPublicKey, sign, encrypt, decrypt in ecdsa.go")],["GenPubkey","Signature","Verify","Encryption","Decryption","RecoverPubkey","AggregateSignatures","KeyAgreement_*"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
