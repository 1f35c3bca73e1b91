#!/usr/bin/env python3
# Source of properties.jsonl (run by hand after editing; output is committed).
import json
P=[]
import re,os
def where(name,files):
    n=name.split('.')[-1]
    for f in files+sorted(x for x in os.listdir('/repo') if x.endswith('.go') and not x.endswith('_test.go')):
        for i,l in enumerate(open('/repo/'+f),1):
            if re.search(r'func (\([^)]*\) )?'+re.escape(n)+r'\(',l): return f'{f}:{i}'
    return files[0]
def p(id,title,statement,over,qtext,why,files,state,mechanism,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,where=files[0]) for x in state],mechanism=[dict(name=x,where=where(x,files)) for x in mechanism],observe_at=observe,hook_needed=hook)))
p("P01","Every signature made with a key verifies under that key",
 "For every private key and every message (empty, short or long), Sign succeeds, and Verify of that message and signature under the matching public key returns true. This holds for Ed25519DsaSigner and for Signer, for keys built from bytes, hex or big.Int or freshly generated, for a verifier holding only the public key, and after the signature has been through Bytes/NewSignatureFromBytes.",
 ["inputs","histories"],"all private keys x all messages x all ways to build the signer and the verifier","An arithmetic carry, table entry or recoding error can affect one key or message in millions; the tests sign a handful of fixed vectors and random messages.",
 ["ed25519_model.go","signer.go","ed25519_encode.go"],["KeyPair","Signature{R,S}"],["Ed25519DsaSigner.Sign","Ed25519DsaSigner.Verify","Signer.Sign","Signer.Verify"],["return values of Sign and Verify"])
p("P02","Signing is the deterministic EdDSA function over SHA3-512",
 "Sign(M) with private key k and public key A returns exactly R = encode(rB), S = (r + hs) mod L, where H = SHA3-512(k), s = clamp(H[0..31]), r = SHA3-512(H[32..63] || M) mod L and h = SHA3-512(R || A || M) mod L, with R and S 32 bytes each. It uses no randomness and no state: the same key and message give the same signature at every call.",
 ["inputs","histories"],"all private keys, public keys paired with them and messages","Fixed vectors cover a few keys; a nonce bug, a hash-input bug or a reduction bug can depend on the message length or on rare scalar values.",
 ["ed25519_model.go","ed25519_encode.go","crypto.go"],["PrivateKey.Raw","PublicKey.Raw"],["Ed25519DsaSigner.Sign","PrepareForScalarMultiply","modQ","multiplyAndAddModQ"],["bytes of the returned Signature"])
p("P03","Verify accepts exactly the valid signatures and never panics",
 "Verify(M, (R,S)) under public key A returns true if and only if R, S and A are 32 bytes each, 0 < S < L, A is not all zero and decodes to a curve point, and the canonical encoding of SB - SHA3-512(R || A || M)A equals R byte for byte. For every other message, signature or key - altered in any bit, truncated, extended, swapped, of small or mixed order, or not on the curve - it returns false, and it never panics.",
 ["inputs"],"all (message, R, S, public key) byte strings","Rejection must hold for all forgeries, including crafted small-order and boundary encodings that random tampering never reaches.",
 ["ed25519_model.go","ed25519_encode.go"],["Signature.R/S","PublicKey.Raw"],["Ed25519DsaSigner.Verify","Ed25519EncodedGroupElement.Decode","doubleScalarMultiplyVariableTime"],["return value of Verify"])
p("P04","Only canonical S is accepted; canonicalisation reduces S mod L",
 "IsCanonicalSignature is true exactly when 0 < S < L, S being the whole little-endian integer, and every signature returned by Sign is canonical. MakeSignatureCanonical returns the same R with S mod L as 32 bytes for every S of up to 64 bytes, and is idempotent. So for a given message, key and R no second S is ever accepted: S + kL is rejected, and its canonical form is the original signature.",
 ["inputs"],"all values of S, in particular S = 0, L-1, L, L+1, S+kL and values that share low words with L","The bad values are a vanishing fraction of the 2^256 space and lie at boundaries.",
 ["ed25519_model.go","signature.go"],["Signature.S","GROUP_ORDER"],["IsCanonicalSignature","MakeSignatureCanonical","modQ"],["return values"])
p("P05","Public keys are derived as encode(clamp(SHA3-512(k))*B)",
 "For every private key k, DerivePublicKey(k), NewKeyPair(k, nil) with any engine, and GenerateKeyPair produce the 32-byte public key encode(sB) with s = SHA3-512(k)[0..31], low three bits cleared, bit 255 cleared and bit 254 set. A generated pair holds the 32 bytes drawn as its private key; equal private keys give equal public keys at every call.",
 ["inputs","histories"],"all private keys (any length the constructors accept)","Base-point tables hold 256 entries and the recoding has 64 digits; a wrong entry or carry shows only for particular keys.",
 ["ed25519_model.go","key_pair.go","ed25519_encode.go","ed25519_const.go"],["basePrecSingle table","PrivateKey.Raw"],["DerivePublicKey","GenerateKeyPair","NewKeyPair","scalarMultiply"],["PublicKey.Raw"])
p("P06","Point encoding and decoding are exact inverses on curve points",
 "Encode of a P2, P3 or P1xP1 element gives the 32-byte little-endian affine y < p with the parity of the affine x in the top bit, whatever representative (Z) is used, and Decode of it gives back the same point. Decode of a 32-byte string succeeds exactly when its low 255 bits, taken mod p, are the y of a curve point, and returns the x whose parity is the top bit (x = 0 stays 0); otherwise it returns an error.",
 ["inputs"],"all curve points, all representatives, all 32-byte strings","Square-root branches, y = 0, +-1, values in [p, 2^255), and both signs are edge cases hit with negligible probability by random points.",
 ["ed25519_encode.go"],["Ed25519GroupElement X,Y,Z,T"],["Encode","Decode","GetAffineX","GetAffineY","Ed25519FieldElementSqrt"],["encoded bytes, decoded coordinates, errors"])
p("P07","Field arithmetic is exact modulo p = 2^255-19",
 "For every pair of field elements - any limbs in the documented bounds, not only reduced ones - addition, subtraction, negation, multiplication, squaring, doubled squaring, inversion and square root of a fraction give the exact result modulo p, and they compose: results may be fed to further operations as the group formulas do. Encode gives the unique 32-byte representative in [0, p), Decode reads any 32 bytes with bit 255 ignored, and Equals, IsNonZero and IsNegative depend only on the value mod p.",
 ["inputs"],"all limb vectors within the documented bounds; all 32-byte encodings","The existing field tests all run on one constant element; carries at limb boundaries and the final reduction near p are reached only by directed inputs.",
 ["ed25519_encode.go"],["FieldElements [10]int64 limbs"],["add","subtract","negate","multiply","square","squareAndDouble","invert","modP","Encode","Decode"],["encoded result of each operation"])
p("P08","Group operations and scalar multiplications follow the Edwards law",
 "Doubling, addition, subtraction, negation, coordinate conversions, precomputed tables, table selection (b*256^pos times the point, for every pos in 0..31 and b in -8..8), scalar multiplication and double scalar multiplication (bB - aA) agree with the affine twisted Edwards law for all curve points, including the neutral element, small-order points, equal and opposite operands. Every result satisfies the curve equation, SatisfiesCurveEquation is true exactly for curve points, and Equals between P2, P3 and P1xP1 elements is true exactly for equal points.",
 ["inputs"],"all points of the curve and all 253-bit (first operand: 256-bit digits within recoding range) scalars","Completeness of the law at exceptional points and correctness of 264 table entries and of recoding carries need directed or exhaustive inputs.",
 ["ed25519_encode.go","ed25519_const.go"],["Ed25519GroupElement","precomputed tables"],["dbl","add","subtract","precomputedAdd","precomputedSubtract","toCoordinateSystem","toRadix16","slide","Select","scalarMultiply","doubleScalarMultiplyVariableTime","Equals","SatisfiesCurveEquation"],["encoded points"])
p("P09","Scalar arithmetic is exact modulo the group order L",
 "For every 64-byte little-endian integer the scalar reduction returns its 32-byte residue modulo L in [0, L), and for all 32-byte integers a, b, c the scalar multiply-add returns (a*b + c) mod L in the same form; signing, verification and canonicalisation use these results. This includes 0, multiples of L, values next to multiples of L, and all-ones limbs.",
 ["inputs"],"all 512-bit inputs; all triples of 256-bit inputs","A dropped carry in the 21-bit limb reduction shows with probability around 2^-20 or less on random inputs.",
 ["ed25519_encode.go"],["21-bit limbs s0..s23"],["modQ","multiplyAndAddModQ"],["result bytes; MakeSignatureCanonical; S of signatures"])
p("P10","Encryption round-trips and has the exact documented wire format",
 "For every sender and recipient key pair and every plaintext of any length, Encrypt returns salt(32) || iv(16) || AES-256-CBC(PKCS#7-padded plaintext) under key SHA3-256(encode(aB) xor salt), of length 48 + 16(n/16 + 1), and Decrypt by the recipient (who needs only the sender's public key) returns exactly the plaintext. GetSharedKey is symmetric: the sender's private with the recipient's public key and the recipient's private with the sender's public key give the same 32 bytes for the same salt.",
 ["inputs"],"all key pairs, plaintexts and entropy bytes","Padding boundaries, rare shared points and format drift that stays self-consistent (encrypt and decrypt changed together) pass round-trip tests.",
 ["ed25519_model.go","cipher_model.go"],["salt, iv, shared key"],["Encrypt","Decrypt","GetSharedKey"],["ciphertext and plaintext bytes"])
p("P11","Decrypt of any input returns the defined plaintext or an error",
 "For every byte string, Decrypt never panics and either returns exactly the plaintext the wire format defines or a non-nil error with no data. It is an error when the input is shorter than 64 bytes, when the part after the first 48 bytes is not a whole number of 16-byte blocks, when the decrypted padding is not 1..16 equal bytes of that value, or when the recipient's private key or a decodable sender public key is missing.",
 ["inputs","fault_sequences"],"all input byte strings, including truncated, extended and bit-flipped ciphertexts","Attacker-controlled input: the failing lengths and padding values must all be covered.",
 ["ed25519_model.go"],["ciphertext, padding"],["Decrypt","decode"],["return values"])
p("P12","Entropy is consumed exactly, in order, never reused, failures surface",
 "Generating a key pair reads exactly 32 bytes from the generator's reader and uses them as the private key; each Encrypt reads exactly 48 bytes from the cipher's reader: the 32-byte salt, then the 16-byte IV, which are the first 48 bytes of its output. This holds however the reader splits its data, no byte is used by two calls, and if the reader ends or fails before the bytes are complete the call returns an error and no key or ciphertext. With no reader configured, crypto/rand.Reader is used, so repeated calls give fresh values.",
 ["inputs","fault_sequences","histories"],"all reader behaviours (short reads, data with error, EOF, failures) and all sequences of calls sharing a reader","Needs adversarial reader schedules and multi-call histories.",
 ["ed25519_model.go","key_pair.go"],["position in the entropy stream"],["GenerateKeyPair","Encrypt","NewRandomKeyPair","NewKeyPairByEngine"],["reads seen by an injected io.Reader; produced key, salt, iv"])
p("P13","Private and public keys convert losslessly between bytes, hex and ints",
 "NewPrivateKey, NewPrivateKeyfromHexString and NewPrivateKeyFromBigInt give the same 32-byte big-endian Raw for the same key value (leading zero bytes included), and a private or public key parsed from its own String is that key; String is lower-case hex for private and upper-case hex for public keys. Hex parsing accepts upper, lower and mixed case and returns an error for non-hex digits and for every text that does not stand for 32 bytes (64 digits, or 63 with an implied leading zero).",
 ["inputs"],"all 32-byte keys and all strings","Leading zeros, odd lengths and case mixing are rare in sampled tests.",
 ["key_model.go"],["PrivateKey.Raw","PublicKey.Raw"],["NewPrivateKey","NewPrivateKeyFromBigInt","NewPrivateKeyfromHexString","NewPublicKeyfromHex","String"],["Raw, String, errors"])
p("P14","Signatures convert losslessly between parts, bytes, ints and text",
 "NewSignature accepts exactly 32-byte R and S and NewSignatureFromBytes exactly 64 bytes, splitting them R || S; Bytes is R || S, String its lower-case hex, GetR and GetS the little-endian integers. NewSignatureFromBigInt accepts exactly integers in [0, 2^256) and is the inverse of GetR/GetS. All other arguments give an error and no signature.",
 ["inputs"],"all byte strings and integers","Range boundaries (2^31, 2^63, 2^64, 2^256, negative) and lengths around 32/64.",
 ["signature.go"],["Signature.R","Signature.S"],["NewSignature","NewSignatureFromBytes","NewSignatureFromBigInt","Bytes","String","GetR","GetS"],["fields, bytes, errors"])
p("P15","Operations leave inputs, shared constants and old results untouched",
 "No signing, verifying, deriving, encrypting, decrypting, hashing, encoding or converting call changes the bytes it was given (messages, keys, signatures, ciphertexts, salts), memory beyond the length of those slices, the exported constants, or any result returned earlier. Its result depends only on its arguments and entropy: repeating a call at any point of any history gives the same result, also after the caller has overwritten messages, ciphertexts, plaintexts, hashes or signatures that earlier calls received or returned.",
 ["histories","inputs"],"all sequences of public calls over shared buffers","Aliasing and hidden caches show only in multi-call histories with buffers that have spare capacity or are overwritten between calls.",
 ["ed25519_model.go","signature.go","ed25519_encode.go","crypto.go","math.go"],["caller buffers, package variables"],["all public operations"],["buffer contents before and after each call; repeated results"])
p("P16","Concurrent use of shared keys, signers and ciphers is safe",
 "Any number of goroutines may sign, verify, derive, encrypt, decrypt, hash, encode, decode and convert at the same time through shared KeyPair, Signer, BlockCipher, engine, signature and message values: every call returns the result it returns when run alone. No two of these calls make unsynchronised conflicting accesses to memory (no data race).",
 ["schedules"],"all interleavings of public calls on shared objects","Tests are single-threaded; scratch buffers or lazily filled caches break only under overlap.",
 ["ed25519_model.go","ed25519_encode.go","crypto.go","crypto_engine.go"],["package variables, tables, shared objects"],["all public operations"],["results of concurrent calls; race detector reports"])
p("P17","Hash functions equal their standards for every input length",
 "HashesSha_256, HashesSha3_256, HashesSha3_512, HashesKeccak_256 (original Keccak padding) and HashesRipemd160 return, with no error, the standard digest of 32, 32, 64, 32 and 20 bytes for every input of every length. HashesSha3_512 of several parts equals the digest of their concatenation, wherever the message is split, empty parts and no parts included.",
 ["inputs"],"all byte strings and all ways to split them","Block-boundary lengths and part boundaries; tests check a few strings.",
 ["crypto.go"],["hash state"],["HashesSha_256","HashesKeccak_256","HashesSha3_256","HashesSha3_512","HashesRipemd160"],["digests"])
p("P18","Engines, wrappers and key pairs dispatch and guard as documented",
 "Signer, NewSignerFromKeyPair, NewBlockCipher, NewKeyPair and NewKeyPairByEngine behave exactly as the engine's own signer, cipher and generator for the same keys, a nil engine meaning the default engine and a custom engine being the one used. A key pair without private key can verify, and can decrypt or encrypt nothing that needs the missing key: Sign, and Encrypt or Decrypt that need it, return an error. NewKeyPair keeps the keys given, rejects a public key that is not 32 bytes and a missing pair of keys with an error, and HasPrivateKey is true exactly when a private key is present.",
 ["inputs","histories","configurations"],"all combinations of present/missing keys, engines and operations","The combination space is not covered by tests, which use the happy path.",
 ["signer.go","cipher_model.go","key_pair.go","crypto_engine.go","ed25519_model.go"],["KeyPair capabilities"],["NewKeyPair","NewSignerFromKeyPair","NewBlockCipher","HasPrivateKey","IsKeyCompressed"],["which engine is called, results, errors"])
p("P19","The exported big-integer helpers agree with the optimised arithmetic",
 "The MathUtils helpers compute what they name, exactly, for all curve points and field or scalar values: integer/byte conversions, ToFieldElement, ToGroupElement and GetAffineXFromAffineY (same point as Decode, an error for no point), ToRepresentation between all coordinate systems, AddGroupElements, DoubleGroupElement, NegateGroupElement, ScalarMultiplyGroupElement and ReduceModGroupOrder. None of them changes its arguments, and the random helpers return fresh valid values.",
 ["inputs"],"all curve points, representatives, integers below 2^256","They are the reference the tests compare against, so no test checks them independently.",
 ["math.go"],["big.Int values"],["MathUtils.*"],["returned elements, integers, errors"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
