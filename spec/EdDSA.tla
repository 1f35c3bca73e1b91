-------------------------------- MODULE EdDSA --------------------------------
(***************************************************************************)
(* The signature scheme over a curve instance: key derivation, signing,    *)
(* verification exactly as the library promises it (properties P01-P05),   *)
(* and the Diffie-Hellman step of the cipher.  H2 is the wide hash (2 *    *)
(* EncLen bytes) of a byte string.                                         *)
(***************************************************************************)
EXTENDS Edwards
CONSTANT H2(_)

(* low three bits cleared, top bit cleared, next bit set *)
Clamp(s) == SetBit(ClearBit(ClearBit(ClearBit(ClearBit(s, 0), 1), 2), SignBit), SignBit - 1)

Lo(h) == SubSeq(h, 1, EncLen)
Hi(h) == SubSeq(h, EncLen + 1, 2 * EncLen)

SecretBytes(k) == Clamp(Lo(H2(k)))
SecretScalar(k) == FromBytes(SecretBytes(k))
DerivePublic(k) == Encode(ScalarMul(SecretScalar(k), B))

HashModL(s) == Mod(FromBytes(H2(s)), L)

(* << R, S >> for private key k, stated public key A, message m *)
SignAs(k, A, m) ==
    LET r == HashModL(Hi(H2(k)) \o m)
        R == Encode(ScalarMul(r, B))
        h == HashModL(R \o A \o m)
        S == AddMod(Mul(h, SecretScalar(k)), r, L)
    IN  << R, ToBytes(S, EncLen) >>
Sign(k, m) == SignAs(k, DerivePublic(k), m)

IsCanonicalS(S) == LET n == FromBytes(S) IN n # Zero /\ Lt(n, L)
CanonicalS(S) == ToBytes(Mod(FromBytes(S), L), EncLen)

(* What decoding, S.B and h.A contribute to verification. *)
Verify(A, m, R, S) ==
    /\ Len(R) = EncLen /\ Len(S) = EncLen /\ Len(A) = EncLen
    /\ IsCanonicalS(S)
    /\ A # Zeros(EncLen)
    /\ LET dA == Decode(A) IN
         /\ dA[1]
         /\ LET h == HashModL(R \o A \o m)
            IN  Encode(PAdd(ScalarMul(FromBytes(S), B), ScalarMul(h, PNeg(dA[2])))) = R

(* encode(s.A') for the other party's public key A' ; << FALSE >> if A' is no point *)
SharedPoint(k, A) ==
    LET dA == Decode(A) IN
    IF ~dA[1] THEN << FALSE >> ELSE << TRUE, Encode(ScalarMul(SecretScalar(k), dA[2])) >>
=============================================================================
