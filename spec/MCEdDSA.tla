------------------------------- MODULE MCEdDSA -------------------------------
(***************************************************************************)
(* The signature scheme of EdDSA.tla on the toy curve: a signer with any   *)
(* key signs any message; an adversary submits any (A, m, R, S).  The      *)
(* invariants are the promises P01, P03, P04, P05 and the symmetry of P10. *)
(***************************************************************************)
EXTENDS ToyCurve
CONSTANTS Keys,        \* private keys explored (bytes)
          Publics,     \* adversary's public keys (bytes)
          Halves       \* adversary's S
VARIABLES stage, key, msg, att

(* any hash will do *)
ToyHash(s) == LET v == FoldLeft(LAMBDA x, b : (x * 37 + b * 101 + 12345) % 65521, 7 * Len(s), s)
              IN  << v % 256, (v \div 256) % 256 >>
S == INSTANCE EdDSA WITH H2 <- ToyHash
Msgs == {<<>>, <<0>>, <<7, 7>>}

Init == stage = "key" /\ key \in Keys /\ msg = <<>> /\ att = <<>>
Next == \/ /\ stage = "key"
           /\ msg' \in Msgs
           /\ \/ stage' = "signed" /\ att' = S!Sign(<< key >>, msg') /\ UNCHANGED key
              \/ /\ key = CHOOSE k \in Keys : TRUE        \* the adversary does not need the key
                 /\ \E A \in Publics, r \in 0..255 : stage' = "attack" /\ att' = << << A >>, << r >> >> /\ UNCHANGED key
        \/ /\ stage = "signed"
           /\ \E k2 \in Keys : stage' = "shared" /\ att' = << << k2 >> >> /\ UNCHANGED << key, msg >>

Pub(k) == S!DerivePublic(<< k >>)
KeyOK == stage = "key" =>
    LET a == S!SecretScalar(<< key >>)  A == Pub(key)  d == S!Decode(A) IN
    /\ a[1] \in 64..127 /\ a[1] % 8 = 0
    /\ d[1] /\ d[2] \in Prime /\ S!Encode(d[2]) = A
    /\ A # << 0 >>
Complete == stage = "signed" =>
    /\ S!IsCanonicalS(att[2]) \/ att[2] = << 0 >>      \* S = 0 has probability 1/L
    /\ S!CanonicalS(att[2]) = att[2]
    /\ S!IsCanonicalS(att[2]) => S!Verify(Pub(key), msg, att[1], att[2])
    /\ att = S!SignAs(<< key >>, Pub(key), msg)
Accepted(A, r) == {s \in Halves : S!Verify(A, msg, r, << s >>)}
(* at most one S for (A, m, R), it is below L, R is the encoding of a       *)
(* point, and the all-zero key is refused                                   *)
Strict == stage = "attack" =>
    LET A == att[1]  r == att[2]  ok == Accepted(A, r) IN
    /\ Cardinality(ok) <= 1
    /\ ok # {} => /\ \A s \in ok : s > 0 /\ s < 11
                  /\ S!Decode(r)[1] /\ S!Encode(S!Decode(r)[2]) = r
                  /\ A # << 0 >> /\ S!Decode(A)[1]
    /\ \A s \in ok : \A k \in 1..22 : s + 11 * k \in Halves =>
         /\ ~S!Verify(A, msg, r, << s + 11 * k >>) /\ S!CanonicalS(<< s + 11 * k >>) = << s >>
(* the verification equation holds without the cofactor: adding a small-    *)
(* order point to R or A makes a different signature                        *)
Cofactorless == stage = "signed" /\ S!IsCanonicalS(att[2]) =>
    \A t \in Torsion \ {R!Ident} :
        ~S!Verify(Pub(key), msg, S!Encode(S!PAdd(S!Decode(att[1])[2], t)), att[2])
          \/ S!HashModL(S!Encode(S!PAdd(S!Decode(att[1])[2], t)) \o Pub(key) \o msg) # S!HashModL(att[1] \o Pub(key) \o msg)
Symmetric == stage = "shared" =>
    LET k2 == att[1] IN S!SharedPoint(<< key >>, S!DerivePublic(k2)) = S!SharedPoint(k2, Pub(key))
(* the order of a small-order key is ignored by the scalar multiplication   *)
SmallKey == stage = "key" => \A t \in Torsion : S!SharedPoint(<< key >>, S!Encode(t)) = << TRUE, S!Encode(R!Ident) >>
=============================================================================
