-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text and integer forms of keys and signatures (P13, P14).  Texts are    *)
(* sequences of character codes.  KeyBytes is the size of a key (32 in the *)
(* library, small in MCText).                                              *)
(***************************************************************************)
EXTENDS BigNat, Integers, Sequences, SequencesExt
CONSTANT KeyBytes

LowerDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UpperDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexWith(dig(_), s) ==
    [j \in 1..2*Len(s) |-> IF j % 2 = 1 THEN dig(s[(j+1) \div 2] \div 16) ELSE dig(s[j \div 2] % 16)]
HexLower(s) == HexWith(LowerDigit, s)
HexUpper(s) == HexWith(UpperDigit, s)

DigitVal(c) == IF c \in 48..57 THEN c - 48
               ELSE IF c \in 97..102 THEN c - 87
               ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsHex(t) == \A i \in 1..Len(t) : DigitVal(t[i]) # -1
(* << TRUE, bytes >> or << FALSE >>; a leading zero is implied for odd lengths *)
ParseHex(t) ==
    LET u == IF Len(t) % 2 = 1 THEN <<48>> \o t ELSE t IN
    IF ~IsHex(u) THEN << FALSE >>
    ELSE << TRUE, [i \in 1..(Len(u) \div 2) |-> 16 * DigitVal(u[2*i-1]) + DigitVal(u[2*i])] >>

(* key texts: private keys print in lower case, public keys in upper case *)
ParseKey(t) == LET r == ParseHex(t) IN IF r[1] /\ Len(r[2]) = KeyBytes THEN r ELSE << FALSE >>
PrivateText(raw) == HexLower(raw)
PublicText(raw) == HexUpper(raw)

(* private key from a natural number below 256^KeyBytes: big-endian *)
PrivateFromNat(n) == ToBytesBE(n, KeyBytes)

(* signatures: two halves of KeyBytes each *)
SigFromParts(r, s) == IF Len(r) = KeyBytes /\ Len(s) = KeyBytes THEN << TRUE, r, s >> ELSE << FALSE >>
SigFromBytes(b) == IF Len(b) # 2 * KeyBytes THEN << FALSE >>
                   ELSE << TRUE, SubSeq(b, 1, KeyBytes), SubSeq(b, KeyBytes + 1, 2 * KeyBytes) >>
(* integers: neg tells a negative one *)
SigFromInts(rneg, r, sneg, s) ==
    IF rneg \/ sneg \/ ~Fits(r, KeyBytes) \/ ~Fits(s, KeyBytes) THEN << FALSE >>
    ELSE << TRUE, ToBytes(r, KeyBytes), ToBytes(s, KeyBytes) >>
SigBytes(r, s) == r \o s
SigText(r, s) == HexLower(r \o s)
=============================================================================
