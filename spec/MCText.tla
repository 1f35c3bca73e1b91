------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Text.tla with keys of one byte, over every text of up to MaxLen         *)
(* characters of an alphabet with the neighbours of all digit ranges       *)
(* (P13), and every pair of small integers as a signature (P14).           *)
(*                                                                         *)
(* A text is typed character by character.  The texts also stand for texts *)
(* for keys of 32 bytes - one short, one more, with one wrong character -  *)
(* which are printed as programs.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxLen, Alphabet, Ints
T == INSTANCE Text WITH KeyBytes <- 1
N == INSTANCE BigNat
SomeInts == {-257, -256, -255, -2, -1, 0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536}
(* the shapes of texts for keys of 32 bytes; see below *)
Styles == {"lower", "upper", "mixed", "zeros"}
Lengths == {0, 1, 2, 31, 32, 33, 61, 62, 63, 64, 65, 66, 127, 128}
Places == {"none", "first", "second", "middle", "last"}
Shapes == TLCEval({x \in {<< n, s, p, c >> : n \in Lengths, s \in Styles, p \in Places, c \in Alphabet} :
                     /\ x[3] = "none" => x[4] = 48
                     /\ x[1] = 1 => x[3] \in {"none", "first"}
                     /\ x[1] = 0 => x[3] = "none"})
VARIABLES text, mode, ints

vars == << text, mode, ints >>
Init == \/ mode = "text" /\ text = <<>> /\ ints = << 0, 0 >>
        \/ mode = "shape" /\ ints = << 0, 0 >> /\ text \in Shapes
        \/ mode = "ints" /\ text = <<>> /\ ints \in Ints \X Ints
Type(c) == mode = "text" /\ Len(text) < MaxLen /\ text' = Append(text, c) /\ UNCHANGED << mode, ints >>
Next == \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Is == mode = "text"
Key == T!ParseKey(text)
Lower(c) == IF c \in 65..70 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..102 THEN c - 32 ELSE c
Map(f(_), t) == [i \in 1..Len(t) |-> f(t[i])]
(* accepted: hexadecimal digits only, two of them or one *)
Accepts == Is => (Key[1] = (T!IsHex(text) /\ Len(text) \in {1, 2}))
(* a text and what the key prints mean the same key *)
Printed == (Is /\ Key[1]) =>
             /\ T!ParseKey(T!PrivateText(Key[2])) = Key /\ T!ParseKey(T!PublicText(Key[2])) = Key
             /\ T!PrivateText(Key[2]) = Map(Lower, IF Len(text) = 1 THEN << 48 >> \o text ELSE text)
             /\ T!PublicText(Key[2]) = Map(Upper, IF Len(text) = 1 THEN << 48 >> \o text ELSE text)
CaseBlind == Is => T!ParseKey(Map(Lower, text)) = Key /\ T!ParseKey(Map(Upper, text)) = Key
BigEndian == (Is /\ Key[1]) => Key[2] = T!PrivateFromNat(N!FromBytes(Key[2]))

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sig == T!SigFromInts(ints[1] < 0, N!FromNat(Abs(ints[1])), ints[2] < 0, N!FromNat(Abs(ints[2])))
Integers == mode = "ints" =>
    /\ Sig[1] = (\A i \in 1..2 : ints[i] \in 0..255)
    /\ Sig[1] => /\ << N!ToNat(N!FromBytes(Sig[2])), N!ToNat(N!FromBytes(Sig[3])) >> = ints
                 /\ T!SigFromBytes(T!SigBytes(Sig[2], Sig[3])) = Sig
                 /\ T!SigFromParts(Sig[2], Sig[3]) = Sig

-----------------------------------------------------------------------------
(* texts for 32 bytes: n digits in some style, the digit at a position     *)
(* replaced                                                                *)
Means == text[1] \in {63, 64} /\ (text[3] = "none" \/ T!DigitVal(text[4]) # -1)
Emit == mode = "shape" =>
    PrintT("PROG " \o ToJson([n |-> text[1], style |-> text[2], place |-> text[3], char |-> text[4], ok |-> Means]))
=============================================================================
