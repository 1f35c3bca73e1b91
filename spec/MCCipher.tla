------------------------------ MODULE MCCipher ------------------------------
(***************************************************************************)
(* BlockMode.tla with a toy cipher - blocks of two bytes 0..3 - over every *)
(* message and every ciphertext of up to MaxLen bytes (P10, P11), and the  *)
(* decision table of Decrypt at real size, printed as programs.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxLen, Keys
Byte == 0..3
XorTable == << << 0, 1, 2, 3 >>, << 1, 0, 3, 2 >>, << 2, 3, 0, 1 >>, << 3, 2, 1, 0 >> >>
ToyXor(x, y) == [i \in 1..Len(x) |-> XorTable[x[i] + 1][y[i] + 1]]
Num(b) == 4 * b[1] + b[2]
Blk(n) == << n \div 4, n % 4 >>
ToyEnc(k, b) == Blk((5 * Num(b) + 3 + 2 * k) % 16)
ToyDec(k, b) == Blk((13 * (Num(b) + 32 - 3 - 2 * k)) % 16)
M == INSTANCE BlockMode WITH BlkLen <- 2, BEnc <- ToyEnc, BDec <- ToyDec, BXor <- ToyXor

VARIABLES mode, key, vec, typed
vars == << mode, key, vec, typed >>

(* Decrypt: is everything there, has the input the right form, does the    *)
(* padding decode?                                                         *)
Lengths == {0, 1, 16, 31, 32, 47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 112}
Paddings == {"p1", "p5", "p15", "p16", "zero", "p17", "big", "firstwrong", "middlewrong", "aroundwrong", "any"}
Points == {"good", "mixed", "small", "notpoint", "short", "long", "none"}
Whole(n) == n >= 64 /\ (n - 48) % 16 = 0
Frames == TLCEval({f \in [n : Lengths, rk : BOOLEAN, sA : Points, pad : Paddings] : (f.pad = "any") = ~Whole(f.n)})
Decodes(p) == p \in {"p1", "p5", "p15", "p16", "aroundwrong"}
Succeeds(f) == f.rk /\ f.sA \in {"good", "mixed", "small"} /\ Whole(f.n) /\ Decodes(f.pad)

Init == \/ /\ mode \in {"msg", "cph"} /\ key \in Keys /\ vec \in [1..2 -> Byte] /\ typed = <<>>
        \/ mode = "frame" /\ key = 0 /\ vec = << 0, 0 >> /\ typed \in Frames
Type(b) == mode # "frame" /\ Len(typed) < MaxLen /\ typed' = Append(typed, b) /\ UNCHANGED << mode, key, vec >>
Next == \E b \in Byte : Type(b)
Spec == Init /\ [][Next]_vars

Enc(m) == M!CBCEnc(key, vec, M!Pad(m))
Dec(c) == IF c = <<>> \/ Len(c) % 2 # 0 THEN << FALSE >> ELSE M!Unpad(M!CBCDec(key, vec, c))
Permutation == \A n \in 0..15 : ToyDec(key, ToyEnc(key, Blk(n))) = Blk(n)
RoundTrip == mode = "msg" => /\ Dec(Enc(typed)) = << TRUE, typed >>
                             /\ Len(Enc(typed)) = 2 * (Len(typed) \div 2 + 1)
(* exactly what Encrypt makes is accepted *)
OnlyImages == mode = "cph" => LET d == Dec(typed) IN
    /\ d[1] => Enc(d[2]) = typed
    /\ d[1] = (\E m \in {SubSeq(M!CBCDec(key, vec, typed), 1, n) : n \in 0..(Len(typed) - 1)} :
                 Len(typed) % 2 = 0 /\ M!Pad(m) = M!CBCDec(key, vec, typed))
Emit == mode = "frame" => PrintT("PROG " \o ToJson([n |-> typed.n, rk |-> typed.rk, sA |-> typed.sA, pad |-> typed.pad,
                                                    ok |-> Succeeds(typed)]))
=============================================================================
