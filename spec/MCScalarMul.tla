----------------------------- MODULE MCScalarMul -----------------------------
(***************************************************************************)
(* The two recodings, the tables and the two scalar multiplications of     *)
(* Ref10.tla on the complete toy curve: for every point and every scalar   *)
(* they give the multiple the affine law gives.  The recodings alone are   *)
(* explored for all scalars of RecodeLen bytes.                            *)
(***************************************************************************)
EXTENDS ToyCurve
CONSTANTS MulPoints,    \* "all" or "few"
          RecodeLen
VARIABLES kind, pt, tabs, sa, sb

R2 == INSTANCE Ref10 WITH B <- << Zero, One >>, EncLen <- RecodeLen
Pts == TLCEval(IF MulPoints = "all" THEN Curve
               ELSE Torsion \cup {B, R!PNeg(B)} \cup {R!PAdd(B, t) : t \in Torsion})
Tables == TLCEval([q \in Pts |-> LET e == R!Represent("P3", q) IN << R!SingleTable(e), R!DoubleTable(e) >>])
Multiple(n, q) == R!ScalarMul(FromNat(n), q)

Init == /\ sa \in 0..255 /\ sb = -1
        /\ \/ kind = "recode" /\ pt = R!Ident /\ tabs = <<>>
           \/ kind = "mul" /\ pt \in Pts /\ tabs = Tables[pt]
Next == /\ sb = -1
        /\ \/ kind = "recode" /\ sb' \in 0..(IF RecodeLen = 1 THEN 0 ELSE 255)
           \/ kind = "mul" /\ pt # R!Ident /\ sb' \in (IF MulPoints = "all" THEN 0..127 ELSE {0, 1, 2, 3, 7, 11, 15, 16, 31, 77, 126, 127})
        /\ UNCHANGED << kind, pt, tabs, sa >>

Signed(digits, base) ==     \* value of signed digits, as a TLC integer
    FoldLeft(LAMBDA v, i : v * base + digits[Len(digits) + 1 - i], 0, [i \in 1..Len(digits) |-> i])
Bytes == IF RecodeLen = 1 THEN << sa >> ELSE << sa, sb >>
Num(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] + 256 * s[2]

(* radix 16: digits in -8..7 (the last one up to 8 when the top bit is     *)
(* clear), and they denote the scalar                                      *)
Radix == (kind = "recode" /\ (sb # -1 \/ RecodeLen = 1)) =>
    LET e == R2!Radix16(Bytes) IN
    /\ Len(e) = 2 * RecodeLen
    /\ \A i \in 1..(Len(e) - 1) : e[i] \in -8..7
    /\ Bytes[RecodeLen] < 128 => e[Len(e)] \in 0..8
    /\ Signed(e, 16) = Num(Bytes)
(* sliding window: digits odd or zero, at most 15, never two within five   *)
(* places, and they denote the scalar unless the top bits are all ones     *)
Windows == (kind = "recode" /\ (sb # -1 \/ RecodeLen = 1)) =>
    LET r == R2!Slide(Bytes) IN
    /\ Len(r) = 8 * RecodeLen
    /\ \A i \in 1..Len(r) : r[i] \in -15..15 /\ (r[i] # 0 => r[i] % 2 = 1)
    /\ Bytes[RecodeLen] < 128 => Signed(r, 2) = Num(Bytes)

Represents(e, q) == R!WellFormed(e) /\ R!Affine(e) = q
(* every entry of the tables is the multiple it stands for *)
TableOK == (kind = "mul" /\ sa = 0 /\ sb = -1) =>
    /\ \A j \in 1..8 : Represents(tabs[1][1][j], Multiple(j, pt))
    /\ \A j \in 1..8 : Represents(tabs[2][j], Multiple(2 * j - 1, pt))
    /\ \A d \in -8..8 : Represents(R!SelectAlg(tabs[1], 1, d), IF d < 0 THEN R!PNeg(Multiple(0 - d, pt)) ELSE Multiple(d, pt))
(* scalars below 2^(8 EncLen - 1) *)
Single == (kind = "mul" /\ sb = -1 /\ sa < 128) => Represents(R!ScalarMulAlg(tabs[1], << sa >>), Multiple(sa, pt))
Double == (kind = "mul" /\ sb # -1 /\ sa < 128) =>
    Represents(R!DoubleMulAlg(Tables[B][2], tabs[2], << sa >>, << sb >>), R!PSub(Multiple(sb, B), Multiple(sa, pt)))
=============================================================================
