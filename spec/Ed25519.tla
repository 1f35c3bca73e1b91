------------------------------ MODULE Ed25519 -------------------------------
(***************************************************************************)
(* The library's parameters: Ed25519 with SHA3-512 (NEM / Catapult).       *)
(* P = 2^255 - 19, D = -121665/121666, L = 2^252 + 2774...8493,            *)
(* B = (x, 4/5) with x even.                                               *)
(***************************************************************************)
EXTENDS BigNat, Integers, Sequences, SequencesExt
LOCAL INSTANCE Keccak

P == <<237,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127>>
D == <<163,120,89,19,202,77,235,117,171,216,65,65,77,10,112,0,152,232,121,119,121,64,199,140,115,254,111,43,238,108,3,82>>
SqrtM1 == <<176,160,14,74,39,27,238,196,120,228,47,173,6,24,67,47,167,215,251,61,153,0,77,43,11,223,193,79,128,36,131,43>>
L == <<237,211,245,92,26,99,18,88,214,156,247,162,222,249,222,20,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16>>
By == MulMod(<<4>>, InvMod(<<5>>, P), P)
B == << <<26,213,37,143,96,45,86,201,178,167,37,149,96,199,44,105,92,220,214,253,49,226,164,192,254,83,110,205,211,54,105,33>>, <<88,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102>> >>
E == INSTANCE EdDSA WITH EncLen <- 32, H2 <- SHA3_512

\* checked once per run of a trace specification
ParametersOK ==
    /\ P = Sub(Pow2(255), <<19>>)
    /\ D = MulMod(Sub(P, FromNat(121665)), InvMod(FromNat(121666), P), P)
    /\ SqrtM1 = PowMod(Two, Div(Sub(P, One), <<4>>), P)
    /\ L = Add(Pow2(252), FromBytesBE(<<20,222,249,222,162,247,156,214,88,18,99,26,92,245,211,237>>))
    /\ B[2] = By /\ E!OnCurve(B) /\ Bit(B[1], 0) = 0
    /\ E!ScalarMul(L, B) = E!Ident
    /\ \A n \in {Zero, One, <<2>>, <<8>>, <<255, 1>>, Sub(L, One), Sub(Pow2(255), One), ToBytes(By, 31)} :   \* the Java override
         \A q \in {B, E!Ident, << Zero, Sub(P, One) >>, E!PNeg(E!LawMulDef(P, D, <<77>>, B))} :
           E!LawMul(P, D, n, q) = E!LawMulDef(P, D, n, q)
    /\ MulMod(SqrtM1, SqrtM1, P) = Sub(P, One)
    /\ PowMod(D, Div(Sub(P, One), Two), P) = Sub(P, One)
=============================================================================
