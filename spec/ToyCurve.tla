------------------------------ MODULE ToyCurve ------------------------------
(***************************************************************************)
(* A small instance with the structure of Ed25519: p = 101 = 5 mod 8, d a  *)
(* non-square, a group of order 88 = 8 * 11, a base point of prime order,  *)
(* cofactor 8 with the same torsion group, and encodings of one byte (7    *)
(* bits of y, so that some encodings are not reduced, and a sign).         *)
(***************************************************************************)
EXTENDS BigNat, Integers, Sequences, SequencesExt, FiniteSets, TLC

P == <<101>>
D == <<12>>
SqrtM1 == <<10>>
L == <<11>>
EncLen == 1
R == INSTANCE Ref10 WITH B <- << Zero, One >>
Field == TLCEval({FromNat(n) : n \in 0..100})
Curve == TLCEval({pt \in Field \X Field : R!OnCurve(pt)})
Torsion == TLCEval({pt \in Curve : R!ScalarMul(<<8>>, pt) = R!Ident})
Prime == TLCEval({pt \in Curve : R!ScalarMul(L, pt) = R!Ident})
B == CHOOSE pt \in Prime : pt # R!Ident /\ ~R!FIsNeg(pt[1])
=============================================================================
