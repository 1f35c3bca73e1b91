----------------------------- MODULE EdwardsLaw -----------------------------
(***************************************************************************)
(* The affine addition law of -x^2 + y^2 = 1 + d x^2 y^2 over the field of *)
(* p elements, with the curve as explicit arguments.  This is the          *)
(* *definition* of the group the library works in.                         *)
(***************************************************************************)
EXTENDS BigNat, Integers, Sequences, SequencesExt

LawAdd(p, d, a, b) ==
    LET xy == MulMod(a[1], b[2], p)  yx == MulMod(a[2], b[1], p)
        yy == MulMod(a[2], b[2], p)  xx == MulMod(a[1], b[1], p)
        k  == MulMod(d, MulMod(xx, yy, p), p)
    IN  << MulMod(AddMod(xy, yx, p), InvMod(AddMod(One, k, p), p), p),
           MulMod(AddMod(yy, xx, p), InvMod(SubMod(One, k, p), p), p) >>

(* n times a, by doubling and adding from the top bit *)
LawMulDef(p, d, n, a) ==
    FoldLeft(LAMBDA r, b : LET t == LawAdd(p, d, r, r) IN IF b = 1 THEN LawAdd(p, d, t, a) ELSE t,
             << Zero, One >>, BitsMSB(n))
(*J*) LawMul(p, d, n, a) == LawMulDef(p, d, n, a)
=============================================================================
