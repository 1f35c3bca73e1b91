------------------------------- MODULE MCGroup -------------------------------
(***************************************************************************)
(* A register holding a P3 element of the complete toy curve, in any       *)
(* projective representation, and any sequence of operations on it.  pnt is *)
(* the point the affine law says the register stands for.  TLC explores    *)
(* every point in every representation.                                    *)
(***************************************************************************)
EXTENDS ToyCurve
CONSTANT Operands,   \* "all" or "few"
         Scales      \* Z values of the operands
VARIABLES reg, pnt

Scaled(cs, pt, z) ==
    LET e == R!Represent(cs, pt)  m(v) == R!FMul(v, z) IN
    IF cs = "PRECOMPUTED" THEN e ELSE R!El(cs, m(e.X), m(e.Y), m(e.Z), m(e.T))
Zs == TLCEval({FromNat(n) : n \in Scales})
Qs == TLCEval(IF Operands = "all" THEN Curve ELSE Torsion \cup {B, R!PNeg(B), R!PAdd(B, CHOOSE t \in Torsion : t # R!Ident)})

Init == \E pt \in Curve : pnt = pt /\ reg = R!Represent("P3", pt)
Scale(z) == reg' = R!El("P3", R!FMul(reg.X, z), R!FMul(reg.Y, z), R!FMul(reg.Z, z), R!FMul(reg.T, z)) /\ pnt' = pnt
Op(result, point) == reg' = R!ToP3(result) /\ pnt' = point
Next ==
    \/ Scale(<<2>>)          \* 2 generates the multiplicative group mod 101
    \/ Op(R!Dbl(reg), R!PDbl(pnt))
    \/ reg' = R!Neg(reg) /\ pnt' = R!PNeg(pnt)
    \/ \E q \in Qs :
         \/ \E z \in Zs : \/ Op(R!AddC(reg, Scaled("CACHED", q, z)), R!PAdd(pnt, q))
                          \/ Op(R!SubC(reg, Scaled("CACHED", q, z)), R!PSub(pnt, q))
         \/ Op(R!AddP(reg, R!Represent("PRECOMPUTED", q)), R!PAdd(pnt, q))
         \/ Op(R!SubP(reg, R!Represent("PRECOMPUTED", q)), R!PSub(pnt, q))

Represents(e, pt) == R!WellFormed(e) /\ R!Affine(e) = pt
(* the register always represents the point of the law *)
Sound == Represents(reg, pnt) /\ R!OnCurve(pnt)
(* so do the other coordinate systems of it *)
Converted ==
    /\ Represents(R!ToP2(reg), pnt)
    /\ Represents(R!ToCached(reg), pnt)
    /\ Represents(R!ToPrecomputed(reg), pnt)
    /\ Represents(R!ToP3(R!Dbl(reg)), R!PDbl(pnt))
    /\ Represents(R!ToP2(R!Dbl(reg)), R!PDbl(pnt))
(* encoding, decoding and the curve equation do not depend on the representation *)
Compressed ==
    /\ R!EncodeAlg(reg) = R!Encode(pnt) /\ R!EncodeAlg(R!Dbl(reg)) = R!Encode(R!PDbl(pnt))
    /\ R!Decode(R!Encode(pnt)) = << TRUE, pnt >>
    /\ R!DecodeAlg(R!Encode(pnt)) = << TRUE, R!Represent("P3", pnt) >>
    /\ R!OnCurveAlg(reg)
(* equality is equality of points *)
Compared ==
    \A q \in Qs : \A z \in Zs :
        LET g == Scaled("P3", q, z) IN
        /\ R!Eq(reg, g) = (pnt = q) /\ R!Eq(reg, R!ToP2(g)) = (pnt = q) /\ R!Eq(R!Dbl(reg), g) = (R!PDbl(pnt) = q)
        /\ R!Eq(reg, R!Dbl(g)) = (pnt = R!PDbl(q))

(* every byte: decompression finds the point with that encoding or none;   *)
(* unreduced y and the sign of x = 0 are the only encodings of a point     *)
(* that are not its own                                                    *)
Bytes == TLCEval({<<n>> : n \in 0..255})
ASSUME \A s \in Bytes :
    LET d == R!Decode(s)  g == R!DecodeAlg(s) IN
    /\ d[1] = g[1]
    /\ d[1] => /\ Represents(g[2], d[2]) /\ R!OnCurve(d[2])
               /\ \/ R!Encode(d[2]) = s
                  \/ s[1] % 128 >= 101
                  \/ d[2][1] = Zero /\ s[1] >= 128
    /\ ~d[1] => ~\E pt \in Curve : pt[2] = R!YOf(s)
ASSUME \A u, v \in Field : LET r == R!SqrtAlg(u, v)  w == R!FMul(u, R!FInv(v)) IN
    IF u = Zero \/ v = Zero THEN r = Zero
    ELSE R!SqrtRatio(u, v)[1] => R!FSq(R!FSq(r)) = R!FSq(w)
(* the affine law is a commutative group *)
ASSUME Cardinality(Curve) = 88 /\ Cardinality(Torsion) = 8 /\ Cardinality(Prime) = 11
ASSUME \A x, y \in Curve : R!PAdd(x, y) \in Curve /\ R!PAdd(x, y) = R!PAdd(y, x)
ASSUME \A x \in Curve : R!PAdd(x, R!Ident) = x /\ R!PAdd(x, R!PNeg(x)) = R!Ident
ASSUME \A x, y \in Curve : \A z \in Torsion \cup {B} : R!PAdd(R!PAdd(x, y), z) = R!PAdd(x, R!PAdd(y, z))
=============================================================================
