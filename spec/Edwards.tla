------------------------------- MODULE Edwards -------------------------------
(***************************************************************************)
(* The twisted Edwards curve -x^2 + y^2 = 1 + D x^2 y^2 over the field of  *)
(* P elements (P prime, P = 5 mod 8, D not a square), its affine group law *)
(* and its point encoding.  Ed25519 is one instance (Ed25519.tla); the     *)
(* design models use small curves (Toy*.tla) and explore them completely.  *)
(*                                                                         *)
(* The affine law below is the *definition* of the group.  The projective  *)
(* formulas the code uses are modelled separately (Ref10.tla) and shown to *)
(* agree with this one.                                                    *)
(***************************************************************************)
EXTENDS EdwardsLaw

CONSTANTS P,        \* field prime
          D,        \* curve constant
          SqrtM1,   \* a square root of -1
          L,        \* order of the base point
          B,        \* base point << x, y >>
          EncLen    \* bytes of an encoded point or scalar; bit 8*EncLen-1 is the sign of x

SignBit == 8 * EncLen - 1

FAdd(a, b) == AddMod(a, b, P)
FSub(a, b) == SubMod(a, b, P)
FMul(a, b) == MulMod(a, b, P)
FNeg(a)    == SubMod(Zero, a, P)
FInv(a)    == InvMod(a, P)
FSq(a)     == MulMod(a, a, P)
FIsNeg(a)  == Bit(a, 0) = 1                     \* parity of the reduced value

Ident == << Zero, One >>

OnCurve(pt) == LET xx == FSq(pt[1])  yy == FSq(pt[2])
               IN  FSub(yy, xx) = FAdd(One, FMul(D, FMul(xx, yy)))

PAdd(p, q) == LawAdd(P, D, p, q)
PNeg(p) == << FNeg(p[1]), p[2] >>
PSub(p, q) == PAdd(p, PNeg(q))
PDbl(p) == PAdd(p, p)

(* n * p for a natural n *)
ScalarMul(n, p) == LawMul(P, D, n, p)

(* little-endian y, sign of x in the top bit *)
Encode(pt) ==
    LET s == ToBytes(pt[2], EncLen) IN IF FIsNeg(pt[1]) THEN SetBit(s, SignBit) ELSE s

(***************************************************************************)
(* Square root of a fraction: << TRUE, x >> with v x^2 = u if there is one *)
(* (x is one of the two roots), else << FALSE >>.                          *)
(***************************************************************************)
SqrtRatio(u, v) ==
    LET w == FMul(u, FInv(v))
        c == PowMod(w, Div(Add(P, <<3>>), <<8>>), P)
        cc == FSq(c)
    IN  IF cc = w THEN << TRUE, c >>
        ELSE IF FAdd(cc, w) = Zero THEN << TRUE, FMul(c, SqrtM1) >>
        ELSE << FALSE >>

(* The y a byte string denotes: bits below SignBit, reduced mod P (values  *)
(* in P .. 2^SignBit-1 are accepted, as the code deliberately does).       *)
YOf(s) == Mod(FromBytes(ClearBit(s, SignBit)), P)

(* << TRUE, point >> or << FALSE >> *)
Decode(s) ==
    IF Len(s) # EncLen THEN << FALSE >> ELSE
    LET y == YOf(s)
        yy == FSq(y)
        r == SqrtRatio(FSub(yy, One), FAdd(FMul(D, yy), One))
    IN  IF ~r[1] THEN << FALSE >>
        ELSE LET x == IF FIsNeg(r[2]) # TestBit(s, SignBit) THEN FNeg(r[2]) ELSE r[2]
             IN  << TRUE, << x, y >> >>
=============================================================================
