-------------------------------- MODULE Ref10 --------------------------------
(***************************************************************************)
(* The algorithms of the implementation, step by step, over any curve      *)
(* instance: projective formulas, coordinate conversions, comparison,      *)
(* point compression and decompression, tables and the two scalar          *)
(* multiplications.  MCGroup.tla and MCScalarMul.tla show on complete      *)
(* small curves that they implement the affine law of Edwards.tla, which   *)
(* is what the recorded calls of the real code are checked against.        *)
(***************************************************************************)
EXTENDS Coords

El(cs, x, y, z, t) == [cs |-> cs, X |-> x, Y |-> y, Z |-> z, T |-> t]

-----------------------------------------------------------------------------
(* conversions *)
ToP2(c) ==
    CASE c.cs \in {"P2", "P3"} -> El("P2", c.X, c.Y, c.Z, Zero)
      [] c.cs = "P1xP1" -> El("P2", FMul(c.X, c.T), FMul(c.Y, c.Z), FMul(c.Z, c.T), Zero)
ToP3(c) ==
    CASE c.cs = "P3" -> c
      [] c.cs = "P1xP1" -> El("P3", FMul(c.X, c.T), FMul(c.Y, c.Z), FMul(c.Z, c.T), FMul(c.X, c.Y))
ToCached(c) ==
    CASE c.cs = "P3" -> El("CACHED", FAdd(c.Y, c.X), FSub(c.Y, c.X), c.Z, FMul(c.T, D2))
ToPrecomputed(c) ==     \* as the tables are filled: through affine coordinates
    LET i == FInv(c.Z)  x == FMul(c.X, i)  y == FMul(c.Y, i)
    IN  El("PRECOMPUTED", FAdd(y, x), FSub(y, x), FMul(FMul(x, y), D2), Zero)

-----------------------------------------------------------------------------
(* formulas; results are P1xP1 *)
Dbl(c) ==
    LET xx == FSq(c.X)  yy == FSq(c.Y)  b == FAdd(FSq(c.Z), FSq(c.Z))  s == FAdd(yy, xx)  m == FSub(yy, xx)
    IN  El("P1xP1", FSub(FSq(FAdd(c.X, c.Y)), s), s, m, FSub(b, m))
(* sums with the other operand's (y+x, y-x, 2z, 2dt) *)
Sum(c, plus, minus, zz, tt, neg) ==
    LET a == FMul(FSub(c.Y, c.X), IF neg THEN plus ELSE minus)
        b == FMul(FAdd(c.Y, c.X), IF neg THEN minus ELSE plus)
        k == FMul(c.T, tt)
        e == IF neg THEN FNeg(k) ELSE k
    IN  El("P1xP1", FSub(b, a), FAdd(a, b), FAdd(zz, e), FSub(zz, e))
AddC(c, g) == LET z == FMul(c.Z, g.Z) IN Sum(c, g.X, g.Y, FAdd(z, z), g.T, FALSE)
SubC(c, g) == LET z == FMul(c.Z, g.Z) IN Sum(c, g.X, g.Y, FAdd(z, z), g.T, TRUE)
AddP(c, g) == Sum(c, g.X, g.Y, FAdd(c.Z, c.Z), g.Z, FALSE)
SubP(c, g) == Sum(c, g.X, g.Y, FAdd(c.Z, c.Z), g.Z, TRUE)
ZeroP3 == El("P3", Zero, One, One, Zero)
ZeroP2 == El("P2", Zero, One, One, Zero)
ZeroPre == El("PRECOMPUTED", One, One, Zero, Zero)
Neg(c) == ToP3(SubC(ZeroP3, ToCached(c)))

-----------------------------------------------------------------------------
(* comparison: cross multiplication in the lower coordinate system *)
Eq(c, g) ==
    LET a == ToP2(c)  b == ToP2(g)
    IN  FMul(a.X, b.Z) = FMul(b.X, a.Z) /\ FMul(a.Y, b.Z) = FMul(b.Y, a.Z)
OnCurveAlg(c) ==
    LET a == ToP2(c)  i == FInv(a.Z)  xx == FSq(FMul(a.X, i))  yy == FSq(FMul(a.Y, i))
    IN  FAdd(FAdd(One, FMul(FMul(D, xx), yy)), xx) = yy

(* compression *)
EncodeAlg(c) ==
    LET a == ToP2(c)  i == FInv(a.Z)  x == FMul(a.X, i)  y == FMul(a.Y, i)
    IN  IF FIsNeg(x) THEN SetBit(ToBytes(y, EncLen), SignBit) ELSE ToBytes(y, EncLen)
(* u v^3 (u v^7)^((p-5)/8) *)
SqrtAlg(u, v) ==
    LET v3 == FMul(FSq(v), v)
        x == FMul(FMul(FSq(v3), v), u)
    IN  FMul(FMul(v3, u), PowMod(x, Div(Sub(P, <<5>>), <<8>>), P))
AffineXAlg(s) ==
    LET y == YOf(s)  yy == FSq(y)  u == FSub(yy, One)  v == FAdd(FMul(yy, D), One)
        r == SqrtAlg(u, v)
        w == FMul(FSq(r), v)
        ok == w = u \/ FAdd(w, u) = Zero
        x == IF w = u THEN r ELSE FMul(r, SqrtM1)
    IN  IF ~ok THEN << FALSE >> ELSE << TRUE, IF FIsNeg(x) # TestBit(s, SignBit) THEN FNeg(x) ELSE x >>
DecodeAlg(s) ==
    LET r == AffineXAlg(s) IN
    IF ~r[1] THEN r ELSE << TRUE, El("P3", r[2], YOf(s), One, FMul(r[2], YOf(s))) >>

-----------------------------------------------------------------------------
(* Recodings of a scalar of EncLen bytes.  Digits are TLC integers.        *)
(* radix 16, signed: 2 EncLen digits in -8..7, the last one in -8..8       *)
Radix16(s) ==
    LET n == 2 * EncLen
        raw(i) == IF i % 2 = 1 THEN s[(i + 1) \div 2] % 16 ELSE s[i \div 2] \div 16
        r == FoldLeft(LAMBDA st, i :
                LET e == raw(i) + st[1]  c == (e + 8) \div 16
                IN  << c, Append(st[2], e - 16 * c) >>,
                << 0, <<>> >>, [i \in 1..(n - 1) |-> i])
    IN  Append(r[2], raw(n) + r[1])

(* sliding window: digits at most 15, odd or 0 *)
RECURSIVE SlideBit(_, _, _), SlideFrom(_, _)
FirstZero(r, k) ==
    IF \E j \in k..Len(r) : r[j] = 0 THEN CHOOSE j \in k..Len(r) : r[j] = 0 /\ \A i \in k..(j - 1) : r[i] # 0 ELSE Len(r) + 1
SlideBit(r, i, b) ==
    IF b > 6 \/ i + b > Len(r) THEN r
    ELSE IF r[i + b] = 0 THEN SlideBit(r, i, b + 1)
    ELSE LET w == r[i + b] * 2 ^ b IN
         IF r[i] + w <= 15 THEN SlideBit([r EXCEPT ![i] = @ + w, ![i + b] = 0], i, b + 1)
         ELSE IF r[i] - w >= -15
         THEN LET j == FirstZero(r, i + b)
              IN  SlideBit([k \in 1..Len(r) |-> IF k = i THEN r[k] - w
                                                ELSE IF k >= i + b /\ k < j THEN 0
                                                ELSE IF k = j THEN 1 ELSE r[k]], i, b + 1)
         ELSE r
SlideFrom(r, i) ==
    IF i > Len(r) THEN r ELSE SlideFrom(IF r[i] # 0 THEN SlideBit(r, i, 1) ELSE r, i + 1)
Slide(s) == SlideFrom([i \in 1..(8 * EncLen) |-> IF TestBit(s, i - 1) THEN 1 ELSE 0], 1)

-----------------------------------------------------------------------------
(* tables *)
RECURSIVE Times(_, _)
Times(c, n) == IF n = 1 THEN c ELSE ToP3(AddC(Times(c, n - 1), ToCached(c)))
Shift8(c) == FoldLeft(LAMBDA a, i : ToP3(AddC(a, ToCached(a))), c, [i \in 1..8 |-> i])
(* row i, column j : j 256^(i-1) c *)
SingleTable(c) ==
    FoldLeft(LAMBDA st, i : << Shift8(st[1]), Append(st[2], [j \in 1..8 |-> ToPrecomputed(Times(st[1], j))]) >>,
             << c, <<>> >>, [i \in 1..EncLen |-> i])[2]
(* c, 3c, ..., 15c *)
DoubleTable(c) ==
    FoldLeft(LAMBDA st, i : << ToP3(AddC(c, ToCached(ToP3(AddC(c, ToCached(st[1])))))), Append(st[2], ToPrecomputed(st[1])) >>,
             << c, <<>> >>, [i \in 1..8 |-> i])[2]
SelectAlg(table, pos, b) ==
    LET a == IF b < 0 THEN 0 - b ELSE b
        t == IF a = 0 THEN ZeroPre ELSE table[pos][a]
    IN  IF b < 0 THEN El("PRECOMPUTED", t.Y, t.X, FNeg(t.Z), Zero) ELSE t

(* a c with the table of c *)
ScalarMulAlg(table, s) ==
    LET e == Radix16(s)
        run(h, from) == FoldLeft(LAMBDA a, k : ToP3(AddP(a, SelectAlg(table, k, e[2 * k - 1 + from]))), h, [k \in 1..EncLen |-> k])
        odd == run(ZeroP3, 1)
        four == ToP3(Dbl(ToP2(Dbl(ToP2(Dbl(ToP2(Dbl(odd))))))))
    IN  run(four, 0)

(* b B - a A with the tables of B and A *)
DoubleMulAlg(tB, tA, a, b) ==
    LET sa == Slide(a)  sb == Slide(b)
        add(t, tab, d) == IF d > 0 THEN AddP(ToP3(t), tab[d \div 2 + 1]) ELSE SubP(ToP3(t), tab[(0 - d) \div 2 + 1])
    IN  FoldLeft(LAMBDA r, k :
            LET i == 8 * EncLen + 1 - k
                d == Dbl(r)
                u == IF sa[i] = 0 THEN d ELSE add(d, tA, 0 - sa[i])
                v == IF sb[i] = 0 THEN u ELSE add(u, tB, sb[i])
            IN  ToP2(v), ZeroP2, [k \in 1..(8 * EncLen) |-> k])
=============================================================================
