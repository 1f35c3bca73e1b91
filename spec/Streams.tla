------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Mass calls.  An event op = "mass" is n calls of one operation f, whose  *)
(* arguments neither side writes down: item i derives them from the seed   *)
(* with SHA3-512, and the driver reports the chained SHA-256 digest of the *)
(* results only.  The specification derives the same arguments, evaluates  *)
(* its own operators on them and compares the digests, so that one event   *)
(* covers many calls.  With edge set, groups of argument bytes are forced  *)
(* to 00 or FF, scalars lie next to multiples of L and limbs at their      *)
(* bounds.                                                                 *)
(***************************************************************************)
EXTENDS Oracle
LOCAL INSTANCE Keccak
LOCAL INSTANCE Sha256

Draw(e, i, j) == SHA3_512(e.seed \o << i % 256, i \div 256, j >>)
Edge(e) == Has(e, "edge") /\ e.edge
(* groups of four bytes are kept, cleared or filled *)
Shape(b, mask) == [k \in 1..Len(b) |-> LET s == mask[((k - 1) \div 4) + 1] % 8 IN IF s = 0 THEN 0 ELSE IF s = 1 THEN 255 ELSE b[k]]
Val(e, i, j) == IF Edge(e) THEN Shape(Draw(e, i, j), Draw(e, i, j + 100)) ELSE Draw(e, i, j)
Half1(b) == SubSeq(b, 1, 32)
Half2(b) == SubSeq(b, 33, 64)

(* n bytes of a scalar; on edge, every other one is q L + delta *)
Scalar(e, i, j, n) ==
    LET v == Val(e, i, j)  x == Draw(e, i, j + 50) IN
    IF ~Edge(e) \/ x[1] % 2 = 0 THEN SubSeq(v, 1, n)
    ELSE LET q == IF n = 32 THEN FromNat(x[2] % 16) ELSE FromBytes(SubSeq(v, 1, x[2] % 33))
             s == Sub(Add(Mul(Add(q, One), L), FromNat(x[3] + 256 * (x[4] % 4))), Add(L, FromNat(512)))
         IN  IF Le(FromNat(512), Add(Mul(q, L), FromNat(x[3] + 256 * (x[4] % 4)))) THEN ToBytes(Mod(s, Pow2(8 * n)), n) ELSE Zeros(n)

(* limbs within the bounds the documentation states: *)
(* 1.65 2^26 and 1.65 2^25 for products, 1.1 2^25 and 1.1 2^24 for sums *)
Limbs(e, i, j, wide) ==
    LET b == Draw(e, i, j) IN
    [k \in 1..10 |->
        LET bound == IF wide THEN (IF k % 2 = 1 THEN 110729625 ELSE 55364812) ELSE (IF k % 2 = 1 THEN 36909875 ELSE 18454937)
            v == b[4*k - 3] + 256 * b[4*k - 2] + 65536 * b[4*k - 1] + 16777216 * (b[4*k] % 16)
            r == (v % (2 * bound + 1)) - bound
            s == b[4*k] \div 16
        IN  IF ~Edge(e) THEN r
            ELSE CASE s \in {0, 1, 2, 3} -> bound [] s \in {4, 5, 6, 7} -> 0 - bound [] s = 8 -> 0 [] s = 9 -> 1
                   [] s = 10 -> -1 [] s = 11 -> bound - (v % 16) [] s = 12 -> (v % 16) - bound [] OTHER -> r]

(* up to 128 bytes *)
Message(e, i, j) ==
    LET n == Draw(e, i, j + 50)[1] % 129 IN SubSeq(Val(e, i, j) \o Val(e, i, j + 1), 1, n)

Bool(v) == IF v THEN <<1>> ELSE <<0>>
Maybe(r, b) == IF r[1] THEN <<1>> \o b ELSE <<0>>

-----------------------------------------------------------------------------
(* a genuine signature under key k, mostly damaged *)
FlipBit(b, n) == IF b = <<>> THEN <<1>> ELSE LET k == n % (8 * Len(b)) IN IF TestBit(b, k) THEN ClearBit(b, k) ELSE SetBit(b, k)
Damaged(e, i, A, m, R, S) ==
    LET x == Draw(e, i, 9)  c == x[1] % 10  n == x[2] + 256 * x[3] IN
    CASE c = 3 -> << A, m, FlipBit(R, n), S >>
      [] c = 4 -> << A, m, R, FlipBit(S, n) >>
      [] c = 5 -> << A, FlipBit(m, n), R, S >>
      [] c = 6 -> << A, m, R, ToBytes(Add(FromBytes(S), L), 32) >>
      [] c = 7 -> << FlipBit(A, n), m, R, S >>
      [] c = 8 -> << A, Append(m, x[4]), R, S >>
      [] c = 9 -> << A, m, FlipBit(R, 255), ToBytes(Sub(L, FromBytes(S)), 32) >>
      [] OTHER -> << A, m, R, S >>
VerifyItem(e, i, k, A) ==
    LET m == Message(e, i, 1)  s == E!SignAs(k, A, m)
        d == Damaged(e, i, A, m, s[1], s[2])
    IN  Bool(E!Verify(d[1], d[2], d[3], d[4]))

(* a ciphertext of one to three blocks whose padding is right or nearly so *)
PlainBlocks(e, i) ==
    LET x == Draw(e, i, 9)  n == 16 * (1 + (x[1] % 3))  p == x[2] % 20
        b == SubSeq(Draw(e, i, 1), 1, n)
        f == [k \in 1..n |-> IF k > n - p THEN p ELSE b[k]]
    IN  CASE x[3] % 4 = 0 -> [f EXCEPT ![IF x[4] % 17 = 0 THEN n ELSE n - (x[4] % 17) + 1] = x[5]]
          [] x[3] % 4 = 1 -> [f EXCEPT ![n] = IF x[5] % 2 = 0 THEN x[6] ELSE (p + (x[5] % 3)) % 256]
          [] OTHER -> f
DecItem(e, i, shared) ==
    LET y == Draw(e, i, 2)  salt == Half1(y)  iv == SubSeq(y, 33, 48)  p == PlainBlocks(e, i)
        key == SHA3_256(C!XorBytes(shared, salt))
        c == C!M!CBCEnc(key, iv, p)
        r == C!M!Unpad(C!M!CBCDec(key, iv, c))
    IN  Maybe(r, IF r[1] THEN r[2] ELSE <<>>)

(* nearly the text of a key *)
KeyChar(x) == LET d == x % 16 IN
    CASE x < 120 -> T!LowerDigit(d) [] x < 240 -> T!UpperDigit(d) [] OTHER -> T!LowerDigit(d)
KeyTextOf(e, i) ==
    LET x == Draw(e, i, 9)  b == Draw(e, i, 1) \o Draw(e, i, 2)
        n == IF x[1] % 8 = 0 THEN 60 + (x[2] % 9) ELSE 64
        t == [k \in 1..n |-> KeyChar(b[k])]
    IN  IF x[3] % 4 = 0 THEN [t EXCEPT ![1 + (x[4] % n)] = x[5]] ELSE t
(* the exported helpers on integers, bytes and points; p is a point *)
MathItem(e, i, p) ==
    LET b == Val(e, i, 1)  h == Half1(b)  x == Draw(e, i, 9)  n == FromBytes(h)  c == x[1] % 8 IN
    CASE c = 0 -> h
      [] c = 1 -> LET y == ToBytes(Mod(n, P), 32)
                      r == E!Decode(IF x[2] % 2 = 1 THEN SetBit(y, 255) ELSE y)
                  IN  IF r[1] THEN <<1>> \o FEEnc(r[2][1]) ELSE <<0>>
      [] c = 2 -> ToBytes(Mod(FromBytes(Scalar(e, i, 1, 64)), L), 32)
      [] c = 3 -> FEEnc(Mod(FromBytes(ClearBit(h, 255)), P))
      [] c = 4 -> FEEnc(FEIn(Limbs(e, i, 1, FALSE)))
      [] c = 5 -> LET r == E!Decode(h) IN IF r[1] THEN E!Encode(r[2]) ELSE <<0>>
      [] c = 6 -> h \o b
      [] OTHER -> LET f == ClearBit(ClearBit(ClearBit(ClearBit(h, 255), 254), 253), 252)
                      r == E!ScalarMul(Mod(FromBytes(f), P), p)
                  IN  E!Encode(r) \o E!Encode(E!PAdd(p, r))
Trim(b, n) == SubSeq(b, 1, n)

-----------------------------------------------------------------------------
(* the result of item i, as bytes; ctx is what all items share *)
Ctx(e) ==
    CASE e.f = "verify" -> E!DerivePublic(e.k)
      [] e.f = "signkey" -> E!DerivePublic(e.k)
      [] e.f \in {"gsmul", "gdsm", "walk", "mathutils"} -> E!Decode(e.q)[2]
      [] e.f = "dec" -> E!SharedPoint(e.k, e.A)[2]
      [] OTHER -> <<>>

Item(e, i, ctx) ==
    CASE e.f = "modq" -> ToBytes(Mod(FromBytes(Scalar(e, i, 1, 64)), L), 32)
      [] e.f = "muladd" ->
           ToBytes(Mod(Add(Mul(FromBytes(Scalar(e, i, 1, 32)), FromBytes(Scalar(e, i, 2, 32))), FromBytes(Scalar(e, i, 3, 32))), L), 32)
      [] e.f = "canon" -> LET s == Scalar(e, i, 1, 32) IN Bool(E!IsCanonicalS(s)) \o E!CanonicalS(s)
      [] e.f = "field" ->
           LET wide == e.o \in {"multiply", "square", "squareAndDouble", "invert"} IN
           FEEnc(FOp(e.o, FEIn(Limbs(e, i, 1, wide)), FEIn(Limbs(e, i, 2, wide))))
      [] e.f = "fbytes" ->
           LET b == Half1(Val(e, i, 1)) IN FEEnc(Mod(FromBytes(ClearBit(b, 255)), P)) \o Bool(b[1] % 2 = 1) \o Bool(b # Zeros(32))
      [] e.f = "gdec" -> LET r == E!Decode(Half1(Val(e, i, 1))) IN
           IF r[1] THEN <<1>> \o FEEnc(r[2][1]) \o FEEnc(r[2][2]) \o E!Encode(r[2]) ELSE <<0>>
      [] e.f = "gsmul" -> E!Encode(E!ScalarMul(FromBytes(ClearBit(Scalar(e, i, 1, 32), 255)), ctx))
      [] e.f = "gdsm" -> E!Encode(E!PSub(E!ScalarMul(FromBytes(ClearBit(Scalar(e, i, 2, 32), 255)), B),
                                         E!ScalarMul(FromBytes(ClearBit(Scalar(e, i, 1, 32), 255)), ctx)))
      [] e.f = "derive" -> LET k == Half1(Val(e, i, 1)) IN E!DerivePublic(k) \o E!SecretBytes(k)
      [] e.f = "sign" -> LET s == E!Sign(Half1(Val(e, i, 3)), Message(e, i, 1)) IN s[1] \o s[2]
      [] e.f = "signkey" -> LET s == E!SignAs(e.k, ctx, Message(e, i, 1)) IN s[1] \o s[2]
      [] e.f = "signverify" -> <<1>>
      [] e.f = "verify" -> VerifyItem(e, i, e.k, ctx)
      [] e.f = "shared" -> LET r == C!SharedKey(Half1(Val(e, i, 1)), e.A, Half2(Val(e, i, 1))) IN Maybe(r, r[2])
      [] e.f = "gen" -> LET k == Half1(Val(e, i, 1)) IN k \o E!DerivePublic(k) \o <<1>>
      [] e.f = "fresh" -> SubSeq(Val(e, i, 3), 1, 48) \o << 1, 16 * ((Len(Message(e, i, 1)) \div 16) + 1) >>
      [] e.f = "enc" -> LET x == Val(e, i, 3) IN C!EncryptWith(e.k, e.A, Half1(x), SubSeq(x, 33, 48), Message(e, i, 1))[2] \o <<1>>
      [] e.f = "dec" -> DecItem(e, i, ctx)
      [] e.f = "mathutils" -> MathItem(e, i, ctx)
      [] e.f = "hash" ->
           LET x == Draw(e, i, 9)  n == (x[1] + 256 * x[2]) % e.max IN Digest(e.alg, Rep(Draw(e, i, 1), n))
      [] e.f = "keytext" ->
           LET r == T!ParseKey(KeyTextOf(e, i)) IN
           IF r[1] THEN <<1>> \o r[2] \o T!PrivateText(r[2]) \o T!PublicText(r[2]) ELSE <<0>>
      [] e.f = "keyint" ->
           LET b == Trim(Half1(Val(e, i, 1)), Draw(e, i, 9)[1] % 33)  k == T!PrivateFromNat(FromBytes(b)) IN k \o T!PrivateText(k)
      [] e.f = "sigint" ->
           LET x == Draw(e, i, 9)  v == Val(e, i, 1) \o Val(e, i, 2)
               r == Trim(v, IF x[1] % 4 = 0 THEN x[2] % 35 ELSE 32)  s == Trim(Half2(v) \o Half1(v), IF x[3] % 4 = 0 THEN x[4] % 35 ELSE 32)
               w == T!SigFromInts(x[5] % 16 = 0 /\ FromBytes(r) # Zero, FromBytes(r), x[6] % 16 = 0 /\ FromBytes(s) # Zero, FromBytes(s))
           IN  IF w[1] THEN <<1>> \o w[2] \o w[3] \o T!SigText(w[2], w[3]) ELSE <<0>>

Chain(e, ctx) == FoldLeft(LAMBDA h, i : SHA256(h \o Item(e, i, ctx)), <<>>, [i \in 1..e.n |-> e.from + i - 1])

(* walks: the results depend on the ones before *)
Walk(e, p, q) ==
    FoldLeft(LAMBDA st, i :
        LET x == Draw(e, i, 1)[1] % 8
            n == CASE x < 3 -> E!PDbl(st[2]) [] x < 5 -> E!PAdd(st[2], q) [] x < 7 -> E!PSub(st[2], q) [] OTHER -> E!PNeg(st[2])
        IN  << SHA256(st[1] \o E!Encode(n)), n >>,
        << <<>>, p >>, [i \in 1..e.n |-> e.from + i - 1])[1]

Mass(e) == Ok(e) /\ e.d = IF e.f = "walk" THEN Walk(e, Ctx(e), E!Decode(e.q2)[2]) ELSE Chain(e, Ctx(e))

AllowedCall(e) == IF e.op = "mass" THEN e.st = "noprobe" \/ Mass(e) ELSE Allowed(e)
=============================================================================
