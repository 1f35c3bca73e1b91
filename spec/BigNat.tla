------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Unbounded natural numbers for TLC (whose integers have 32 bits): a      *)
(* number is the sequence of its base-256 digits, least significant digit  *)
(* first, without leading zeroes; zero is <<>>.  So a number is also its   *)
(* own shortest little-endian byte string, the form used on the wire.      *)
(*                                                                         *)
(* Every operator marked (*J*) has an equivalent Java override             *)
(* (java/vp/BigNatOv.java); the definitions here are the meaning, and      *)
(* SelfCheck.tla evaluates them against the overrides.                     *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

LOCAL MaxOf(a, b) == IF a >= b THEN a ELSE b
LOCAL Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Idx(n) == [i \in 1..n |-> i]

IsBytes(s) == /\ s = [i \in 1..Len(s) |-> s[i]]
              /\ \A i \in 1..Len(s) : s[i] \in 0..255

Zeros(n) == [i \in 1..n |-> 0]

(*J*) Norm(s) ==
    LET top == FoldLeft(LAMBDA m, i : IF s[i] # 0 THEN i ELSE m, 0, Idx(Len(s)))
    IN  SubSeq(s, 1, top)

Zero == <<>>
One  == <<1>>
Two  == <<2>>

(* n: a TLC natural *)
FromNat(n) == Norm(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216)>>)
ToNat(a) == Dig(a,1) + 256 * Dig(a,2) + 65536 * Dig(a,3)

(*J*) Cmp(a, b) ==                      \* -1, 0, 1
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE FoldLeft(LAMBDA r, i : IF a[i] = b[i] THEN r ELSE IF a[i] < b[i] THEN -1 ELSE 1,
                  0, Idx(Len(a)))

Lt(a, b) == Cmp(a, b) = -1
Le(a, b) == Cmp(a, b) # 1

(*J*) Add(a, b) ==
    LET n == MaxOf(Len(a), Len(b))
        r == FoldLeft(LAMBDA st, i :
                LET t == Dig(a,i) + Dig(b,i) + st[1]
                IN  << t \div 256, Append(st[2], t % 256) >>,
                << 0, <<>> >>, Idx(n))
    IN  Norm(Append(r[2], r[1]))

(*J*) Sub(a, b) ==                      \* a >= b
    LET r == FoldLeft(LAMBDA st, i :
                LET t == Dig(a,i) - Dig(b,i) - st[1]
                IN  IF t < 0 THEN << 1, Append(st[2], t + 256) >>
                             ELSE << 0, Append(st[2], t) >>,
                << 0, <<>> >>, Idx(Len(a)))
    IN  Norm(r[2])

(*J*) Mul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>> ELSE
    LET la == Len(a)  lb == Len(b)
        col(k) == FoldLeft(LAMBDA s, i : IF k - i + 1 \in 1..lb THEN s + a[i] * b[k-i+1] ELSE s,
                           0, Idx(la))
        r == FoldLeft(LAMBDA st, k :
                LET t == col(k) + st[1]
                IN  << t \div 256, Append(st[2], t % 256) >>,
                << 0, <<>> >>, Idx(la + lb))
    IN  Norm(r[2])

Pow2(k) == [i \in 1..(k \div 8) + 1 |-> IF i = (k \div 8) + 1 THEN 2 ^ (k % 8) ELSE 0]

Bit(a, i) == (Dig(a, (i \div 8) + 1) \div (2 ^ (i % 8))) % 2      \* i >= 0
BitLen(a) == IF a = <<>> THEN 0
             ELSE 8 * (Len(a) - 1) + (CHOOSE k \in 1..8 : 2^(k-1) <= a[Len(a)] /\ a[Len(a)] < 2^k)

(* bits of a, most significant first *)
BitsMSB(a) == LET n == BitLen(a) IN [i \in 1..n |-> Bit(a, n - i)]

(*J*) DivMod(a, m) ==                   \* << a \div m, a % m >>, m # 0
    LET bits == BitsMSB(a)
        r == FoldLeft(LAMBDA st, i :
                LET t == LET d == Add(st[2], st[2]) IN IF bits[i] = 1 THEN Add(d, One) ELSE d
                    q == Add(st[1], st[1])
                IN  IF Cmp(t, m) # -1 THEN << Add(q, One), Sub(t, m) >> ELSE << q, t >>,
                << <<>>, <<>> >>, Idx(Len(bits)))
    IN  r

(*J*) Mod(a, m) == DivMod(a, m)[2]
Div(a, m) == DivMod(a, m)[1]

(*J*) AddMod(a, b, m) == Mod(Add(a, b), m)
(*J*) SubMod(a, b, m) == Mod(Add(a, Sub(m, Mod(b, m))), m)
(*J*) MulMod(a, b, m) == Mod(Mul(a, b), m)
(*J*) PowMod(a, e, m) ==
    FoldLeft(LAMBDA r, x : LET s == MulMod(r, r, m) IN IF x = 1 THEN MulMod(s, a, m) ELSE s,
             Mod(One, m), BitsMSB(e))
(* inverse modulo a prime m; the inverse of 0 is 0 *)
(*J*) InvMod(a, m) == PowMod(a, Sub(m, Two), m)

(* fixed-length little-endian bytes of a, Len(a) <= n *)
(*J*) ToBytes(a, n) == [i \in 1..n |-> Dig(a, i)]
Fits(a, n) == Len(a) <= n
(* the number a byte string denotes *)
FromBytes(s) == Norm(s)
FromBytesBE(s) == Norm(Reverse(s))
ToBytesBE(a, n) == Reverse(ToBytes(a, n))

(* clear bit i of byte string s *)
ClearBit(s, i) == LET k == (i \div 8) + 1 IN
    [s EXCEPT ![k] = @ - ((@ \div (2 ^ (i % 8))) % 2) * (2 ^ (i % 8))]
SetBit(s, i) == LET k == (i \div 8) + 1 IN
    [s EXCEPT ![k] = @ + (1 - ((@ \div (2 ^ (i % 8))) % 2)) * (2 ^ (i % 8))]
TestBit(s, i) == (s[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2 = 1

(***************************************************************************)
(* Value modulo m of a vector of (possibly negative) TLC integers f[i]     *)
(* weighted 2^w[i]: what a limb vector denotes.                            *)
(***************************************************************************)
(*J*) LimbValue(f, w, m) ==
    FoldLeft(LAMBDA acc, i :
        LET t == Mul(FromNat(IF f[i] < 0 THEN 0 - f[i] ELSE f[i]), Pow2(w[i])) IN
        IF f[i] < 0 THEN SubMod(acc, t, m) ELSE AddMod(acc, t, m),
        Zero, Idx(Len(f)))
=============================================================================
