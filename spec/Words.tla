-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Fixed-width machine words as sequences of 16-bit limbs, least           *)
(* significant limb first (2 limbs: 32-bit word, 4 limbs: 64-bit word).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

WXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
WAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
WOr(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
WNot(a)    == [i \in 1..Len(a) |-> 65535 - a[i]]
WAdd(a, b) ==
    FoldLeft(LAMBDA st, i : LET t == a[i] + b[i] + st[1]
                            IN  << t \div 65536, Append(st[2], t % 65536) >>,
             << 0, <<>> >>, [i \in 1..Len(a) |-> i])[2]
WRotl(a, n) ==
    LET k == Len(a)  q == (n \div 16) % k  r == n % 16
        at(i) == a[((i - 1 - q + 2*k) % k) + 1]
    IN  [i \in 1..k |-> ((at(i) * 2^r) % 65536) + (at(i - 1) \div 2^(16 - r))]
WRotr(a, n) == WRotl(a, 16 * Len(a) - n)
\* logical shift right, 32-bit words
WShr32(a, n) ==
    IF n >= 16 THEN << a[2] \div 2^(n-16), 0 >>
    ELSE << (a[1] \div 2^n) + ((a[2] % 2^n) * 2^(16 - n)), a[2] \div 2^n >>
\* k-limb words from / to little-endian bytes
WFromLE(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i-1] + 256 * s[2*i]]
WToLE(a) == [j \in 1..2*Len(a) |-> IF j % 2 = 1 THEN a[(j+1) \div 2] % 256 ELSE a[j \div 2] \div 256]
WFromBE(s) == WFromLE(Reverse(s))
WToBE(a) == Reverse(WToLE(a))
WZero(k) == [i \in 1..k |-> 0]
FlattenSeqs(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Indices(n) == [i \in 1..n |-> i]
\* 64-bit big/little endian bytes of a TLC natural
Len64LE(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>
=============================================================================
