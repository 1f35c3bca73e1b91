------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Keccak-f[1600] and the sponge (FIPS 202), pure TLA+ definition.  Round  *)
(* constants come from the LFSR and rotation offsets from the (x,y) walk   *)
(* of the standard.  SHA-3 appends the bits 01 (suffix byte 06), original  *)
(* Keccak nothing (suffix byte 01).                                        *)
(***************************************************************************)
LOCAL INSTANCE Words
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

\* lane (x,y) is element 5*y + x + 1 of the state
LOCAL Ln(x, y) == 5 * (y % 5) + (x % 5) + 1

\* rc(t): output bit of the LFSR x^8+x^6+x^5+x^4+1
LOCAL LfsrBits ==
    FoldLeft(LAMBDA st, t :
        LET d == 2 * st[1]
            r == IF d >= 256 THEN (d - 256) ^^ 113 ELSE d
        IN  << r, Append(st[2], r % 2) >>,
        << 1, <<1>> >>, Indices(7 * 24))[2]
LOCAL RC(i) ==      \* round 0..23
    FoldLeft(LAMBDA a, j :
        LET p == 2^j - 1 IN
        IF LfsrBits[j + 7*i + 1] = 1 THEN [a EXCEPT ![(p \div 16) + 1] = @ + 2^(p % 16)] ELSE a,
        WZero(4), << 0, 1, 2, 3, 4, 5, 6 >>)
LOCAL RCs == [i \in 1..24 |-> RC(i - 1)]
LOCAL Offsets ==
    FoldLeft(LAMBDA st, t :
        << st[2], (2*st[1] + 3*st[2]) % 5,
           [st[3] EXCEPT ![Ln(st[1], st[2])] = ((t * (t+1)) \div 2) % 64] >>,
        << 1, 0, [i \in 1..25 |-> 0] >>, Indices(24))[3]

LOCAL Round(a, ir) ==
    LET c == [x \in 1..5 |-> WXor(WXor(a[Ln(x-1,0)], a[Ln(x-1,1)]),
                                  WXor(a[Ln(x-1,2)], WXor(a[Ln(x-1,3)], a[Ln(x-1,4)])))]
        d == [x \in 1..5 |-> WXor(c[((x + 3) % 5) + 1], WRotl(c[(x % 5) + 1], 1))]
        th == [i \in 1..25 |-> WXor(a[i], d[((i-1) % 5) + 1])]
        \* rho and pi: B[y, 2x+3y] = rot(A[x,y])
        b == [i \in 1..25 |->
                LET X == (i-1) % 5  Y == (i-1) \div 5      \* target lane (X,Y)
                    x == (X + 3*Y) % 5  y == X             \* source lane
                IN  WRotl(th[Ln(x, y)], Offsets[Ln(x, y)])]
        ch == [i \in 1..25 |->
                LET X == (i-1) % 5  Y == (i-1) \div 5
                IN  WXor(b[i], WAnd(WNot(b[Ln(X+1, Y)]), b[Ln(X+2, Y)]))]
    IN  [ch EXCEPT ![1] = WXor(@, RCs[ir])]
KeccakF(a) == FoldLeft(LAMBDA s, i : Round(s, i), a, Indices(24))

\* rate in bytes, domain suffix byte, output length <= rate
(*J*) Sponge(rate, suffix, outLen, m) ==
    LET q == rate - (Len(m) % rate)
        pad == IF q = 1 THEN << suffix + 128 >>
               ELSE << suffix >> \o [i \in 1..(q-2) |-> 0] \o << 128 >>
        p == m \o pad
        st == FoldLeft(LAMBDA a, blk :
                LET s == SubSeq(p, rate*(blk-1) + 1, rate*blk)
                IN  KeccakF([i \in 1..25 |-> IF 8*i <= rate
                        THEN WXor(a[i], WFromLE(SubSeq(s, 8*i-7, 8*i))) ELSE a[i]]),
                [i \in 1..25 |-> WZero(4)], Indices(Len(p) \div rate))
    IN  SubSeq(FlattenSeqs([i \in 1..25 |-> WToLE(st[i])]), 1, outLen)

SHA3_256(m) == Sponge(136, 6, 32, m)
SHA3_512(m) == Sponge(72, 6, 64, m)
KECCAK_256(m) == Sponge(136, 1, 32, m)
=============================================================================
