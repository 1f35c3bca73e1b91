------------------------------ MODULE Ripemd160 ------------------------------
(* RIPEMD-160 (Dobbertin, Bosselaers, Preneel 1996), pure TLA+ definition.  *)
LOCAL INSTANCE Words
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

LOCAL RL == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
      7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
      3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
      1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
      4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13 >>
LOCAL RR == << 5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
      6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
      15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
      8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
      12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11 >>
LOCAL SL == << 11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
      7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
      11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
      11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
      9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6 >>
LOCAL SR == << 8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
      9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
      9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
      15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
      8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11 >>
LOCAL KL == << <<0,0>>, <<31129,23170>>, <<60321,28377>>, <<48348,36635>>, <<64846,43347>> >>
LOCAL KR == << <<35814,20642>>, <<53540,23629>>, <<16115,28016>>, <<30441,31341>>, <<0,0>> >>
LOCAL H0 == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>>, <<57840,50130>> >>

LOCAL F(j, x, y, z) ==
    CASE j = 1 -> WXor(x, WXor(y, z))
      [] j = 2 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
      [] j = 3 -> WXor(WOr(x, WNot(y)), z)
      [] j = 4 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
      [] j = 5 -> WXor(x, WOr(y, WNot(z)))
LOCAL Pad(m) ==
    LET z == (119 - Len(m)) % 64
    IN  m \o <<128>> \o [i \in 1..z |-> 0] \o Len64LE(8 * Len(m))
LOCAL Line(h, x, r, s, k, rev) ==
    FoldLeft(LAMBDA v, t :
        LET j == ((t - 1) \div 16) + 1
            f == F(IF rev THEN 6 - j ELSE j, v[2], v[3], v[4])
            u == WAdd(WRotl(WAdd(WAdd(v[1], f), WAdd(x[r[t] + 1], k[j])), s[t]), v[5])
        IN  << v[5], u, v[2], WRotl(v[3], 10), v[4] >>,
        h, Indices(80))
LOCAL Block(h, blk) ==
    LET x == [t \in 1..16 |-> WFromLE(SubSeq(blk, 4*t-3, 4*t))]
        l == Line(h, x, RL, SL, KL, FALSE)
        r == Line(h, x, RR, SR, KR, TRUE)
    IN  << WAdd(h[2], WAdd(l[3], r[4])), WAdd(h[3], WAdd(l[4], r[5])), WAdd(h[4], WAdd(l[5], r[1])),
           WAdd(h[5], WAdd(l[1], r[2])), WAdd(h[1], WAdd(l[2], r[3])) >>
(*J*) RIPEMD160(m) ==
    LET p == Pad(m)
        h == FoldLeft(LAMBDA st, i : Block(st, SubSeq(p, 64*i-63, 64*i)), H0, Indices(Len(p) \div 64))
    IN  FlattenSeqs([i \in 1..5 |-> WToLE(h[i])])
=============================================================================
