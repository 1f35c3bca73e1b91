------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 (FIPS 180-4), pure TLA+ definition.                             *)
LOCAL INSTANCE Words
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

LOCAL K == <<
      <<12184,17034>>, <<17553,28983>>, <<64463,46528>>, <<56229,59829>>,
      <<49755,14678>>, <<4593,23025>>, <<33444,37439>>, <<24277,43804>>,
      <<43672,55303>>, <<23297,4739>>, <<34238,9265>>, <<32195,21772>>,
      <<23924,29374>>, <<45566,32990>>, <<1703,39900>>, <<61812,49563>>,
      <<27073,58523>>, <<18310,61374>>, <<40390,4033>>, <<41420,9228>>,
      <<11375,11753>>, <<33962,19060>>, <<43484,23728>>, <<35034,30457>>,
      <<20818,38974>>, <<50797,43057>>, <<10184,45059>>, <<32711,48985>>,
      <<3059,50912>>, <<37191,54695>>, <<25425,1738>>, <<10599,5161>>,
      <<2693,10167>>, <<8504,11803>>, <<28156,19756>>, <<3347,21304>>,
      <<29524,25866>>, <<2747,30314>>, <<51502,33218>>, <<11397,37490>>,
      <<59553,41663>>, <<26187,43034>>, <<35696,49739>>, <<20899,51052>>,
      <<59417,53650>>, <<1572,54937>>, <<13701,62478>>, <<41072,4202>>,
      <<49430,6564>>, <<27656,7735>>, <<30540,10056>>, <<48309,13488>>,
      <<3251,14620>>, <<43594,20184>>, <<51791,23452>>, <<28659,26670>>,
      <<33518,29839>>, <<25455,30885>>, <<30740,33992>>, <<520,36039>>,
      <<65530,37054>>, <<27883,42064>>, <<41975,48889>>, <<30962,50801>> >>
LOCAL H0 == <<
      <<58983,27145>>, <<44677,47975>>, <<62322,15470>>, <<62778,42319>>,
      <<21119,20750>>, <<26764,39685>>, <<55723,8067>>, <<52505,23520>> >>

LOCAL X3(a, b, c) == WXor(a, WXor(b, c))
LOCAL Pad(m) ==
    LET z == (119 - Len(m)) % 64          \* 55 - len mod 64
    IN  m \o <<128>> \o [i \in 1..z |-> 0] \o Reverse(Len64LE(8 * Len(m)))
LOCAL Block(h, blk) ==
    LET w0 == [t \in 1..16 |-> WFromBE(SubSeq(blk, 4*t-3, 4*t))]
        w == FoldLeft(LAMBDA s, t :
                LET a == s[t-15]  b == s[t-2]
                    s0 == X3(WRotr(a, 7), WRotr(a, 18), WShr32(a, 3))
                    s1 == X3(WRotr(b, 17), WRotr(b, 19), WShr32(b, 10))
                IN  Append(s, WAdd(WAdd(s1, s[t-7]), WAdd(s0, s[t-16]))),
                w0, [i \in 1..48 |-> i + 16])
        r == FoldLeft(LAMBDA v, t :
                LET S1 == X3(WRotr(v[5], 6), WRotr(v[5], 11), WRotr(v[5], 25))
                    ch == WXor(WAnd(v[5], v[6]), WAnd(WNot(v[5]), v[7]))
                    t1 == WAdd(WAdd(v[8], S1), WAdd(ch, WAdd(K[t], w[t])))
                    S0 == X3(WRotr(v[1], 2), WRotr(v[1], 13), WRotr(v[1], 22))
                    mj == X3(WAnd(v[1], v[2]), WAnd(v[1], v[3]), WAnd(v[2], v[3]))
                IN  << WAdd(t1, WAdd(S0, mj)), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7] >>,
                h, Indices(64))
    IN  [i \in 1..8 |-> WAdd(h[i], r[i])]
(*J*) SHA256(m) ==
    LET p == Pad(m)
        h == FoldLeft(LAMBDA st, i : Block(st, SubSeq(p, 64*i-63, 64*i)), H0, Indices(Len(p) \div 64))
    IN  FlattenSeqs([i \in 1..8 |-> WToBE(h[i])])
=============================================================================
