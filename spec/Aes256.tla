------------------------------- MODULE Aes256 -------------------------------
(***************************************************************************)
(* AES-256 block cipher (FIPS 197), pure TLA+ definition; blocks and keys  *)
(* are byte sequences.  The S-box is computed from its definition.         *)
(***************************************************************************)
LOCAL INSTANCE Words
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

LOCAL XTime(a) == IF a >= 128 THEN ((2 * a) - 256) ^^ 27 ELSE 2 * a
LOCAL GMul(a, b) ==
    FoldLeft(LAMBDA st, i : << XTime(st[1]), IF (b \div 2^(i-1)) % 2 = 1 THEN st[2] ^^ st[1] ELSE st[2] >>,
             << a, 0 >>, Indices(8))[2]
\* a^254, the inverse in GF(2^8) (0 for 0); 254 = 2+4+8+16+32+64+128
LOCAL GInv(a) ==
    FoldLeft(LAMBDA st, i : LET s == GMul(st[1], st[1]) IN << s, GMul(st[2], s) >>, << a, 1 >>, Indices(7))[2]
LOCAL SBox(a) ==
    LET b == GInv(a)
        bit(i) == (b \div 2^(i % 8)) % 2
        c(i) == (99 \div 2^i) % 2
        o(i) == (bit(i) + bit(i+4) + bit(i+5) + bit(i+6) + bit(i+7) + c(i)) % 2
    IN  o(0) + 2*o(1) + 4*o(2) + 8*o(3) + 16*o(4) + 32*o(5) + 64*o(6) + 128*o(7)
LOCAL InvSBox(v) ==
    LET bit(i) == (v \div 2^(i % 8)) % 2
        c(i) == (5 \div 2^i) % 2
        o(i) == (bit(i+2) + bit(i+5) + bit(i+7) + c(i)) % 2
    IN  GInv(o(0) + 2*o(1) + 4*o(2) + 8*o(3) + 16*o(4) + 32*o(5) + 64*o(6) + 128*o(7))

LOCAL XorB(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
LOCAL Sub4(w) == [i \in 1..4 |-> SBox(w[i])]
LOCAL Rcon(i) == << 2^(i-1), 0, 0, 0 >>           \* i in 1..7
\* 60 words
LOCAL Expand(key) ==
    FoldLeft(LAMBDA w, i :                          \* i is the 0-based index of the new word
        LET t == w[i]                               \* word i-1
            u == IF i % 8 = 0 THEN XorB(Sub4(<< t[2], t[3], t[4], t[1] >>), Rcon(i \div 8))
                 ELSE IF i % 8 = 4 THEN Sub4(t) ELSE t
        IN  Append(w, XorB(w[i - 7], u)),
        [i \in 1..8 |-> SubSeq(key, 4*i-3, 4*i)], [i \in 1..52 |-> i + 7])
LOCAL RoundKey(w, r) == w[4*r+1] \o w[4*r+2] \o w[4*r+3] \o w[4*r+4]
\* byte r + 4c of the state is row r, column c
LOCAL ShiftRows(s) == [i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4 IN s[r + 4*((c + r) % 4) + 1]]
LOCAL InvShiftRows(s) == [i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4 IN s[r + 4*((c - r + 4) % 4) + 1]]
LOCAL Mix(s, m) == [i \in 1..16 |->
    LET r == (i-1) % 4  c == (i-1) \div 4
        t(k) == GMul(m[((k - r + 4) % 4) + 1], s[4*c + k + 1])
    IN  (t(0) ^^ t(1)) ^^ (t(2) ^^ t(3))]
LOCAL SubB(s) == [i \in 1..16 |-> SBox(s[i])]
LOCAL InvSubB(s) == [i \in 1..16 |-> InvSBox(s[i])]

(*J*) AESEnc(key, blk) ==
    LET w == Expand(key)
        s == FoldLeft(LAMBDA st, r : XorB(Mix(ShiftRows(SubB(st)), << 2, 3, 1, 1 >>), RoundKey(w, r)),
                      XorB(blk, RoundKey(w, 0)), Indices(13))
    IN  XorB(ShiftRows(SubB(s)), RoundKey(w, 14))
(*J*) AESDec(key, blk) ==
    LET w == Expand(key)
        s == FoldLeft(LAMBDA st, i : Mix(XorB(InvSubB(InvShiftRows(st)), RoundKey(w, 14 - i)), << 14, 11, 13, 9 >>),
                      XorB(blk, RoundKey(w, 14)), Indices(13))
    IN  XorB(InvSubB(InvShiftRows(s)), RoundKey(w, 0))
=============================================================================
