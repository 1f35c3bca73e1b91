------------------------------ MODULE BlockMode ------------------------------
(***************************************************************************)
(* PKCS#7 padding and CBC chaining over any block cipher on blocks of      *)
(* BlkLen bytes.  Instantiated with AES-256 by Cipher.tla and with a toy   *)
(* cipher, exhaustively explored, by MCCipher.tla.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS BlkLen, BEnc(_, _), BDec(_, _), BXor(_, _)

Pad(m) == LET n == BlkLen - (Len(m) % BlkLen) IN m \o [i \in 1..n |-> n]

(* << TRUE, message >> or << FALSE >> *)
Unpad(b) ==
    IF b = <<>> THEN << FALSE >> ELSE
    LET n == b[Len(b)] IN
    IF n < 1 \/ n > BlkLen \/ n > Len(b) THEN << FALSE >>
    ELSE IF \E i \in (Len(b) - n + 1)..Len(b) : b[i] # n THEN << FALSE >>
    ELSE << TRUE, SubSeq(b, 1, Len(b) - n) >>

Blocks(s) == [i \in 1..(Len(s) \div BlkLen) |-> SubSeq(s, BlkLen*(i-1) + 1, BlkLen*i)]
Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)

CBCEnc(k, iv, p) ==     \* Len(p) a multiple of BlkLen
    Concat(FoldLeft(LAMBDA st, blk : LET c == BEnc(k, BXor(blk, st[1])) IN << c, Append(st[2], c) >>,
                    << iv, <<>> >>, Blocks(p))[2])
CBCDec(k, iv, c) ==
    Concat(FoldLeft(LAMBDA st, blk : << blk, Append(st[2], BXor(BDec(k, blk), st[1])) >>,
                    << iv, <<>> >>, Blocks(c))[2])
=============================================================================
