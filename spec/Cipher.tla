------------------------------- MODULE Cipher -------------------------------
(***************************************************************************)
(* The library's encryption (properties P10, P11):                         *)
(*   salt(32) || iv(16) || AES-256-CBC(PKCS#7(message)),                   *)
(* key = SHA3-256(encode(a.B) xor salt).                                   *)
(***************************************************************************)
EXTENDS Ed25519
LOCAL INSTANCE Keccak
LOCAL INSTANCE Aes256
LOCAL INSTANCE Bitwise

XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
M == INSTANCE BlockMode WITH BlkLen <- 16, BEnc <- AESEnc, BDec <- AESDec, BXor <- XorBytes

SaltLen == 32
IvLen == 16

(* << TRUE, key >> or << FALSE >>: shared key of private key k and public key A *)
SharedKey(k, A, salt) ==
    LET s == E!SharedPoint(k, A) IN
    IF ~s[1] THEN << FALSE >> ELSE << TRUE, SHA3_256(XorBytes(s[2], salt)) >>

EncryptWith(k, A, salt, iv, m) ==
    LET s == SharedKey(k, A, salt) IN
    IF ~s[1] THEN << FALSE >> ELSE << TRUE, salt \o iv \o M!CBCEnc(s[2], iv, M!Pad(m)) >>

Decrypt(k, A, c) ==
    IF Len(c) < 64 \/ (Len(c) - 48) % 16 # 0 THEN << FALSE >> ELSE
    LET s == SharedKey(k, A, SubSeq(c, 1, 32)) IN
    IF ~s[1] THEN << FALSE >>
    ELSE M!Unpad(M!CBCDec(s[2], SubSeq(c, 33, 48), SubSeq(c, 49, Len(c))))
=============================================================================
