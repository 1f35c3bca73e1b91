------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* What the specification allows the library to do, call by call: an event *)
(* is a record with the call's name (op), its arguments and its observed   *)
(* results.  Byte strings are sequences of 0..255, field elements given to *)
(* the library are limb vectors, field elements it returned are their      *)
(* 32-byte encodings.  st is "ok", "err" or "panic"; "noprobe" marks a     *)
(* call that the driver could not make (see DESIGN.md).                    *)
(***************************************************************************)
EXTENDS Points, TLC
LOCAL INSTANCE Keccak
LOCAL INSTANCE Sha256
LOCAL INSTANCE Ripemd160
C == INSTANCE Cipher
T == INSTANCE Text WITH KeyBytes <- 32

Has(e, f) == f \in DOMAIN e
Rep(p, n) == [i \in 1..n |-> p[((i - 1) % Len(p)) + 1]]
Msg(e) == IF Has(e, "m") THEN e.m ELSE IF Has(e, "mn") THEN Rep(e.mp, e.mn) ELSE <<>>

Ok(e) == e.st = "ok"
Err(e) == e.st = "err" /\ (Has(e, "nil") => e.nil)

-----------------------------------------------------------------------------
(* field elements and points in events *)
W == <<0, 26, 51, 77, 102, 128, 153, 179, 204, 230>>
FEIn(f) == LimbValue(f, W, P)
FEOutOK(b) == Len(b) = 32 /\ Lt(FromBytes(b), P)
FEOut(b) == FromBytes(b)
FEEnc(n) == ToBytes(n, 32)

In(c, f) == IF Has(c, f) THEN FEIn(c[f]) ELSE Zero
CIn(c) ==
    CASE c.cs = "BASE" -> Represent("P3", B)
      [] c.cs \in {"ZERO_P2", "ZERO_P3", "ZERO_PRECOMPUTED"} ->
           Represent(CASE c.cs = "ZERO_P2" -> "P2" [] c.cs = "ZERO_P3" -> "P3" [] OTHER -> "PRECOMPUTED", E!Ident)
      [] c.cs = "ENC" -> Represent("P3", E!Decode(c.b)[2])
      [] OTHER -> [cs |-> c.cs, X |-> In(c, "X"), Y |-> In(c, "Y"), Z |-> In(c, "Z"), T |-> In(c, "T")]
PIn(c) == Affine(CIn(c))

COutOK(c) == /\ c.cs # "nil"
             /\ FEOutOK(c.X) /\ FEOutOK(c.Y) /\ FEOutOK(c.Z)
             /\ (c.cs \in {"P3", "P1xP1", "CACHED"}) => FEOutOK(c.T)
COut(c) == [cs |-> c.cs, X |-> FEOut(c.X), Y |-> FEOut(c.Y), Z |-> FEOut(c.Z), T |-> FEOut(c.T)]
(* c is a representation of point a *)
Is(c, a) == COutOK(c) /\ LET v == COut(c) IN WellFormed(v) /\ Affine(v) = a
IsIn(c, cs, a) == c.cs = cs /\ Is(c, a)

-----------------------------------------------------------------------------
(* P01-P05 *)
PubOf(e) == IF Has(e, "A") THEN e.A ELSE E!DerivePublic(e.k)

Sign(e) == Ok(e) /\ LET s == E!SignAs(e.k, PubOf(e), Msg(e)) IN e.r = s[1] /\ e.s = s[2]
SignMany(e) ==
    /\ Ok(e) /\ Len(e.out) = Len(e.ms)
    /\ LET A == PubOf(e) IN
       \A i \in 1..Len(e.ms) : LET s == E!SignAs(e.k, A, e.ms[i]) IN e.out[i].r = s[1] /\ e.out[i].s = s[2]
SignCanonical(e) == Ok(e) /\ Len(e.s) = 32 /\ E!IsCanonicalS(e.s)
SignVerify(e) == Ok(e) /\ \A i \in 1..Len(e.vs) : e.vs[i]
Verify(e) == Ok(e) /\ e.v = E!Verify(e.A, Msg(e), e.r, e.s)
VerifyMany(e) ==
    /\ Ok(e) /\ Len(e.out) = Len(e.cs)
    /\ \A i \in 1..Len(e.cs) : e.out[i] = E!Verify(e.A, e.cs[i].m, e.cs[i].r, e.cs[i].s)
Canon(e) == Ok(e) /\ e.v = E!IsCanonicalS(e.s)
MkCanon(e) == Ok(e) /\ e.r2 = e.r /\ e.r3 = e.r /\ e.s2 = E!CanonicalS(e.s) /\ e.s3 = e.s2
Derive(e) == Ok(e) /\ e.A = E!DerivePublic(e.k)
Secret(e) == Ok(e) /\ e.a = E!SecretBytes(e.k)

(* P17 *)
Digest(alg, m) ==
    CASE alg = "sha256" -> SHA256(m) [] alg = "sha3_256" -> SHA3_256(m) [] alg = "sha3_512" -> SHA3_512(m)
      [] alg = "keccak_256" -> KECCAK_256(m) [] alg = "ripemd160" -> RIPEMD160(m)
Hash(e) == Ok(e) /\ e.d = Digest(e.alg, Msg(e))

-----------------------------------------------------------------------------
(* P13, P14 *)
(* what a model (MCText, MCCipher) said of the event it became *)
Foretold(e, ok) == Has(e, "foretold") => e.foretold = ok
Priv(e) ==
    LET want == CASE e.via = "bytes" -> << TRUE, e.x >>
                  [] e.via = "hex" -> T!ParseKey(e.x)
                  [] e.via = "int" -> << TRUE, T!PrivateFromNat(FromBytes(e.x)) >>
    IN  /\ Foretold(e, want[1])
        /\ IF want[1] THEN Ok(e) /\ e.raw = want[2] /\ e.str = T!PrivateText(want[2]) ELSE Err(e)
Pub(e) ==
    LET want == IF e.via = "bytes" THEN << TRUE, e.x >> ELSE T!ParseKey(e.x)
    IN  /\ Foretold(e, want[1])
        /\ IF want[1] THEN Ok(e) /\ e.raw = want[2] /\ e.str = T!PublicText(want[2]) ELSE Err(e)
Flag(e, f) == Has(e, f) /\ e[f]
Sig(e) ==
    LET want == CASE e.via = "parts" -> T!SigFromParts(e.r, e.s)
                  [] e.via = "bytes" -> T!SigFromBytes(e.x)
                  [] e.via = "int" -> IF Flag(e, "rnil") \/ Flag(e, "snil") THEN << FALSE >>
                                      ELSE T!SigFromInts(Flag(e, "rneg") /\ FromBytes(e.r) # Zero, FromBytes(e.r),
                                                         Flag(e, "sneg") /\ FromBytes(e.s) # Zero, FromBytes(e.s))
    IN  IF ~want[1] THEN Err(e)
        ELSE /\ Ok(e) /\ e.r2 = want[2] /\ e.s2 = want[3]
             /\ e.b = T!SigBytes(want[2], want[3]) /\ e.str = T!SigText(want[2], want[3])
             /\ e.ri = FromBytes(want[2]) /\ e.si = FromBytes(want[3])

-----------------------------------------------------------------------------
(* P06, P07, P09 *)
FOp(op, a, b) ==
    CASE op = "add" -> E!FAdd(a, b) [] op = "subtract" -> E!FSub(a, b) [] op = "multiply" -> E!FMul(a, b)
      [] op = "negate" -> E!FNeg(a) [] op = "square" -> E!FSq(a) [] op = "squareAndDouble" -> E!FAdd(E!FSq(a), E!FSq(a))
      [] op = "invert" -> E!FInv(a) [] op = "encdec" -> a
(* square root of a/b up to a fourth root of one; anything when a/b has none *)
SqrtOK(a, b, r) ==
    LET w == Quo(a, b)  q == E!FSq(E!FSq(r)) IN
    IF b = Zero \/ a = Zero THEN r = Zero
    ELSE q = E!FSq(w) \/ ~E!SqrtRatio(a, b)[1]
RECURSIVE Prog(_, _, _, _)
Prog(regs, code, out, k) ==
    IF k > Len(code) THEN TRUE
    ELSE LET op == code[k][1]  a == regs[code[k][2]]  b == regs[code[k][3]] IN
         IF Len(code[k]) = 4    \* not looked at: too large to be encoded
         THEN Prog(Append(regs, FOp(op, a, b)), code, out, k + 1)
         ELSE /\ FEOutOK(out[k])
              /\ IF op = "sqrt"
                 THEN SqrtOK(a, b, FEOut(out[k]))
                 ELSE FEOut(out[k]) = FOp(op, a, b)
              /\ Prog(Append(regs, FEOut(out[k])), code, out, k + 1)
FProg(e) == Ok(e) /\ Len(e.out) = Len(e.code) /\ Prog([i \in 1..Len(e.in) |-> FEIn(e.in[i])], e.code, e.out, 1)
FEnc(e) == LET v == FEIn(e.f) IN
    Ok(e) /\ e.b = FEEnc(v) /\ e.nz = (v # Zero) /\ e.neg = E!FIsNeg(v) /\ e.str = T!HexLower(FEEnc(v))
FDec(e) == LET v == Mod(FromBytes(ClearBit(e.b, 255)), P) IN
    Ok(e) /\ e.f = FEEnc(v) /\ e.neg = (e.b[1] % 2 = 1) /\ e.nz = (e.b # Zeros(Len(e.b)))
FEq(e) == LET v == FEIn(e.f) = FEIn(e.g) IN Ok(e) /\ e.v = v /\ e.w = v
EncLenOK(e) == Ok(e) /\ e.f = (e.n \in {32, 64}) /\ e.g = (e.n = 32)

ModQ(e) == Ok(e) /\ e.b = ToBytes(Mod(FromBytes(e.a), L), 32)
MulAdd(e) == Ok(e) /\ e.d = ToBytes(Mod(Add(Mul(FromBytes(e.a), FromBytes(e.b)), FromBytes(e.c)), L), 32)

GEnc(e) == Ok(e) /\ e.b = E!Encode(PIn(e.p))
GDec(e) ==
    LET r == E!Decode(e.b) IN
    /\ IF Len(e.b) = 32 THEN e.yst = "ok" /\ FEOutOK(e.ay) /\ FEOut(e.ay) = E!YOf(e.b) ELSE e.yst = "err" \/ Len(e.b) = 64
    /\ IF r[1] THEN /\ Ok(e) /\ Is(e.p, r[2])
                    /\ e.xst = "ok" /\ FEOutOK(e.ax) /\ FEOut(e.ax) = r[2][1]
       ELSE Len(e.b) = 32 => (Err(e) /\ e.xst = "err")
GRound(e) == LET a == PIn(e.p) IN Ok(e) /\ e.b = E!Encode(a) /\ Is(e.q, a) /\ e.b2 = e.b

-----------------------------------------------------------------------------
(* P08 *)
GCurve(e) == Ok(e) /\ e.v = E!OnCurve(PIn(e.p))
GEq(e) == Ok(e) /\ e.v = (PIn(e.p) = PIn(e.q))
GConst(e) == Ok(e) /\ Is(e.r, PIn(e.p))
GOp(e) ==
    LET a == PIn(e.p) IN
    CASE e.f \in {"toP2", "toP3", "toCached"} ->
           Ok(e) /\ IsIn(e.r, CASE e.f = "toP2" -> "P2" [] e.f = "toP3" -> "P3" [] OTHER -> "CACHED", a)
      [] e.f = "conv" -> Ok(e) /\ IsIn(e.r, e.to, a)
      [] e.f = "dbl" -> Ok(e) /\ Is(e.r, E!PDbl(a))
      [] e.f \in {"add", "precomputedAdd"} -> Ok(e) /\ Is(e.r, E!PAdd(a, PIn(e.q)))
      [] e.f \in {"subtract", "precomputedSubtract"} -> Ok(e) /\ Is(e.r, E!PSub(a, PIn(e.q)))
      [] e.f = "negate" -> Ok(e) /\ Is(e.r, E!PNeg(a))
GChain(e) ==
    /\ Ok(e)
    /\ LET q == PIn(e.q)
           r == FoldLeft(LAMBDA st, i :
                   LET n == CASE e.code[i] = "dbl" -> E!PDbl(st[2]) [] e.code[i] = "add" -> E!PAdd(st[2], q)
                              [] OTHER -> E!PSub(st[2], q)
                   IN  << st[1] /\ Is(e.out[i], n), n >>,
                   << TRUE, PIn(e.p) >>, [i \in 1..Len(e.code) |-> i])
       IN  r[1]
(* b * 256^pos * p as a precomputed element *)
GSelect(e) ==
    /\ Ok(e) /\ Len(e.out) = Len(e.sel)
    /\ LET p == PIn(e.p) IN
       \A i \in 1..Len(e.sel) :
         LET pos == e.sel[i][1]  b == e.sel[i][2]
             q == E!ScalarMul(Mul(FromNat(IF b < 0 THEN 0 - b ELSE b), Pow2(8 * pos)), p)
         IN  IsIn(e.out[i], "PRECOMPUTED", IF b < 0 THEN E!PNeg(q) ELSE q)
GSMul(e) == Ok(e) /\ Is(e.r, E!ScalarMul(FromBytes(e.a), PIn(e.p)))
GDsm(e) == Ok(e) /\ Is(e.r, E!PSub(E!ScalarMul(FromBytes(e.b), PIn(e.p)), E!ScalarMul(FromBytes(e.a), PIn(e.q))))

-----------------------------------------------------------------------------
(* P10, P11 *)
EncDec(e) ==
    LET want == C!EncryptWith(e.sk, e.rA, SubSeq(e.rnd, 1, 32), SubSeq(e.rnd, 33, 48), Msg(e)) IN
    /\ Ok(e) /\ want[1] /\ e.c = want[2]
    /\ IF Has(e, "d") THEN e.d = Msg(e) ELSE e.same
EncRound(e) == Ok(e) /\ e.n = 48 + 16 * ((e.mn \div 16) + 1) /\ e.head = e.rnd /\ e.same
Dec(e) ==
    LET want == IF Has(e, "rk") /\ Has(e, "sA") THEN C!Decrypt(e.rk, e.sA, e.c) ELSE << FALSE >> IN
    Foretold(e, want[1]) /\ IF want[1] THEN Ok(e) /\ e.m = want[2] ELSE Err(e)
Shared(e) ==
    LET want == IF Has(e, "k") THEN C!SharedKey(e.k, e.A, e.salt) ELSE << FALSE >> IN
    IF want[1] THEN Ok(e) /\ e.key = want[2] ELSE Err(e)
SharedSym(e) == Ok(e) /\ e.k1 = e.k2 /\ Len(e.k1) = 32

-----------------------------------------------------------------------------
(* P18 *)
NewPair(e) ==
    LET ownEngine == e.eng \in {"nil", "def", "ed"} IN
    IF ~Has(e, "A")
    THEN IF ~Has(e, "k") THEN Err(e)
         ELSE /\ Ok(e) /\ e.has /\ e.k2 = e.k
              /\ e.A2 = IF ownEngine THEN E!DerivePublic(e.k) ELSE Rep(<<107>>, 32)
    ELSE IF (IF ownEngine THEN Len(e.A) = 32 ELSE e.comp)
         THEN Ok(e) /\ e.has = Has(e, "k") /\ e.A2 = e.A /\ e.k2 = (IF Has(e, "k") THEN e.k ELSE <<>>)
         ELSE Err(e)
Compressed(e) == Ok(e) /\ e.v = (e.n = 32) /\ e.w = (e.n = 32)
SignNoKey(e) == Err(e) /\ ~e.has
Stub(e) ==
    LET two(a, b) == e.r1 = Rep(<<e.mark + a>>, 32) /\ e.r2 = Rep(<<e.mark + b>>, 32) IN
    /\ e.seen
    /\ CASE e.f = "sign" -> IF e.fail THEN Err(e) ELSE Ok(e) /\ two(1, 2)
         [] e.f \in {"verify", "canon"} -> Ok(e) /\ e.v = e.val
         [] e.f = "mkcanon" -> IF e.fail THEN Err(e) ELSE Ok(e) /\ two(3, 4)
         [] e.f = "gen" -> IF e.fail THEN Err(e) ELSE Ok(e) /\ two(5, 6)
         [] e.f = "enc" -> IF e.fail THEN Err(e) ELSE Ok(e) /\ e.r1 = Rep(<<e.mark + 8>>, 20)
         [] e.f = "dec" -> IF e.fail THEN Err(e) ELSE Ok(e) /\ e.r1 = Rep(<<e.mark + 9>>, 21)
(* every route to the same operation gives the same outcome *)
Lacking(e) == CASE e.f = "sign" -> ~Has(e, "k") [] e.f = "enc" -> ~Has(e, "sk") [] e.f = "dec" -> ~Has(e, "rk") [] OTHER -> FALSE
Dispatch(e) ==
    Ok(e) /\ Len(e.outs) >= 6
    /\ \A i \in 1..Len(e.outs) :
         LET o == e.outs[i] IN
         /\ o = e.outs[1] /\ o.st # "panic"
         /\ o.st = "err" => (Has(o, "nil") /\ o.nil)
         /\ Lacking(e) => o.st = "err"

-----------------------------------------------------------------------------
(* P19 *)
MAdd(e) == Ok(e) /\ Is(e.r, E!PAdd(PIn(e.p), PIn(e.q)))
MDbl(e) == Ok(e) /\ Is(e.r, E!PDbl(PIn(e.p)))
MNeg(e) == Ok(e) /\ Is(e.r, E!PNeg(PIn(e.p)))
MSMul(e) == Ok(e) /\ Is(e.r, E!ScalarMul(FEIn(e.f), PIn(e.p)))
MDSMul(e) == Ok(e) /\ Is(e.r, E!PSub(E!ScalarMul(FEIn(e.f), PIn(e.p)), E!ScalarMul(FEIn(e.g), PIn(e.q))))
MToRep(e) == Ok(e) /\ IsIn(e.r, e.to, PIn(e.p))
MToGroup(e) ==
    LET r == E!Decode(e.b) IN e.kept /\ IF r[1] THEN Ok(e) /\ IsIn(e.r, "P3", r[2]) ELSE Err(e)
MAffX(e) ==
    LET y == ToBytes(Mod(FromBytes(e.y), P), 32)
        r == E!Decode(IF e.neg THEN SetBit(y, 255) ELSE y)
    IN  e.kept /\ IF r[1] THEN Ok(e) /\ e.x = r[2][1] ELSE Err(e)
MToFE(e) == Ok(e) /\ e.kept /\ e.f = FEEnc(Mod(FromBytes(ClearBit(ToBytes(FromBytes(e.n), 32), 255)), P))
MBytes(e) ==
    LET n == FromBytes(e.b) IN
    /\ Ok(e) /\ e.n = n
    /\ Fits(n, 32) => e.b32 = ToBytes(n, 32) /\ e.e32 = ToBytes(n, 32) /\ e.kept
    /\ Len(e.b) \in {32, 64} => e.en = n
IntValue(f) ==    \* << negative, magnitude >> of the integer the limbs denote
    LET sum(sg) == FoldLeft(LAMBDA acc, i : IF sg * f[i] > 0 THEN Add(acc, Mul(FromNat(sg * f[i]), Pow2(W[i]))) ELSE acc,
                            Zero, [i \in 1..10 |-> i])
        p == sum(1)  n == sum(-1)
    IN  IF Lt(p, n) THEN << TRUE, Sub(n, p) >> ELSE << FALSE, Sub(p, n) >>
MLimbs(e) == Ok(e) /\ e.n = FEIn(e.f) /\ LET v == IntValue(e.f) IN e.vneg = v[1] /\ e.v = v[2]
MConst(e) ==
    /\ Ok(e) /\ e.D = D /\ e.P = P /\ e.L = L /\ e.fP = P
    /\ e.fz = FEEnc(Zero) /\ e.f1 = FEEnc(One) /\ e.f2 = FEEnc(Two)
    /\ e.fd = FEEnc(D) /\ e.fdd = FEEnc(D2) /\ e.fi = FEEnc(SqrtM1) /\ e.sq = FEEnc(SqrtM1)
    /\ e.fns = << FEEnc(Zero), FEEnc(One), FEEnc(Two), FEEnc(D), FEEnc(D2) >>
    /\ e.zs = Zeros(32) /\ e.zl = Zeros(64)
Distinct(vals) == \A i, j \in 1..Len(vals) : i # j => vals[i] # vals[j]
(* among n >= 80 random strings every bit that is free takes both values:  *)
(* the chance that one does not is below 2^-69                             *)
Varied(vals, fixed) ==
    \A j \in 1..Len(vals[1]), x \in 0..7 :
        << j, x >> \in fixed \/ Cardinality({(vals[i][j] \div 2^x) % 2 : i \in 1..Len(vals)}) = 2
MRand(e) ==
    /\ Ok(e) /\ Len(e.vals) = e.n /\ Distinct(e.vals)
    /\ (e.n >= 80 /\ e.kind # "fe") => Varied(e.vals, IF e.kind \in {"ef32", "ef64"} THEN {<< 32, 7 >>} ELSE {})
    /\ \A i \in 1..Len(e.vals) : LET b == e.vals[i] IN
         CASE e.kind = "fe" -> FEOutOK(b)
           [] e.kind \in {"ef32", "ef64"} -> Len(b) = (IF e.kind = "ef32" THEN 32 ELSE 64) /\ b[32] < 128
           [] e.kind = "ge" -> E!Decode(b)[1]
           [] e.kind = "ege" -> E!Decode(b)[1]
           [] e.kind = "bytes" -> Len(b) = e.len
           [] OTHER -> Len(b) = 8
    /\ e.kind = "ge" => Is(e.last, E!Decode(e.vals[e.n])[2])

-----------------------------------------------------------------------------
Allowed(e) ==
    \/ e.st = "noprobe"
    \/ CASE e.op = "sign" -> Sign(e) [] e.op = "signcanon" -> SignCanonical(e)
         [] e.op = "signmany" -> SignMany(e) [] e.op = "verifymany" -> VerifyMany(e)
         [] e.op = "signverify" -> SignVerify(e) [] e.op = "verify" -> Verify(e)
         [] e.op = "canon" -> Canon(e) [] e.op = "mkcanon" -> MkCanon(e)
         [] e.op = "derive" -> Derive(e) [] e.op = "secret" -> Secret(e) [] e.op = "hash" -> Hash(e)
         [] e.op = "priv" -> Priv(e) [] e.op = "pub" -> Pub(e) [] e.op = "sig" -> Sig(e)
         [] e.op = "fprog" -> FProg(e) [] e.op = "fenc" -> FEnc(e) [] e.op = "fdec" -> FDec(e)
         [] e.op = "feq" -> FEq(e) [] e.op = "enclen" -> EncLenOK(e)
         [] e.op = "modq" -> ModQ(e) [] e.op = "muladd" -> MulAdd(e)
         [] e.op = "genc" -> GEnc(e) [] e.op = "gdec" -> GDec(e) [] e.op = "ground" -> GRound(e)
         [] e.op = "gcurve" -> GCurve(e) [] e.op = "geq" -> GEq(e) [] e.op = "gconst" -> GConst(e)
         [] e.op = "gop" -> GOp(e) [] e.op = "gchain" -> GChain(e) [] e.op = "gselect" -> GSelect(e)
         [] e.op = "gsmul" -> GSMul(e) [] e.op = "gdsm" -> GDsm(e)
         [] e.op = "encdec" -> EncDec(e) [] e.op = "dec" -> Dec(e) [] e.op = "encround" -> EncRound(e)
         [] e.op = "shared" -> Shared(e) [] e.op = "sharedsym" -> SharedSym(e)
         [] e.op = "newpair" -> NewPair(e) [] e.op = "compressed" -> Compressed(e)
         [] e.op = "signnokey" -> SignNoKey(e) [] e.op = "stub" -> Stub(e) [] e.op = "dispatch" -> Dispatch(e)
         [] e.op = "madd" -> MAdd(e) [] e.op = "mdbl" -> MDbl(e) [] e.op = "mneg" -> MNeg(e)
         [] e.op = "msmul" -> MSMul(e) [] e.op = "mdsmul" -> MDSMul(e) [] e.op = "mtorep" -> MToRep(e)
         [] e.op = "mtogroup" -> MToGroup(e) [] e.op = "maffx" -> MAffX(e) [] e.op = "mtofe" -> MToFE(e)
         [] e.op = "mredq" -> ModQ(e) [] e.op = "mmuladd" -> MulAdd(e)
         [] e.op = "mbytes" -> MBytes(e) [] e.op = "mlimbs" -> MLimbs(e) [] e.op = "mconst" -> MConst(e)
         [] e.op = "mrand" -> MRand(e)
=============================================================================
