------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* The stateful part of the specification: what a history of calls may do  *)
(* to the state its calls share.                                           *)
(*   data, pos  the entropy source: its bytes and how many were consumed   *)
(*   fails      the positions at which it still is to fail once (P12)      *)
(*   panics     whether these failures are panics                          *)
(*   mem        the caller-visible memory: name |-> bytes, results of      *)
(*              earlier calls included (P15)                               *)
(*   obj        the key pairs, signers and ciphers of the history: what     *)
(*              each was made with (P18; MCDispatch.tla has the design)    *)
(***************************************************************************)
EXTENDS Streams

Empty == [n \in {} |-> 0]
EmptyEnv == [data |-> <<>>, pos |-> 0, fails |-> <<>>, panics |-> FALSE, mem |-> Empty, obj |-> Empty]

Stateful(e) == e.op \in {"reader", "genkey", "enc", "hbuf", "hpair", "hsigner", "hcipher", "helem",
                         "hwrite", "hcall", "hgc", "htables", "conc", "par", "turns", "wpair", "wgen", "wsigner", "wcipher", "wuse"}

-----------------------------------------------------------------------------
(* P12: what n bytes of entropy a call gets, and what it may consume *)
Left(s) == Len(s.data) - s.pos
Next32(s) == SubSeq(s.data, s.pos + 1, s.pos + 32)
Next48(s) == SubSeq(s.data, s.pos + 1, s.pos + 48)

(* the call succeeds iff the source gives n more bytes without failing     *)
(* (which is also what MCEntropy.tla foretold, where the history is one of *)
(* its behaviours)                                                         *)
Gives(s, n) == Left(s) >= n /\ (s.fails = <<>> \/ s.fails[1] >= s.pos + n)
(* a call that fails says how far it got, and which failures are left *)
Gone(e) == IF Has(e, "fails") THEN e.fails ELSE 0
(* (a panic of the source may come through)                                *)
Failing(s, e, most) ==
    << /\ Err(e) \/ (s.panics /\ Gone(e) > 0 /\ e.st = "panic")
       /\ e.pos >= s.pos /\ e.pos <= Len(s.data) /\ e.pos <= s.pos + most
       /\ Gone(e) <= Len(s.fails)
       /\ \A i \in 1..Gone(e) : s.fails[i] <= e.pos
       /\ \A i \in (Gone(e) + 1)..Len(s.fails) : s.fails[i] >= e.pos,
       [s EXCEPT !.pos = e.pos, !.fails = IF Gone(e) <= Len(@) THEN SubSeq(@, Gone(e) + 1, Len(@)) ELSE <<>>] >>
Consumes(s, e, n, result) ==
    IF Has(e, "succeeds") /\ e.succeeds # Gives(s, n) THEN << FALSE, s >> ELSE
    IF Gives(s, n)
    THEN << Ok(e) /\ e.pos = s.pos + n /\ Gone(e) = 0 /\ result, [s EXCEPT !.pos = @ + n] >>
    ELSE Failing(s, e, Len(s.data))

(* a source may use the library itself while it is read: its calls are     *)
(* calls like any other                                                    *)
Inner(e) == Has(e, "inner") => \A i \in 1..Len(e.inner) : AllowedCall(e.inner[i])
Both(p, step) == << p /\ step[1], step[2] >>

GenKey(s, e) == Consumes(s, e, 32, e.k = Next32(s) /\ e.has /\ (Flag(e, "chk") => e.A = E!DerivePublic(e.k)))
(* an unusable recipient key is an error whatever the source gives *)
Enc(s, e) ==
    IF Has(e, "sk") /\ Has(e, "rA") /\ E!Decode(e.rA)[1]
    THEN Consumes(s, e, 48, Len(e.c) = 48 + 16 * ((Len(Msg(e)) \div 16) + 1) /\ SubSeq(e.c, 1, 48) = Next48(s)
                         /\ (Flag(e, "chk") => C!EncryptWith(e.sk, e.rA, SubSeq(Next48(s), 1, 32), SubSeq(Next48(s), 33, 48), Msg(e)) = << TRUE, e.c >>))
    ELSE Failing(s, e, 48)

-----------------------------------------------------------------------------
(* P15: memory *)
NoChange(e) == e.delta = <<>>
Write(old, at, d) == [i \in 1..Len(old) |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE old[i]]
(* a write by the caller shows in the buffer written, and nowhere else *)
HWrite(s, e) ==
    LET old == s.mem[e.h]  new == Write(old, e.at, e.data)
        want == IF new = old THEN <<>> ELSE << [h |-> e.h, b |-> new] >>
    IN  << e.delta = want, [s EXCEPT !.mem[e.h] = new] >>
(* A call changes no memory, and its result is the one it has alone: e.ref *)
(* is the outcome of the same call with the same bytes in a process of its *)
(* own.  Its results are fresh memory.                                     *)
Fresh(s, e) ==
    LET n == IF Len(e.res) < Len(e.out) THEN Len(e.res) ELSE Len(e.out)
    IN  [h \in {e.out[i] : i \in 1..n} |-> e.res[CHOOSE i \in 1..n : e.out[i] = h]]
HCall(s, e) ==
    << NoChange(e) /\ e.st # "panic" /\ e.got = e.ref, [s EXCEPT !.mem = Fresh(s, e) @@ @] >>

(* P16: every outcome of the call, made by many goroutines on the shared   *)
(* objects, is the outcome of the call alone; the race detector reported   *)
(* no pair of conflicting unsynchronised accesses.                         *)
Conc(s, e) ==
    << /\ Ok(e)
       /\ \A i \in 1..Len(e.calls) : LET c == e.calls[i] IN
            /\ c.runs > 0
            /\ \A j \in 1..Len(c.outs) : c.outs[j] = c.ref /\ c.ref.st # "panic"
       /\ Has(e, "delta") => NoChange(e), s >>
(* P12, P16: threads that draw from one source through one generator and    *)
(* one cipher.  e.log says which call of which thread got the next bytes   *)
(* of the source (0: nobody knows); a call that got all it needs succeeds  *)
(* with exactly these.                                                     *)
Turns(s, e) ==
    LET known == \A i \in 1..Len(e.log) : e.log[i][1] # 0
        upto(i) == FoldLeft(LAMBDA n, x : n + x[3], 0, SubSeq(e.log, 1, i))
        bytes(t, c) == FoldLeft(LAMBDA b, i : IF e.log[i][1] = t /\ e.log[i][2] = c
                                              THEN b \o SubSeq(e.data, upto(i - 1) + 1, upto(i)) ELSE b,
                                <<>>, [i \in 1..Len(e.log) |-> i])
        need(o) == IF o.k = "gen" THEN 32 ELSE 48
        outs == FoldLeft(LAMBDA x, y : x \o y, <<>>, e.outs)
        good == SelectSeq(outs, LAMBDA o : o.st = "ok")
    IN
    << /\ Ok(e) /\ upto(Len(e.log)) = e.pos
       /\ Len(e.outs) = Len(e.plan)
       /\ \A t \in 1..Len(e.plan) :
            /\ Len(e.outs[t]) = Len(e.plan[t])
            /\ \A c \in 1..Len(e.plan[t]) :
                 LET o == e.outs[t][c] IN
                 /\ o.k = e.plan[t][c] /\ (Ok(o) \/ Err(o))
                 /\ Ok(o) => Len(o.b) = need(o) /\ (o.k = "enc" => o.same /\ o.n = 96)
                 /\ known => LET b == bytes(t, c) IN
                             /\ Ok(o) = (Len(b) = need(o))
                             /\ Ok(o) => o.b = b
       /\ \A i, j \in 1..Len(good) : i # j => SubSeq(good[i].b, 1, 32) # SubSeq(good[j].b, 1, 32)
       /\ (Len(good) = Len(outs)) => e.pos = FoldLeft(LAMBDA n, o : n + need(o), 0, outs), s >>
(* P18: a pair holds the keys it was given, or those its engine makes; a    *)
(* signer or cipher does what its engine does with the pairs it was made   *)
(* for, whatever was made or used before.  A custom engine answers with    *)
(* its mark and says which pairs and message it got.                       *)
OwnEngine(g) == g \in {"nil", "def", "ed"}
MarkOf(g) == IF g = "s1" THEN 10 ELSE 60
Marked(g, n, k) == Rep(<< MarkOf(g) + k >>, n)
Put(s, e, o) == [s EXCEPT !.obj = (e.h :> o) @@ @]
WPair(s, e) ==
    LET good == IF Has(e, "A") THEN ~OwnEngine(e.eng) \/ Len(e.A) = 32 ELSE Has(e, "k")
        priv == IF Has(e, "k") THEN e.k ELSE <<>>
        pub == CASE Has(e, "A") -> e.A
                 [] ~Has(e, "A") /\ OwnEngine(e.eng) -> E!DerivePublic(e.k)
                 [] OTHER -> Marked(e.eng, 32, 7)
    IN  IF ~good THEN << Err(e), s >>
        ELSE << Ok(e) /\ e.has = Has(e, "k") /\ e.k2 = priv /\ e.A2 = pub, Put(s, e, [has |-> Has(e, "k"), k |-> priv, A |-> pub]) >>
WGen(s, e) ==
    << /\ Ok(e) /\ e.has /\ Len(e.k2) = 32
       /\ IF OwnEngine(e.eng) THEN e.A2 = E!DerivePublic(e.k2) ELSE e.k2 = Marked(e.eng, 32, 5) /\ e.A2 = Marked(e.eng, 32, 6),
       Put(s, e, [has |-> TRUE, k |-> e.k2, A |-> e.A2]) >>
WMake(s, e) == << Ok(e), Put(s, e, [s |-> e.p, r |-> IF e.op = "wcipher" THEN e.q ELSE e.p, eng |-> e.eng]) >>
WUse(s, e) ==
    LET o == s.obj[e.h]  from == s.obj[o.s]  to == s.obj[o.r]
        pub == E!Decode((IF e.f = "dec" THEN from ELSE to).A)
        own == CASE e.f = "sign" -> IF from.has
                                    THEN Ok(e) /\ LET g == E!SignAs(from.k, from.A, e.m) IN e.r = g[1] /\ e.s = g[2]
                                    ELSE Err(e)
                 [] e.f = "verify" -> Ok(e) /\ e.v = E!Verify(from.A, e.m, e.r, e.s)
                 [] e.f = "enc" -> IF from.has /\ pub[1]
                                   THEN /\ Ok(e) /\ Len(e.out) = 48 + 16 * ((Len(e.m) \div 16) + 1)
                                        /\ C!EncryptWith(from.k, to.A, SubSeq(e.out, 1, 32), SubSeq(e.out, 33, 48), e.m) = << TRUE, e.out >>
                                   ELSE Err(e)
                 [] e.f = "dec" -> LET want == IF to.has THEN C!Decrypt(to.k, from.A, e.m) ELSE << FALSE >> IN
                                   IF want[1] THEN Ok(e) /\ e.out = want[2] ELSE Err(e)
        custom == CASE e.f = "sign" -> Ok(e) /\ e.r = Marked(o.eng, 32, 1) /\ e.s = Marked(o.eng, 32, 2)
                    [] e.f = "verify" -> Ok(e) /\ e.v = (Len(e.r) = 0 \/ e.r[1] % 2 = 0)
                    [] e.f = "enc" -> Ok(e) /\ e.out = Marked(o.eng, 20, 8)
                    [] e.f = "dec" -> Ok(e) /\ e.out = Marked(o.eng, 21, 9)
    IN  << IF OwnEngine(o.eng) THEN own /\ ~Has(e, "saw")
           ELSE custom /\ Has(e, "saw") /\ e.saw = [f |-> e.f, m |-> e.m, s |-> o.s, r |-> o.r, mark |-> MarkOf(o.eng)], s >>
Races(s, e) == << e.n = 0, s >>
(* calls that share nothing but the library, made at the same time: each   *)
(* outcome is one the call may have alone                                  *)
Par(s, e) == << Ok(e) /\ e.runs > 0 /\ \A i \in 1..Len(e.outs) : AllowedCall(e.outs[i]), s >>

Step(s, e) ==
    CASE e.op = "reader" -> << Ok(e), [s EXCEPT !.data = e.data, !.pos = 0, !.fails = IF Has(e, "once") THEN e.once ELSE <<>>,
                                            !.panics = Flag(e, "panics")] >>
      [] e.op = "genkey" -> Both(Inner(e), GenKey(s, e))
      [] e.op = "enc" -> Both(Inner(e), Enc(s, e))
      [] e.op = "hbuf" -> << Ok(e) /\ NoChange(e), [s EXCEPT !.mem = (e.h :> e.full) @@ @] >>
      [] e.op \in {"hpair", "hsigner", "hcipher", "helem"} -> << Ok(e) /\ (Has(e, "delta") => NoChange(e)), s >>
      [] e.op \in {"htables", "hgc"} -> << Ok(e) /\ NoChange(e), s >>
      [] e.op = "hwrite" -> HWrite(s, e)
      [] e.op = "hcall" -> HCall(s, e)
      [] e.op = "conc" -> Conc(s, e)
      [] e.op = "turns" -> Turns(s, e)
      [] e.op = "wpair" -> WPair(s, e)
      [] e.op = "wgen" -> WGen(s, e)
      [] e.op \in {"wsigner", "wcipher"} -> WMake(s, e)
      [] e.op = "wuse" -> WUse(s, e)
      [] e.op = "races" -> Races(s, e)
      [] e.op = "par" -> Par(s, e)
      [] OTHER -> << AllowedCall(e), s >>
=============================================================================
