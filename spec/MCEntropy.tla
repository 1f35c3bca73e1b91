------------------------------ MODULE MCEntropy ------------------------------
(***************************************************************************)
(* The entropy source and its users (P12), one Read at a time.  A call     *)
(* needs 32 (key generation) or 32 + 16 (encryption) bytes and reads until *)
(* it has them; the source delivers what it likes - including nothing -    *)
(* and may fail at any moment: once, or for good, with or without data.    *)
(*                                                                         *)
(* Besides checking the invariants TLC prints every complete behaviour as  *)
(* a program for the trace driver: the portions, the failure, the calls.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Portions,   \* sizes the source may deliver
          MaxCuts, MaxCalls, MaxOnce
VARIABLES pos,     \* bytes delivered so far; the i-th byte of the source is i
          cuts, fail, \* what the source has done: portions, and how it failed
          once,    \* the positions at which it failed once
          left,    \* of the current portion, what the reader did not ask for
          calls, need, got, done

vars == << pos, cuts, fail, once, left, calls, need, got, done >>
Idle == need = 0
Kinds == [gen |-> << 32 >>, enc |-> << 32, 16 >>]      \* the reads of a call

Init == /\ pos = 0 /\ cuts = <<>> /\ fail = "no" /\ left = 0 /\ once = <<>>
        /\ calls = <<>> /\ need = 0 /\ got = <<>> /\ done = <<>>

Start(k) ==
    /\ Idle /\ Len(calls) < MaxCalls
    /\ calls' = Append(calls, k) /\ got' = <<>>
    /\ need' = FoldLeft(LAMBDA x, y : x + y, 0, Kinds[k])
    /\ UNCHANGED << pos, cuts, fail, once, left, done >>

(* the size of the Read the call is making: it asks for its parts in order *)
Asked == LET g == Len(got) IN IF need = 48 /\ g < 32 THEN 32 - g ELSE need - g
Take(n, avail) ==
    /\ got' = got \o [i \in 1..n |-> pos + i]
    /\ pos' = pos + n
    /\ left' = avail - n
    /\ IF Len(got') = need
       THEN done' = Append(done, [ok |-> TRUE, bytes |-> got', lost |-> 0]) /\ need' = 0
       ELSE UNCHANGED << done, need >>
Least(x, y) == IF x < y THEN x ELSE y
Deliver(c) ==       \* a new portion
    /\ ~Idle /\ left = 0 /\ fail = "no" /\ Len(cuts) < MaxCuts
    /\ IF c = 0 /\ cuts # <<>> THEN cuts[Len(cuts)] # 0 ELSE TRUE
    /\ cuts' = Append(cuts, c)
    /\ Take(Least(c, Asked), c)
    /\ UNCHANGED << fail, once, calls >>
Continue ==         \* the rest of a portion
    /\ ~Idle /\ left > 0 /\ Take(Least(left, Asked), left)
    /\ UNCHANGED << cuts, fail, once, calls >>
Fail(how) ==        \* "eof" or "err", now and at every later Read
    /\ ~Idle /\ left = 0
    /\ fail = "no" \/ fail = how
    /\ fail' = how /\ need' = 0
    /\ done' = Append(done, [ok |-> FALSE, bytes |-> <<>>, lost |-> Len(got)])
    /\ UNCHANGED << pos, cuts, once, left, calls, got >>
FailOnce ==         \* this Read only; the call fails, a later one goes on from here
    /\ ~Idle /\ left = 0 /\ fail = "no" /\ Len(once) < MaxOnce
    /\ once' = Append(once, pos) /\ need' = 0
    /\ done' = Append(done, [ok |-> FALSE, bytes |-> <<>>, lost |-> Len(got)])
    /\ UNCHANGED << pos, cuts, fail, left, calls, got >>

Next == \/ \E k \in DOMAIN Kinds : Start(k)
        \/ \E c \in Portions : Deliver(c)
        \/ Continue
        \/ \E h \in {"eof", "err"} : Fail(h)
        \/ FailOnce
Spec == Init /\ [][Next]_vars

(* a call that succeeds has exactly the bytes it needs, in order; no byte  *)
(* belongs to two calls, and bytes are skipped only by calls that failed   *)
Size(k) == FoldLeft(LAMBDA x, y : x + y, 0, Kinds[k])
Exact == \A i \in 1..Len(done) : done[i].ok =>
            LET b == done[i].bytes IN
            Len(b) = Size(calls[i]) /\ \A j \in 1..(Len(b) - 1) : b[j + 1] = b[j] + 1
NoReuse == \A i, j \in 1..Len(done) : i # j => Range(done[i].bytes) \cap Range(done[j].bytes) = {}
Prefix == Idle => pos = FoldLeft(LAMBDA x, r : x + Len(r.bytes) + r.lost, 0, done)
(* every failure of a call is a failure of the source, and every failure   *)
(* of the source is one of a call                                          *)
Failed == SelectSeq(done, LAMBDA r : ~r.ok)
Reported == Idle => /\ Len(Failed) >= Len(once)
                    /\ fail = "no" => Len(Failed) = Len(once)
                    /\ fail # "no" => Len(Failed) > Len(once) /\ ~done[Len(done)].ok

(* complete behaviours as programs *)
Complete == Idle /\ Len(calls) > 0 /\ (Len(calls) = MaxCalls \/ fail # "no")
Emit == Complete => PrintT("PROG " \o ToJson([cuts |-> cuts, end |-> fail, once |-> once, calls |-> calls, left |-> left,
                                              ok |-> [i \in 1..Len(done) |-> done[i].ok]]))
=============================================================================
