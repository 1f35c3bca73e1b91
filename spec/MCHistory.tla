------------------------------ MODULE MCHistory ------------------------------
(***************************************************************************)
(* Histories of calls on the caller's memory (P15).  Memory is a sequence  *)
(* of cells.  What a cell holds is a term: a constant of the caller's, or  *)
(* "the i-th result of call kind k on these contents" - the library's      *)
(* functions are uninterpreted, a call is a function of the contents of    *)
(* its cells and gives fresh cells, and a write of the caller replaces     *)
(* the contents of one cell only.                                          *)
(*                                                                         *)
(* The histories begin with a call, do a few things in between - other     *)
(* calls, with memory of their own, with the memory of the first call, or  *)
(* with what it returned; writes to what it was given or returned; a       *)
(* collection of garbage - and                                             *)
(* end with the first call again.  Each is printed as a program.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANT MaxBetween

(* cells a call is given: any bytes, or 32 of them; what it returns *)
Kind(a, r) == [args |-> a, res |-> r]
Table ==
    [sign |-> Kind(<< "any" >>, << "b32", "b32" >>), verify |-> Kind(<< "any", "b32", "b32" >>, <<>>),
     canon |-> Kind(<< "b32", "b32" >>, <<>>), mkcanon |-> Kind(<< "b32", "b32" >>, << "b32" >>),
     derive |-> Kind(<<>>, << "b32" >>), newpair |-> Kind(<<>>, << "b32" >>),
     enc |-> Kind(<< "any" >>, << "any" >>), dec |-> Kind(<< "any" >>, << "any" >>),
     shared |-> Kind(<< "b32" >>, << "b32" >>), hash |-> Kind(<< "any" >>, << "any" >>),
     sigbytes |-> Kind(<< "b32", "b32" >>, << "any" >>), sigstr |-> Kind(<< "b32", "b32" >>, <<>>),
     sigints |-> Kind(<< "b32", "b32" >>, << "b32", "b32" >>), keystr |-> Kind(<<>>, <<>>),
     keyhex |-> Kind(<<>>, << "b32", "b32" >>), keyint |-> Kind(<<>>, << "b32" >>),
     gdecenc |-> Kind(<< "b32" >>, <<>>), genc |-> Kind(<<>>, << "b32" >>), geq |-> Kind(<<>>, <<>>),
     gcurve |-> Kind(<<>>, <<>>), fdecenc |-> Kind(<< "b32" >>, << "b32" >>), affx |-> Kind(<< "b32" >>, <<>>),
     mredq |-> Kind(<< "b32" >>, << "b32" >>), mtogroup |-> Kind(<< "b32" >>, <<>>), madd |-> Kind(<<>>, << "b32" >>),
     mtorep |-> Kind(<<>>, <<>>), select |-> Kind(<<>>, <<>>), secret |-> Kind(<<>>, << "b32" >>),
     gen |-> Kind(<<>>, << "b32", "b32" >>), mneg |-> Kind(<<>>, << "b32" >>), mdbl |-> Kind(<<>>, << "b32" >>),
     mnum |-> Kind(<< "b32" >>, << "b32", "b32", "b32" >>)]
Names == TLCEval(DOMAIN Table)

VARIABLES cells,    \* contents, by position
          calls,    \* the calls made: kind, cells given, cells returned, outcome
          between, done, prog, fresh

vars == << cells, calls, between, done, prog, fresh >>
Const(n) == [c |-> n]
Outcome(k, given) == [k |-> k, of |-> given]
Part(k, given, i) == [k |-> k, of |-> given, part |-> i]

Init == cells = <<>> /\ calls = <<>> /\ between = 0 /\ done = FALSE /\ prog = <<>> /\ fresh = 0

(* a call on the cells in at; positions past the end are new constants *)
Make(k, at, mem, n) ==
    LET more == [i \in 1..n |-> Const(fresh + i)]
        all == mem \o more
        given == [i \in 1..Len(at) |-> all[at[i]]]
        nres == Len(Table[k].res)
    IN  /\ cells' = all \o [i \in 1..nres |-> Part(k, given, i)]
        /\ calls' = Append(calls, [k |-> k, at |-> at, res |-> [i \in 1..nres |-> Len(all) + i], was |-> Outcome(k, given)])
        /\ fresh' = fresh + n
New(k) == LET n == Len(Table[k].args) IN Make(k, [i \in 1..n |-> Len(cells) + i], cells, n)

First(k) ==
    /\ calls = <<>> /\ New(k)
    /\ prog' = << << "call", k >> >> /\ UNCHANGED << between, done >>
May == calls # <<>> /\ ~done /\ between < MaxBetween
Other(k) ==
    /\ May /\ New(k)
    /\ between' = between + 1 /\ prog' = Append(prog, << "call", k >>) /\ UNCHANGED done
(* the first argument is something the first call returned or was given *)
Fits(k, t) == Table[k].args # <<>> /\ (Table[k].args[1] = "any" \/ t = "b32")
With(k, at) ==
    LET n == Len(Table[k].args) - 1 IN
    Make(k, << at >> \o [i \in 1..n |-> Len(cells) + i], cells, n)
Uses(k, i) ==
    /\ May /\ i \in 1..Len(calls[1].res) /\ Fits(k, Table[calls[1].k].res[i])
    /\ With(k, calls[1].res[i])
    /\ between' = between + 1 /\ prog' = Append(prog, << "uses", k, i >>) /\ UNCHANGED done
Shares(k, i) ==
    /\ May /\ i \in 1..Len(calls[1].at) /\ Fits(k, Table[calls[1].k].args[i])
    /\ With(k, calls[1].at[i])
    /\ between' = between + 1 /\ prog' = Append(prog, << "shares", k, i >>) /\ UNCHANGED done
Overwrite(at, what, i) ==
    /\ cells' = [cells EXCEPT ![at] = Const(fresh + 1)] /\ fresh' = fresh + 1
    /\ between' = between + 1 /\ prog' = Append(prog, << what, "", i >>) /\ UNCHANGED << calls, done >>
WriteArg(i) == May /\ i \in 1..Len(calls[1].at) /\ Overwrite(calls[1].at[i], "warg", i)
WriteRes(i) == May /\ i \in 1..Len(calls[1].res) /\ Overwrite(calls[1].res[i], "wres", i)
Collect ==      \* garbage: nobody's memory
    /\ May /\ between' = between + 1 /\ prog' = Append(prog, << "gc" >>) /\ UNCHANGED << cells, calls, done, fresh >>
Again ==
    /\ calls # <<>> /\ ~done /\ between > 0
    /\ Make(calls[1].k, calls[1].at, cells, 0)
    /\ done' = TRUE /\ prog' = Append(prog, << "again" >>) /\ UNCHANGED between

Next == \/ \E k \in Names : First(k) \/ Other(k)
        \/ \E k \in Names, i \in 1..3 : Uses(k, i) \/ Shares(k, i)
        \/ \E i \in 1..3 : WriteArg(i) \/ WriteRes(i)
        \/ Collect
        \/ Again
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* no two cells of results are the same memory, nor memory of the caller's *)
Fresh == \A i, j \in 1..Len(calls) : i # j =>
            Range(calls[i].res) \cap (Range(calls[j].res) \cup IF j < i THEN Range(calls[j].at) ELSE {}) = {}
(* the outcome of the call made again is the old one exactly when none of  *)
(* the cells it was given was written                                      *)
Written == {prog[i][3] : i \in {j \in 1..Len(prog) : prog[j][1] = "warg"}}
Repeats == done => ((calls[Len(calls)].was = calls[1].was) = (Written = {}))
(* a result still is what it was unless the caller wrote it *)
Kept == \A i \in 1..Len(calls) : \A j \in 1..Len(calls[i].res) :
            \/ cells[calls[i].res[j]] = Part(calls[i].k, calls[i].was.of, j)
            \/ i = 1 /\ \E n \in 1..Len(prog) : prog[n] = << "wres", "", j >>
Emit == done => PrintT("PROG " \o ToJson([steps |-> prog, same |-> Written = {}]))
=============================================================================
