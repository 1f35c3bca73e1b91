---------------------------- MODULE MCInterleave ----------------------------
(***************************************************************************)
(* P12 and P16: threads that draw from one entropy source through shared   *)
(* generators and ciphers.  One Read is atomic; a call is a sequence of    *)
(* Reads with the calls of other threads in between.                       *)
(*                                                                         *)
(* Every complete behaviour is printed as a program: who calls what, and   *)
(* in which order the Reads happen.  The trace driver makes the threads    *)
(* take their turns in that order.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS Shapes,   \* how many calls each thread makes
          Ends      \* the source may end after so many bytes
VARIABLES plan, limit, \* never change
          ready,    \* ready[t]: the call thread t makes, the Read it is at
          taken,    \* taken[t][c]: the bytes call c of thread t got
          stream, turns

vars == << plan, limit, ready, taken, stream, turns >>
Reads == [gen |-> << 32 >>, enc |-> << 32, 16 >>]
Threads == 1..Len(plan)
Done(t) == ready[t][1] > Len(plan[t])
Kind(t) == plan[t][ready[t][1]]
SizeOf(k) == FoldLeft(LAMBDA x, y : x + y, 0, Reads[k])

Total(p) == FoldLeft(LAMBDA n, ks : n + FoldLeft(LAMBDA m, k : m + SizeOf(k), 0, ks), 0, p)
Kinds == {"gen", "enc"}
Small == {<< 2, 2 >>, << 1, 1, 1 >>}
Large == Small \cup {<< 2, 2, 1 >>, << 3, 2 >>}
PlansOf(n) == {p \in [1..Len(n) -> UNION {[1..n[i] -> Kinds] : i \in 1..Len(n)}] :
                 \A i \in 1..Len(n) : Len(p[i]) = n[i]}
Plans == TLCEval(UNION {PlansOf(n) : n \in Shapes})
Init == /\ plan \in Plans
        /\ limit \in {Total(plan)} \cup {x \in Ends : x < Total(plan)}
        /\ ready = [t \in Threads |-> << 1, 1 >>]
        /\ taken = [t \in Threads |-> [c \in 1..Len(plan[t]) |-> <<>>]]
        /\ stream = 0 /\ turns = <<>>

(* the next Read of thread t: what is left of the source, if that is less *)
Read(t) ==
    /\ ~Done(t)
    /\ LET c == ready[t][1]  i == ready[t][2]  n == Reads[Kind(t)][i]
           last == i = Len(Reads[Kind(t)])
           got == IF stream + n <= limit THEN n ELSE limit - stream
       IN  /\ stream' = stream + got
           /\ taken' = [taken EXCEPT ![t][c] = @ \o [j \in 1..got |-> stream + j]]
           /\ ready' = [ready EXCEPT ![t] = IF last \/ got < n THEN << c + 1, 1 >> ELSE << c, i + 1 >>]
    /\ turns' = Append(turns, t)
    /\ UNCHANGED << plan, limit >>
Next == \E t \in Threads : Read(t)
Spec == Init /\ [][Next]_vars

Calls == {<< t, c >> : t \in Threads, c \in 1..3}
Real == {x \in Calls : x[2] <= Len(plan[x[1]])}
Bytes(x) == {taken[x[1]][x[2]][i] : i \in 1..Len(taken[x[1]][x[2]])}
NoReuse == \A x, y \in Real : x # y => Bytes(x) \cap Bytes(y) = {}
Finished(x) == ready[x[1]][1] > x[2]
Succeeded(x) == Finished(x) /\ Len(taken[x[1]][x[2]]) = SizeOf(plan[x[1]][x[2]])
Conserved == stream = FoldSet(LAMBDA x, n : n + Cardinality(Bytes(x)), 0, Real)
(* what a successful call has, the thread's Reads delivered in that order *)
InOrder == \A x \in Real : LET b == taken[x[1]][x[2]] IN \A i \in 1..(Len(b) - 1) : b[i] < b[i + 1]
(* a failure is for everyone: no call that begins after it succeeds *)
Sticky == \A x \in Real : (Finished(x) /\ ~Succeeded(x)) => stream = limit
Complete == \A t \in Threads : Done(t)
Emit == Complete => PrintT("PROG " \o ToJson([plan |-> plan, limit |-> limit, turns |-> turns,
            ok |-> [t \in Threads |-> [c \in 1..Len(plan[t]) |-> Succeeded(<< t, c >>)]]]))
=============================================================================
