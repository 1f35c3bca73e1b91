------------------------------- MODULE MCMemo -------------------------------
(***************************************************************************)
(* Which histories of calls tell a function from one that remembers.       *)
(* A call has n aspects (the head of the key, the tail of the message, the *)
(* sign of the point ...), each as in the base call or changed.  An        *)
(* implementation may remember earlier results under a part of the call -  *)
(* the aspects in kept - in one entry (the last one, or the first one), in *)
(* a table, or in slots that one aspect chooses.  Whatever it is, after    *)
(* Walk it has given a wrong result unless it keeps every aspect.  The     *)
(* results are all different ("all"), or only the base call's is ("base":  *)
(* a verification).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxAspects
VARIABLES n, kept, policy, kind, i, memo, wrong
vars == << n, kept, policy, kind, i, memo, wrong >>

Bit(x, k) == (x \div 2^k) % 2
Gray(m, x) == [a \in 1..m |-> (Bit(x, a - 1) + Bit(x, a)) % 2]
Only(m, a) == [b \in 1..m |-> IF a = b THEN 1 ELSE 0]
Base(m) == [a \in 1..m |-> 0]
(* the base call between calls that differ from it in one aspect, then all *)
(* calls, each differing from the one before in one aspect, then the base  *)
Walk(m) == [x \in 1..(2 * m) |-> IF x % 2 = 1 THEN Base(m) ELSE Only(m, x \div 2)]
           \o [x \in 1..2^m |-> Gray(m, x - 1)] \o << Base(m) >>

Init ==
    /\ n \in 1..MaxAspects /\ kept \in SUBSET (1..n) /\ policy \in {ToString(p) : p \in 1..n} \cup {"last", "first", "table"}
    /\ kind \in {"all", "base"} /\ i = 0 /\ memo = {} /\ wrong = FALSE

Under(x) == [a \in kept |-> x[a]]
Result(x) == IF kind = "all" THEN x ELSE << x = Base(n) >>
Slot(x) == IF policy \in {"last", "first", "table"} THEN 0 ELSE x[CHOOSE a \in 1..n : ToString(a) = policy]
Step ==
    /\ i < Len(Walk(n))
    /\ LET x == Walk(n)[i + 1]
           hit == {r \in memo : r.key = Under(x) /\ r.slot = Slot(x)}
           new == [key |-> Under(x), slot |-> Slot(x), res |-> Result(x)]
       IN  IF hit # {}
           THEN /\ wrong' = (wrong \/ \E r \in hit : r.res # Result(x))
                /\ UNCHANGED memo
           ELSE /\ UNCHANGED wrong
                /\ memo' = CASE policy = "table" -> memo \cup {new}
                             [] policy = "first" -> IF memo = {} THEN {new} ELSE memo
                             [] OTHER -> {r \in memo : r.slot # new.slot} \cup {new}
    /\ i' = i + 1 /\ UNCHANGED << n, kept, policy, kind >>
Spec == Init /\ [][Step]_vars

Done == i = Len(Walk(n))
(* the aspect that chooses the slot need not be in the key *)
Complete == kept \cup {a \in 1..n : ToString(a) = policy} = 1..n
Exposed == Done => (wrong <=> ~Complete)
AtMostTwoSlots == Cardinality({r.slot : r \in memo}) <= 2
Emit == (Done /\ kept = 1..n /\ policy = "last" /\ kind = "all") => PrintT("PROG " \o ToJson([n |-> n, walk |-> Walk(n)]))
=============================================================================
