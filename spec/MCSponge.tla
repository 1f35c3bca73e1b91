------------------------------ MODULE MCSponge ------------------------------
(***************************************************************************)
(* A sponge that absorbs its input part by part (P17): the bytes that do   *)
(* not fill a block wait in a buffer.  Bytes are their positions in the    *)
(* concatenation of the parts.  At the end the blocks absorbed, padding    *)
(* included, must be those of the concatenation - for any way to split it. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Rate, PartLens, MaxParts
VARIABLES parts, waiting, blocks, final

vars == << parts, waiting, blocks, final >>
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Run(from, n) == [i \in 1..n |-> from + i]

(* the padding of m: 1 to Rate bytes, with a first and a last marked *)
Padding(len) ==
    LET q == Rate - (len % Rate) IN
    IF q = 1 THEN << "firstlast" >> ELSE << "first" >> \o [i \in 1..(q - 2) |-> "zero"] \o << "last" >>

(* cut s into whole blocks: << blocks, rest >> *)
Cut(s) == LET n == Len(s) \div Rate IN
          << [i \in 1..n |-> SubSeq(s, Rate * (i - 1) + 1, Rate * i)], SubSeq(s, Rate * n + 1, Len(s)) >>

Init == parts = <<>> /\ waiting = <<>> /\ blocks = <<>> /\ final = FALSE
Absorb(n) ==
    /\ ~final /\ Len(parts) < MaxParts
    /\ LET more == Run(Sum(parts), n)
           free == Rate - Len(waiting)
       IN  IF n < free
           THEN waiting' = waiting \o more /\ UNCHANGED blocks
           ELSE LET c == Cut(SubSeq(more, free + 1, n)) IN    \* fill the buffer, then whole blocks directly
                /\ blocks' = (Append(blocks, waiting \o SubSeq(more, 1, free))) \o c[1]
                /\ waiting' = c[2]
    /\ parts' = Append(parts, n) /\ UNCHANGED final
Finish ==
    /\ ~final /\ final' = TRUE
    /\ LET c == Cut(waiting \o Padding(Len(waiting))) IN blocks' = blocks \o c[1] /\ waiting' = c[2]
    /\ UNCHANGED parts
Next == (\E n \in PartLens : Absorb(n)) \/ Finish
Spec == Init /\ [][Next]_vars

Whole(len) == Cut(Run(0, len) \o Padding(len))
SameAsWhole == final => waiting = <<>> /\ blocks = Whole(Sum(parts))[1]
BufferNotFull == Len(waiting) < Rate
Emit == final => PrintT("PROG " \o ToJson([parts |-> parts, blocks |-> Len(blocks)]))
=============================================================================
