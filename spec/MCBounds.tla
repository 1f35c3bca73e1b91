------------------------------ MODULE MCBounds ------------------------------
(***************************************************************************)
(* P07: the limbs of a field element.  A register holds, limb by limb, the *)
(* largest magnitude a value that gets there can have; the operations are  *)
(* those of the library on such bounds, at the real size: ten limbs of 26  *)
(* and 25 bits in turn, products with their factors 2 and 19, and the      *)
(* chain of rounding carries.                                              *)
(*                                                                         *)
(* Whatever is composed within the documented preconditions, no limb ever  *)
(* leaves 64 bits, and a product is again in the bounds it needs.  The     *)
(* formulas of the group operations stay within the preconditions.         *)
(* Every sequence of operations is also printed as a program.              *)
(***************************************************************************)
EXTENDS BigNat, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps, Inputs
VARIABLES regs, code, safe, start

Limbs == [i \in 1..10 |-> i]
Even(i) == i % 2 = 1                    \* limbs 0, 2, ... of the library
Width(i) == IF Even(i) THEN 26 ELSE 25
Bounds(e, o) == [i \in 1..10 |-> FromNat(IF Even(i) THEN e ELSE o)]
Pre == Bounds(110729625, 55364812)      \* 1.65 2^26, 1.65 2^25: multiplication
Narrow == Bounds(36909875, 18454937)    \* 1.1 2^25, 1.1 2^24: addition
Wide == Bounds(73819750, 36909875)      \* 1.1 2^26, 1.1 2^25: encoding
Unit == Bounds(33554432, 16777216)      \* 2^25, 2^24
Max63 == Sub(Pow2(63), One)

Within(a, b) == \A i \in 1..10 : Le(a[i], b[i])
Plus(a, b) == [i \in 1..10 |-> Add(a[i], b[i])]

(* a product before the carries *)
Term(a, b, i, j) ==
    LET m == Mul(a[i], b[j])
        n == IF ~Even(i) /\ ~Even(j) THEN Add(m, m) ELSE m
    IN  IF i + j - 1 > 10 THEN Mul(n, <<19>>) ELSE n
Product(a, b) ==
    [k \in 1..10 |-> FoldLeft(LAMBDA s, i : LET j == IF k - i + 1 >= 1 THEN k - i + 1 ELSE k - i + 11 IN Add(s, Term(a, b, i, j)),
                              Zero, Limbs)]
(* one carry out of limb i; the limb keeps a rounding remainder *)
Carry(h, i) ==
    LET half == Pow2(Width(i) - 1)
        c == Div(Add(h[i], half), Pow2(Width(i)))
        n == IF i = 10 THEN 1 ELSE i + 1
    IN  [h EXCEPT ![i] = IF Lt(h[i], half) THEN h[i] ELSE half, ![n] = Add(@, IF i = 10 THEN Mul(c, <<19>>) ELSE c)]
Chain == << 1, 5, 2, 6, 3, 7, 4, 8, 5, 9, 10, 1 >>
Fits63(h) == \A i \in 1..10 : Le(Add(h[i], Pow2(25)), Max63)
(* << no overflow anywhere, the bounds at the end >> *)
Carried(h) == FoldLeft(LAMBDA st, i : LET n == Carry(st[2], i) IN << st[1] /\ Fits63(n), n >>, << Fits63(h), h >>, Chain)
Times(a, b) == Carried(Product(a, b))
Twice(h) == Carried([i \in 1..10 |-> Add(h[i], h[i])])

-----------------------------------------------------------------------------
(* registers *)
Input(n) == CASE n = "narrow" -> Narrow [] n = "pre" -> Pre [] n = "unit" -> Unit
Init == /\ start \in Inputs \X Inputs
        /\ regs = << Input(start[1]), Input(start[2]) >>
        /\ code = <<>> /\ safe = TRUE
Do(op, i, j, r) ==      \* r: << no overflow, bounds >>
    /\ regs' = Append(regs, r[2]) /\ code' = Append(code, << op, i, j >>) /\ safe' = (safe /\ r[1])
    /\ UNCHANGED start
InPre(i) == Within(regs[i], Pre)
More == Len(code) < MaxOps
Add2(op, i, j) == More /\ Within(Plus(regs[i], regs[j]), Pre) /\ Do(op, i, j, << TRUE, Plus(regs[i], regs[j]) >>)
Neg1(i) == More /\ Do("negate", i, i, << TRUE, regs[i] >>)
Mul2(i, j) == More /\ InPre(i) /\ InPre(j) /\ Do("multiply", i, j, Times(regs[i], regs[j]))
Sq(i) == More /\ InPre(i) /\ Do("square", i, i, Times(regs[i], regs[i]))
SqD(i) == More /\ InPre(i) /\ Do("squareAndDouble", i, i, Twice(Product(regs[i], regs[i])))
Next == \E i \in 1..Len(regs) :
          \/ Neg1(i) \/ Sq(i) \/ SqD(i)
          \/ \E j \in 1..Len(regs) : Add2("add", i, j) \/ Add2("subtract", i, j) \/ Mul2(i, j)
Spec == Init /\ [][Next]_<< regs, code, safe, start >>

NoOverflow == safe
(* what carries leave: within what addition needs, and so sums are within  *)
(* what encoding needs                                                     *)
Products == \A k \in 1..Len(code) : code[k][1] \in {"multiply", "square", "squareAndDouble"} =>
               Within(regs[k + 2], Narrow) /\ Within(Plus(regs[k + 2], regs[k + 2]), Wide)
Emit == Len(code) = MaxOps =>
    PrintT("PROG " \o ToJson([start |-> start, code |-> code]))

-----------------------------------------------------------------------------
(* The group formulas, with coordinates that are products (or decoded, or  *)
(* negated): every operand of a multiplication is within its precondition. *)
C == Times(Pre, Pre)[2]
FormulasOK ==
    LET s == Plus(C, C) t == Plus(s, C) IN
    /\ Within(s, Pre)   \* X+Y, Y-X, 2Z, yy+xx, yy-xx
    /\ Within(t, Pre)   \* (X+Y)^2 - (yy+xx), 2zz - (yy-xx), 2z + t: coordinates of P1xP1 elements
    /\ Times(t, t)[1] /\ Within(Times(t, t)[2], Narrow)
    /\ Within(Plus(s, Narrow), Pre)     \* with a decoded or negated coordinate
ASSUME FormulasOK
ASSUME Times(Pre, Pre)[1] /\ Twice(Product(Pre, Pre))[1]
=============================================================================
