------------------------------- MODULE Coords -------------------------------
(***************************************************************************)
(* The coordinate systems of a group element, for any curve instance.  An  *)
(* element is a record [cs, X, Y, Z, T] of field values; Affine(c) is the  *)
(* point it stands for, WellFormed(c) the conditions a representation has  *)
(* to meet.                                                                *)
(***************************************************************************)
EXTENDS Edwards

Quo(a, b) == FMul(a, FInv(b))
Half(a) == FMul(a, FInv(<<2>>))
D2 == FAdd(D, D)

Affine(c) ==
    CASE c.cs \in {"P2", "P3", "AFFINE"} -> << Quo(c.X, c.Z), Quo(c.Y, c.Z) >>
      [] c.cs = "P1xP1" -> << Quo(c.X, c.Z), Quo(c.Y, c.T) >>
      [] c.cs = "CACHED" -> << Half(Quo(FSub(c.X, c.Y), c.Z)), Half(Quo(FAdd(c.X, c.Y), c.Z)) >>
      [] c.cs = "PRECOMPUTED" -> << Half(FSub(c.X, c.Y)), Half(FAdd(c.X, c.Y)) >>

NonZero(a) == a # Zero

WellFormed(c) ==
    CASE c.cs = "P2" -> NonZero(c.Z)
      [] c.cs = "P3" -> NonZero(c.Z) /\ FMul(c.X, c.Y) = FMul(c.Z, c.T)
      [] c.cs = "AFFINE" -> c.Z = One
      [] c.cs = "P1xP1" -> NonZero(c.Z) /\ NonZero(c.T)
      [] c.cs = "CACHED" -> /\ NonZero(c.Z)
                            /\ LET a == Affine(c) IN c.T = FMul(D2, FMul(c.Z, FMul(a[1], a[2])))
      [] c.cs = "PRECOMPUTED" -> LET a == Affine(c) IN c.Z = FMul(D2, FMul(a[1], a[2]))
      [] OTHER -> FALSE

(* the element of that coordinate system with Z = 1 (and T = 1 for P1xP1) *)
Represent(cs, a) ==
    LET x == a[1]  y == a[2]  t == FMul(a[1], a[2]) IN
    CASE cs \in {"P2", "AFFINE"} -> [cs |-> cs, X |-> x, Y |-> y, Z |-> One, T |-> Zero]
      [] cs = "P3" -> [cs |-> cs, X |-> x, Y |-> y, Z |-> One, T |-> t]
      [] cs = "P1xP1" -> [cs |-> cs, X |-> x, Y |-> y, Z |-> One, T |-> One]
      [] cs = "CACHED" -> [cs |-> cs, X |-> FAdd(y, x), Y |-> FSub(y, x), Z |-> One, T |-> FMul(D2, t)]
      [] cs = "PRECOMPUTED" -> [cs |-> cs, X |-> FAdd(y, x), Y |-> FSub(y, x), Z |-> FMul(D2, t), T |-> Zero]

(* conversions the library documents *)
Converts(from, to) == \/ from = to
                      \/ from \in {"P3", "P1xP1"} /\ to = "P2"
                      \/ from = "P1xP1" /\ to = "P3"
                      \/ from = "P3" /\ to = "CACHED"
=============================================================================
