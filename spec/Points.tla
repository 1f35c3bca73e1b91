------------------------------- MODULE Points -------------------------------
(* The coordinate systems (Coords.tla) of the library's curve.              *)
EXTENDS Ed25519
Co == INSTANCE Coords WITH EncLen <- 32

Quo(a, b) == Co!Quo(a, b)
Affine(c) == Co!Affine(c)
WellFormed(c) == Co!WellFormed(c)
Represent(cs, a) == Co!Represent(cs, a)
D2 == E!FAdd(D, D)
=============================================================================
