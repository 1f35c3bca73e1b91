----------------------------- MODULE MCDispatch -----------------------------
(***************************************************************************)
(* Key pairs, signers and ciphers made with different engines and used in  *)
(* any order (P18).  An object is bound, when it is made, to the keys and  *)
(* the engine it is given; what a use of it does is a function of these    *)
(* alone - not of the objects made before or after, nor of earlier uses.   *)
(* Outcomes are terms: "own" engines (nil means the default one) compute   *)
(* with the keys, custom engines answer with their mark.                   *)
(*                                                                         *)
(* Every THIN-th complete behaviour is printed as a program.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS PairKinds, MaxPairs, MaxWrap, MaxUses, Thin

Engines == << "nil", "ed", "s1", "s2" >>
Own(g) == g \in {"nil", "def", "ed"}
None == 0
(* [how, k, a, eng]: k, a number keys; 0 - none; 9 - a public key of a     *)
(* wrong length                                                            *)
Full(k, g) == [how |-> "new", k |-> k, a |-> None, eng |-> g]
Pub(a, g) == [how |-> "new", k |-> None, a |-> a, eng |-> g]
Both(k, a, g) == [how |-> "new", k |-> k, a |-> a, eng |-> g]
Gen(g) == [how |-> "gen", k |-> None, a |-> None, eng |-> g]
Small == << Full(1, "nil"), Pub(1, "nil"), Both(1, 2, "ed"), Full(2, "s1"), Gen("ed"), Gen("s2"), Pub(9, "ed"), Pub(9, "s1"),
            [how |-> "new", k |-> None, a |-> None, eng |-> "nil"] >>
Large == Small \o << Full(2, "def"), Pub(2, "s1"), Both(2, 1, "s2"), Gen("nil"), Both(1, 9, "ed"), Both(1, 1, "def") >>

VARIABLES pairs,   \* the pairs made: [priv, pub], terms
          wraps,   \* [t, s, r, eng, was]: was - the pairs it was made for, as they were
          uses,    \* the uses made, with their outcomes
          steps    \* the program, and a number for every step
vars == << pairs, wraps, uses, steps >>
Init == pairs = <<>> /\ wraps = <<>> /\ uses = <<>> /\ steps = <<>>

Derive(k) == << "pub", k >>
Fails(p) == /\ p.how = "new"
            /\ \/ p.k = None /\ p.a = None
               \/ p.a = 9 /\ Own(p.eng)
Made(p, n) ==
    IF p.how = "gen" THEN [priv |-> << "drawn", n, p.eng >>, pub |-> << "of", n, p.eng >>]
    ELSE [priv |-> IF p.k = None THEN << "none" >> ELSE << "priv", p.k >>,
          pub |-> IF p.a # None THEN << "pub", p.a >> ELSE IF Own(p.eng) THEN Derive(p.k) ELSE << "mark", p.eng >>]
Log(s) == steps' = Append(steps, s)
NewPair(i) ==
    /\ Len(pairs) < MaxPairs /\ wraps = <<>>
    /\ LET p == PairKinds[i] IN
       /\ pairs' = Append(pairs, IF Fails(p) THEN [priv |-> << "none" >>, pub |-> << "none" >>] ELSE Made(p, Len(pairs) + 1))
       /\ Log([op |-> "pair", n |-> i, how |-> p.how, k |-> p.k, a |-> p.a, eng |-> p.eng, fails |-> Fails(p)])
    /\ UNCHANGED << wraps, uses >>
Usable(i) == pairs[i].pub # << "none" >>
(* all pairs are made before the first wrapper: a pair has no state, and   *)
(* cannot notice                                                           *)
NewSigner(i, g) ==
    /\ Len(wraps) < MaxWrap /\ i \in DOMAIN pairs /\ Usable(i)
    /\ wraps' = Append(wraps, [t |-> "signer", s |-> i, r |-> i, eng |-> Engines[g], was |-> << pairs[i], pairs[i] >>])
    /\ Log([op |-> "signer", n |-> i * 7 + g, p |-> i, eng |-> Engines[g]])
    /\ UNCHANGED << pairs, uses >>
NewCipher(i, j, g) ==
    /\ Len(wraps) < MaxWrap /\ i \in DOMAIN pairs /\ j \in DOMAIN pairs /\ Usable(i) /\ Usable(j)
    /\ (Own(Engines[g]) => pairs[j].pub # << "pub", 9 >>)
    /\ wraps' = Append(wraps, [t |-> "cipher", s |-> i, r |-> j, eng |-> Engines[g], was |-> << pairs[i], pairs[j] >>])
    /\ Log([op |-> "cipher", n |-> i * 13 + j * 7 + g, p |-> i, q |-> j, eng |-> Engines[g]])
    /\ UNCHANGED << pairs, uses >>

(* what a wrapper does *)
Outcome(w, f) ==
    IF ~Own(w.eng) THEN << "mark", w.eng, f, w.s, w.r >>
    ELSE LET priv == IF f = "dec" THEN w.was[2].priv ELSE w.was[1].priv IN
         CASE f \in {"sign", "enc", "dec"} -> IF priv = << "none" >> THEN << "error" >> ELSE << f, w.was[1], w.was[2] >>
           [] f = "verify" -> << f, w.was[1].pub >>
Use(i, f) ==
    /\ i \in DOMAIN wraps /\ Len(uses) < MaxUses
    /\ f \in (IF wraps[i].t = "signer" THEN {"sign", "verify"} ELSE {"enc", "dec"})
    /\ uses' = Append(uses, [w |-> i, f |-> f, out |-> Outcome(wraps[i], f)])
    /\ Log([op |-> f, n |-> i * 5 + (IF f \in {"sign", "enc"} THEN 1 ELSE 2), w |-> i, fails |-> Outcome(wraps[i], f) = << "error" >>])
    /\ UNCHANGED << pairs, wraps >>
Next == \/ \E i \in DOMAIN PairKinds : NewPair(i)
        \/ \E i \in 1..MaxPairs, g \in DOMAIN Engines : NewSigner(i, g)
        \/ \E i, j \in 1..MaxPairs, g \in DOMAIN Engines : NewCipher(i, j, g)
        \/ \E i \in 1..MaxWrap, f \in {"sign", "verify", "enc", "dec"} : Use(i, f)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the objects stay what they were made as *)
Bound == \A i \in DOMAIN wraps : wraps[i].was = << pairs[wraps[i].s], pairs[wraps[i].r] >>
(* equal objects do the same, whenever they are used *)
Alike(v, w) == v.t = w.t /\ v.eng = w.eng /\ v.was = w.was /\ (Own(v.eng) \/ (v.s = w.s /\ v.r = w.r))
Functional == \A i, j \in DOMAIN uses :
    (Alike(wraps[uses[i].w], wraps[uses[j].w]) /\ uses[i].f = uses[j].f) => uses[i].out = uses[j].out
(* the engine used is the one given *)
Used == \A i \in DOMAIN uses : LET w == wraps[uses[i].w] IN
    (uses[i].out[1] = "mark") = ~Own(w.eng) /\ (~Own(w.eng) => uses[i].out[2] = w.eng)
(* nothing that needs a private key works without one *)
NeedsKey == \A i \in DOMAIN uses : LET w == wraps[uses[i].w] IN
    Own(w.eng) /\ uses[i].f # "verify" =>
        (uses[i].out = << "error" >>) = ((IF uses[i].f = "dec" THEN w.was[2] ELSE w.was[1]).priv = << "none" >>)
Number == FoldLeft(LAMBDA a, s : (a * 31 + s.n) % 10007, 7, steps)
Emit == (Len(uses) = MaxUses /\ Len(wraps) = MaxWrap /\ Number % Thin = 0) =>
            PrintT("PROG " \o ToJson([steps |-> steps]))
=============================================================================
