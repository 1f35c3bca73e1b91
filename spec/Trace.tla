-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every line of the trace file is one recorded history  *)
(* of the library; it is a behaviour of the specification iff every event  *)
(* is allowed in the state the events before it lead to.  The state of a   *)
(* history without shared objects is empty; Sessions.tla gives the state   *)
(* transitions of the others (entropy, memory, shared results).            *)
(*                                                                         *)
(* TLC explores one initial state per history.  A refused event is printed *)
(* and ends its history.                                                   *)
(***************************************************************************)
EXTENDS Sessions, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACES)
VARIABLES tid, l, env

Init == /\ ParametersOK
        /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ env = EmptyEnv

Next == /\ l <= Len(Traces[tid].ev)
        /\ UNCHANGED tid
        /\ LET e == Traces[tid].ev[l]
               s == Step(env, e)
           IN  IF s[1]
               THEN l' = l + 1 /\ env' = s[2]
               ELSE /\ PrintT("REJECT " \o ToString(tid) \o " " \o ToString(l))
                    /\ l' = IF Stateful(e) THEN Len(Traces[tid].ev) + 2 ELSE l + 1
                    /\ env' = env
=============================================================================
