------------------------------ MODULE EvalNames ------------------------------
(* Tells which overriders of the worlds in a file are added to which method *)
(* (0: to none; -1: not with these parameters).                             *)
EXTENDS Names, TLC, Json, IOUtils

Worlds == ndJsonDeserialize(IOEnv.WORLDS)
Of(w) == LET u == Inh(w)
         IN [o \in DOMAIN w.ov |-> LET m == MethodOf(w, u, o)
                                   IN IF m = 0 THEN 0 ELSE IF Accepted_(w, u, o) THEN m ELSE -1]
ASSUME ndJsonSerialize(IOEnv.RESULT, [i \in DOMAIN Worlds |-> [m |-> Of(Worlds[i])]])
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
==============================================================================
