------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Calls made by several threads.  A call is not atomic: it reads the      *)
(* v-table of each argument in turn, then the dispatch table, and then     *)
(* runs what it found.  Between two steps, other threads may take any      *)
(* number of steps.                                                        *)
(*                                                                         *)
(* pub      what the last `initialize` published: inheritance u, virtual   *)
(*          parameters vps and their slots, plan of the method, groups,    *)
(*          and dispatch table (see Compiler)                              *)
(* thr[t]   where thread t is in its call; everything a call needs to      *)
(*          remember is here, and belongs to the thread                    *)
(*                                                                         *)
(* `initialize` is the only step that writes `pub`, and the program must   *)
(* not make it while a call is in progress.                                *)
(***************************************************************************)
EXTENDS Compiler

CONSTANTS Thread,
          Shared   \* FALSE.  TRUE: calls use one variable of the registry for
                   \* the index they compute, a mistake that the model detects

VARIABLES pub, thr, scratch
tvars == <<pub, thr, scratch>>

Idle == [pc |-> 0, args |-> <<>>, acc |-> 0, out |-> {}]

Quiet == \A t \in Thread : thr[t].pc = 0

Arity == Len(pub.plan.p)

Begin(t, a) ==
  /\ thr[t].pc = 0
  /\ a \in Accepts(pub.u, pub.plan)
  /\ thr' = [thr EXCEPT ![t] = [pc |-> 1, args |-> a, acc |-> 0, out |-> {}]]
  /\ scratch' = 0
  /\ UNCHANGED pub

(* The v-table of the argument, at the slot of the parameter. *)
Read(t) ==
  LET i == thr[t].pc
      c == thr[t].args[i]
      e == Entry(pub.u, pub.vps, pub.slot, c, pub.slot[i])
      d == IF e = [m |-> 1, i |-> i]
           THEN (GroupOf(pub.u, pub.plan, pub.gs, i, c) - 1) * Stride(pub.gs, i)
           ELSE 0
  IN /\ i \in 1..Arity
     /\ thr' = [thr EXCEPT ![t].pc = i + 1, ![t].acc = @ + d]
     /\ scratch' = scratch + d
     /\ UNCHANGED pub

Enter(t) ==
  LET k == IF Shared THEN scratch ELSE thr[t].acc
  IN /\ thr[t].pc = Arity + 1
     /\ thr' = [thr EXCEPT ![t].pc = Arity + 2,
                           ![t].out = IF k \in DOMAIN pub.table THEN pub.table[k] ELSE {"garbage"}]
     /\ UNCHANGED <<pub, scratch>>

Return(t) ==
  /\ thr[t].pc = Arity + 2
  /\ thr' = [thr EXCEPT ![t] = Idle]
  /\ UNCHANGED <<pub, scratch>>

(* `initialize`, or `finalize` then `initialize`, after registrations.     *)
Publish(p) ==
  /\ Quiet
  /\ pub' = p
  /\ UNCHANGED <<thr, scratch>>

Step(t) == (\E a \in Accepts(pub.u, pub.plan) : Begin(t, a)) \/ Read(t) \/ Enter(t) \/ Return(t)

---------------------------------------------------------------------------
(* Each call has the outcome it has alone. *)
AsAlone ==
  \A t \in Thread : thr[t].pc = Arity + 2 =>
     thr[t].out = Outcomes(pub.u, pub.plan, thr[t].args)

(* No step of a call changes what other calls read. *)
CallsDoNotWrite == [][pub' # pub => Quiet]_tvars
=============================================================================
