------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry as a state machine.                                        *)
(*                                                                         *)
(*   units  what is currently registered: unit id -> class record; the     *)
(*          unit is a `use_classes` object, alive or not                   *)
(*   meths  the methods and their overriders (sequence)                    *)
(*   pub    what the last successful `initialize` published: the           *)
(*          inheritance relation, a plan per method, and the type ids      *)
(*          known to the registry; or "none"                               *)
(*                                                                         *)
(* A type id is class * 10 + alias: `rtti::type_index` maps the aliases of *)
(* a class to the same index.                                              *)
(*                                                                         *)
(* `initialize` reads units and meths only: whatever sequence of           *)
(* registrations, removals, initializations and finalizations came before, *)
(* what it publishes is a function of what is registered now.  Calls read  *)
(* pub only.                                                               *)
(***************************************************************************)
EXTENDS Dispatch

ClassOf(t) == t \div 10

RecsOf(us) == {[d |-> ClassOf(us[u].d), b |-> {ClassOf(us[u].b[i]) : i \in DOMAIN us[u].b}]
                 : u \in DOMAIN us}
TypesOf(us) == UNION {{us[u].d} \cup {us[u].b[i] : i \in DOMAIN us[u].b} : u \in DOMAIN us}

None == [st |-> "none"]

Publish(us, ms, n2216) ==
  LET up == Up(RecsOf(us))
  IN [st    |-> "ready",
      up    |-> up,
      types |-> TypesOf(us),
      plans |-> [m \in DOMAIN ms |-> Plan(up, ms[m], n2216)]]

(* Outcome codes of initialize: 1 ok, -2 missing_class, -4 missing_base *)
InitErrors(us, ms) ==
  LET up == Up(RecsOf(us))
      mc == MissingClasses(up, ms)
      mb == BadBases(up, ms)
  IN {<<-2, <<c>>>> : c \in mc}
     \* missing_base is detected when all the classes are known
     \cup (IF mc = {} THEN {<<-4, q>> : q \in mb} ELSE {})
=============================================================================
