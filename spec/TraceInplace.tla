---------------------------- MODULE TraceInplace -----------------------------
(***************************************************************************)
(* Trace validation of calls on objects under construction, complete, and  *)
(* under destruction: the state of the registry is that of TraceRegistry,  *)
(* that of the objects is that of InplaceVptr.  Events are written by the  *)
(* programs made by tools/lifegen.py (see harness/life.hpp).               *)
(*                                                                         *)
(* An argument is <<object, subobject used>>; the class it must dispatch   *)
(* on is determined here.                                                  *)
(***************************************************************************)
EXTENDS TraceRegistry, InplaceVptr

VARIABLES bases, obs, virt

lvars == <<vars, bases, obs, virt>>

LInit == Init /\ bases = <<>> /\ obs = <<>> /\ virt = 0

Hier == Ev.op = "hier" /\ bases' = Ev.B /\ virt' = Ev.v /\ obs' = <<>>

Put(o, r) == obs' = [x \in DOMAIN obs \cup {o} |-> IF x = o THEN r ELSE obs[x]]

New == Ev.op = "new" /\ Put(Ev.o, Fresh_(Ev.c)) /\ UNCHANGED <<bases, virt>>
(* C++ itself does this in the right order: otherwise the program is wrong *)
Set_ == /\ Ev.op = "set"
        /\ ~ CanSetUp(bases, obs[Ev.o], Ev.c) => Report_("life.order", obs[Ev.o])
        /\ Put(Ev.o, SetUp(obs[Ev.o], Ev.c))
        /\ UNCHANGED <<bases, virt>>
Unset == /\ Ev.op = "unset"
         /\ ~ CanTearDown(bases, obs[Ev.o], Ev.c) => Report_("life.order", obs[Ev.o])
         /\ Put(Ev.o, TearDown(obs[Ev.o], Ev.c))
         /\ UNCHANGED <<bases, virt>>
Gone == /\ Ev.op = "gone"
        /\ obs[Ev.o].set # {} => Report_("life.order", obs[Ev.o])
        /\ obs' = [x \in DOMAIN obs \ {Ev.o} |-> obs[x]]
        /\ UNCHANGED <<bases, virt>>

Dyn(a) == DynamicClass(bases, obs[a[1]].set, a[2])

(* the observation, in terms of TraceRegistry; static rtti does not know   *)
(* dynamic types, so the types in errors are not checked                   *)
Seen(t) == [a  |-> [j \in DOMAIN t.a |-> Dyn(t.a[j]) * 10],
            k  |-> t.k, x |-> t.x, r |-> t.r, h |-> t.h, bad |-> t.bad, e |-> t.e, n |-> t.n,
            ty |-> IF virt = 1 THEN t.ty ELSE [j \in DOMAIN t.a |-> Dyn(t.a[j])]]

LVerdict(t) ==
  LET w == Seen(t)
      c == CallVerdict(R, Ev.m, w, 1)
  IN IF virt = 1 /\ \E j \in DOMAIN t.v : t.v[j] # Dyn(t.a[j]) THEN "life.oracle"
     ELSE IF c # "" THEN "life." \o c
     ELSE ""

LCalls ==
  /\ Ev.op = "lcalls"
  /\ LET verdict == [j \in DOMAIN Ev.t |-> LVerdict(Ev.t[j])]
         bad     == {j \in DOMAIN Ev.t : verdict[j] # ""}
     IN \A v \in {verdict[j] : j \in bad} :
          LET j == CHOOSE j \in bad : verdict[j] = v
          IN Report_(v, <<Expect(R, [t |-> [q \in {j} |-> Seen(Ev.t[j])], m |-> Ev.m], j),
                          [a \in {Ev.t[j].a[q] : q \in DOMAIN Ev.t[j].a} |-> obs[a[1]]]>>)
  /\ UNCHANGED <<bases, obs, virt>>

LNext ==
  \/ Next /\ UNCHANGED <<bases, obs, virt>>
  \/ /\ i <= Len(Traces[ck])
     /\ ~ skip
     /\ Adv
     /\ Same
     /\ (Hier \/ New \/ Set_ \/ Unset \/ Gone \/ LCalls)

LSpec == LInit /\ [][LNext]_lvars
=============================================================================
