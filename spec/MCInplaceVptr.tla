---------------------------- MODULE MCInplaceVptr ----------------------------
(***************************************************************************)
(* Every hierarchy of N classes, every life of an object of every class,   *)
(* including constructions abandoned at any point; copies and assignments  *)
(* (which must leave v-table pointers alone).                              *)
(***************************************************************************)
EXTENDS InplaceVptr, TLC

CONSTANT N

RECURSIVE Arrangements(_)
Arrangements(S) == {<<>>} \cup UNION {{<<x>> \o q : q \in Arrangements(S \ {x})} : x \in S}

RECURSIVE Hier(_)
Hier(n) == IF n = 0 THEN {<<>>}
           ELSE {b \in {Append(h, q) : h \in Hier(n - 1), q \in Arrangements(1..(n - 1))} : WellFormed(b)}

VARIABLES bases, ob, vp
vars == <<bases, ob, vp>>

Init == /\ bases \in Hier(N)
        /\ \E c \in 1..N : /\ ob = Fresh_(c)
                           /\ vp = [r \in Roots(bases, c) |-> Nil]

Construct == \E c \in 1..N : /\ CanSetUp(bases, ob, c)
                             /\ ob' = SetUp(ob, c)
                             /\ vp' = Up_(bases, vp, c)
(* destruction, or an exception during construction *)
Destroy == \E c \in 1..N : /\ CanTearDown(bases, ob, c)
                           /\ ob' = TearDown(ob, c)
                           /\ vp' = Down_(bases, vp, c)

Next == (Construct \/ Destroy) /\ UNCHANGED bases
Spec == Init /\ [][Next]_vars

(* A call dispatches on the class a virtual function would. *)
Agrees == \A s \in ob.set :
            vp[FirstRoot(bases, s)] = DynamicClass(bases, ob.set, s)
(* ... whichever root is used. *)
AllRootsAgree == \A s \in ob.set : \A r \in Roots(bases, s) :
                   vp[r] = DynamicClass(bases, ob.set, s)
Complete == ob.set = Subobjects(bases, ob.c) => \A r \in DOMAIN vp : vp[r] = ob.c
Dead == (ob.set = {}) => \A r \in DOMAIN vp : vp[r] = Nil
=============================================================================
