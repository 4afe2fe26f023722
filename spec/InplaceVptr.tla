----------------------------- MODULE InplaceVptr -----------------------------
(***************************************************************************)
(* The life of objects whose v-table pointers are embedded in them.        *)
(*                                                                         *)
(* bases[c] is the sequence of the direct bases of class c, in order.      *)
(* There is no virtual and no repeated inheritance: an object has exactly  *)
(* one subobject per class it derives from, and each subobject is enclosed *)
(* in a chain of larger ones.  A class without bases is a root: its        *)
(* subobject contains a v-table pointer.                                   *)
(*                                                                         *)
(* An object is [c |-> its class, set |-> the subobjects that are set up]. *)
(* A subobject is set up from the end of the construction of its bases     *)
(* (before its members are constructed), until the end of the destruction  *)
(* of its members.                                                         *)
(*                                                                         *)
(* What is required: a call that uses subobject s dispatches on            *)
(* DynamicClass(s), the largest subobject that encloses s and is set up.   *)
(* This is also the class that virtual functions and typeid use.           *)
(*                                                                         *)
(* How it is done: Up and Down below, in terms of vp[r], the v-table       *)
(* pointer in root r.  MCInplaceVptr checks that the two agree.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Subobjects(_, _)
Subobjects(bases, c) ==
  {c} \cup UNION {Subobjects(bases, bases[c][k]) : k \in DOMAIN bases[c]}

(* In the order of construction. *)
RECURSIVE Order(_, _), OrderOf(_, _)
OrderOf(bases, q) == IF q = <<>> THEN <<>> ELSE Order(bases, Head(q)) \o OrderOf(bases, Tail(q))
Order(bases, c) == Append(OrderOf(bases, bases[c]), c)


Count(bases, c, x) ==
  LET q == Order(bases, c) IN Cardinality({k \in DOMAIN q : q[k] = x})

WellFormed(bases) == \A c \in DOMAIN bases : \A x \in DOMAIN bases : Count(bases, c, x) <= 1

Encloses(bases, t, s) == s \in Subobjects(bases, t)

DynamicClass(bases, set, s) ==
  CHOOSE t \in set : /\ Encloses(bases, t, s)
                     /\ \A u \in set : Encloses(bases, u, s) => Encloses(bases, t, u)

---------------------------------------------------------------------------
(* Which set-ups and tear-downs may happen next.  Construction may be      *)
(* abandoned at any point; then, as during destruction, what was set up is *)
(* torn down in reverse order.                                             *)

Fresh_(c) == [c |-> c, set |-> {}, dying |-> FALSE]

NextUp(bases, ob) == Order(bases, ob.c)[Cardinality(ob.set) + 1]
CanSetUp(bases, ob, c) ==
  /\ ~ ob.dying
  /\ Cardinality(ob.set) < Cardinality(Subobjects(bases, ob.c))
  /\ c = NextUp(bases, ob)
CanTearDown(bases, ob, c) ==
  ob.set # {} /\ c = Order(bases, ob.c)[Cardinality(ob.set)]

SetUp(ob, c) == [ob EXCEPT !.set = ob.set \cup {c}]
TearDown(ob, c) == [ob EXCEPT !.set = ob.set \ {c}, !.dying = TRUE]

---------------------------------------------------------------------------
(* The v-table pointers. *)

Roots(bases, c) == {s \in Subobjects(bases, c) : bases[s] = <<>>}

(* the root used for a call on subobject c *)
RECURSIVE FirstRoot(_, _)
FirstRoot(bases, c) == IF bases[c] = <<>> THEN c ELSE FirstRoot(bases, Head(bases[c]))

Nil == 0

(* the constructor of the mixin of c *)
Up_(bases, vp, c) == [r \in DOMAIN vp |-> IF r \in Roots(bases, c) THEN c ELSE vp[r]]

(* its destructor *)
Down_(bases, vp, c) ==
  [r \in DOMAIN vp |->
     IF bases[c] = <<>> THEN (IF r = c THEN Nil ELSE vp[r])
     ELSE LET B == {k \in DOMAIN bases[c] : r \in Roots(bases, bases[c][k])}
          IN IF B = {} THEN vp[r] ELSE bases[c][CHOOSE k \in B : TRUE]]
=============================================================================
