--------------------------- MODULE MCVirtualPtr ---------------------------
(* Exhaustive exploration of all operations on a few virtual pointers, for *)
(* up to MaxObjs objects of classes in MyClasses; prints every transition, *)
(* so that the walks replayed in the real library cover the state graph.   *)
EXTENDS VirtualPtr, TLC, Json

CONSTANTS MySlots, MyClasses, MaxObjs

VARIABLES st, last
vars == <<st, last>>

Cfg == [indirect |-> FALSE, checks |-> TRUE, inplace |-> FALSE, fixed |-> TRUE,
        abstract |-> FALSE]

Ops ==
  [op : {"ctor", "assign", "cast", "final", "get", "pointer", "swap", "pass"},
   d : MySlots, s : MySlots, m : {"c", "l", "m", "p"}, x : {0}]
  \cup [op : {"null", "nullc", "def", "drop", "make"}, d : MySlots, s : {0}, m : {"-"}, x : {0}]
  \cup [op : {"new"}, d : MySlots, s : {0}, m : {"-"}, x : MyClasses]

(* ways of doing the same thing, that need not all be explored *)
Redundant(o) == \/ o.op \in {"get", "pointer", "swap"} /\ o.m # "c"
                \/ o.op = "cast" /\ o.m = "p"
                \/ o.op = "pass" /\ o.m \in {"l", "p"}
                \/ o.op = "swap" /\ o.d > o.s
                \/ o.op = "nullc"

Init == st = Apply(Start(Cfg), [op |-> "init", d |-> 0, s |-> 0, m |-> "-", x |-> 0]).st
        /\ last = <<>>

(* The branches of Apply that cast rvalues are resolved as for C++17. *)
Next == \E o \in Ops :
  /\ ~ Redundant(o)
  /\ Possible(st, o) = 0
  /\ o.op \in {"make", "new"} => Len(st.objs) < MaxObjs
  /\ ~ (o.op = "cast" /\ o.m = "m" /\ Kind(o.s) \in {1, 3})
  /\ st' = Apply(st, o).st
  /\ last' = <<o.op, o.d, o.s, o.m, o.x>>

Spec == Init /\ [][Next]_vars
View == st
Edge == PrintT("EDGE " \o ToJson(<<st, last', st'>>))

Sane == NoDanglingOwner(st) /\ UniqueOwner(st) /\ SameFamily(st) /\ WellTyped(st)

(* Operations on pointers never change where calls through the others lead. *)
OthersUnaffected ==
  [][\A s \in MySlots :
       (s \notin {last'[2], last'[3]} /\ st.slots[s] > 0 /\ Alive(st, st.slots[s])
        /\ Alive(st', st.slots[s]))
       => st'.slots[s] = st.slots[s] /\ Call(st', s) = Call(st, s)]_vars
=============================================================================
