--------------------------- MODULE MCErrorHandling ---------------------------
(* All the histories of one or two registries; prints every transition, so  *)
(* that the walks replayed in the real library cover the state graph.       *)
EXTENDS ErrorHandling, TLC, Json

VARIABLES st, last, out
vars == <<st, last, out>>

Ops == [op : {"set"}, r : Regs, x : 1..7]
       \cup [op : {"restore", "fini"}, r : Regs, x : {0}]
       \cup [op : {"put"}, r : Regs, x : 0..3]
       \cup [op : {"init"}, r : Regs, x : 0..1]
       \cup [op : {"error"}, r : {r \in Regs : Kind(r) # "none"}, x : 1..3]
       \cup [op : {"call"}, r : Regs, x : 1..8]

Init == st = Start /\ last = <<>> /\ out = <<>>

Next == \E o \in {p \in Ops : Possible(st, p)} : \E y \in Apply(st, o) :
          /\ st' = y.st
          /\ last' = <<o.op, o.r, o.x>>
          /\ out' = <<st, o, y>>

Spec == Init /\ [][Next]_vars
View == st
Edge == PrintT("EDGE " \o ToJson(<<st, last', st'>>))

(* in terms of actions, as VIEW hides out *)
Handled == [][LET o == out'[2] y == out'[3] IN
                OnceToCurrent(st, o, y) /\ NeverContinues(st, o, y) /\ Local(st, o, y)]_vars

(* restoring the handler that `set` returned undoes it *)
Undo == \A r \in Regs : \A h \in 1..7 :
          Kind(r) = "set" =>
            LET s1 == (CHOOSE y \in Apply(st, [op |-> "set", r |-> r, x |-> h]) : TRUE).st
                s2 == (CHOOSE y \in Apply(s1, [op |-> "restore", r |-> r, x |-> 0]) : TRUE).st
            IN s2.h = st.h
==============================================================================
