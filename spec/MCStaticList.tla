--------------------------- MODULE MCStaticList ---------------------------
(* Exhaustive exploration of small lists; prints every transition, so that *)
(* the walks replayed in the real lists cover the whole state graph.       *)
EXTENDS StaticList, TLC, Json

VARIABLE last
vars == <<seqs, first, prev, next, last>>

Init == LInit /\ last = <<"reset">>

Next ==
  \/ \E l \in Lists, n \in Nodes : Push(l, n) /\ last' = <<"push", l, n>>
  \/ \E l \in Lists, n \in Nodes : Remove(l, n) /\ last' = <<"remove", l, n>>
  \/ \E l \in Lists : Clear(l) /\ last' = <<"clear", l>>

Spec == Init /\ [][Next]_vars

View == <<seqs, first, prev, next>>

Edge == PrintT("EDGE " \o ToJson(<<seqs, last', seqs'>>))
=============================================================================
