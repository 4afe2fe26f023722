----------------------------- MODULE MCPolicies -----------------------------
(***************************************************************************)
(* Any sequence of with and without, on lists of policies that represent   *)
(* partial functions from categories to policies.                          *)
(***************************************************************************)
EXTENDS Policies

CONSTANTS Pol, MaxStep

VARIABLES list, have, n
vars == <<list, have, n>>

Cats == {Cat(k) : k \in Pol}

Init == list = <<>> /\ have = [c \in Cats |-> 0] /\ n = 0

Add(ks) == /\ list' = With(list, ks)
           /\ have' = [c \in Cats |->
                        LET S == {i \in DOMAIN ks : Cat(ks[i]) = c}
                        IN IF S = {} THEN have[c]
                           ELSE ks[CHOOSE i \in S : \A j \in S : j <= i]]
Remove(cs) == /\ list' = Without(list, cs)
              /\ have' = [c \in Cats |-> IF \E i \in DOMAIN cs : cs[i] = c THEN 0 ELSE have[c]]

Next == /\ n < MaxStep /\ n' = n + 1
        /\ \/ \E ks \in UNION {[1..m -> Pol] : m \in 1..2} : Add(ks)
           \/ \E cs \in UNION {[1..m -> Cats] : m \in 1..2} : Remove(cs)
Spec == Init /\ [][Next]_vars

Represents ==
  /\ WellFormed(list)
  /\ \A c \in Cats : Lookup(list, c) = have[c]
  /\ Len(list) = Cardinality({c \in Cats : have[c] # 0})
(* a policy is found by its bases *)
ByBase == \A c \in Cats : have[c] # 0 => \A b \in Derives(have[c]) : Lookup(list, b) = have[c]
(* nothing changes when a policy is replaced by itself *)
Idem == \A i \in DOMAIN list : With(list, <<list[i]>>) = list
(* removing what was added restores the other policies *)
Undo == \A k \in Pol : have[Cat(k)] = 0 => Without(With(list, <<k>>), <<Cat(k)>>) = list
=============================================================================
