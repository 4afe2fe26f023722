----------------------------- MODULE StaticList -----------------------------
(***************************************************************************)
(* The catalogs of registrations: intrusive lists of static objects.       *)
(*                                                                         *)
(* Abstractly, each list is a sequence of distinct nodes.  Concretely (see *)
(* detail/static_list.hpp) it is a pointer to the first node, null         *)
(* terminated `next` links, and `prev` links that are circular: the `prev` *)
(* of the first node is the last one.  The module describes both, as one   *)
(* state machine in which each operation acts on both, and states that     *)
(* the concrete structure represents the abstract sequence (Represents).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Nodes, Lists
Nil == 0

VARIABLES
  seqs,        \* Lists -> sequence of nodes
  first,       \* Lists -> node or Nil
  prev, next   \* Nodes -> node or Nil

lvars == <<seqs, first, prev, next>>

LInit == /\ seqs = [l \in Lists |-> <<>>]
         /\ first = [l \in Lists |-> Nil]
         /\ prev = [n \in Nodes |-> Nil]
         /\ next = [n \in Nodes |-> Nil]

Range(s) == {s[i] : i \in DOMAIN s}
Members(l) == Range(seqs[l])
Free == {n \in Nodes : \A l \in Lists : n \notin Members(l)}

Push(l, n) ==
  /\ n \in Free
  /\ seqs' = [seqs EXCEPT ![l] = Append(@, n)]
  /\ IF first[l] = Nil
     THEN /\ first' = [first EXCEPT ![l] = n]
          /\ prev' = [prev EXCEPT ![n] = n]
          /\ UNCHANGED next
     ELSE LET last == prev[first[l]] IN
          /\ next' = [next EXCEPT ![last] = n]
          /\ prev' = [prev EXCEPT ![n] = last, ![first[l]] = n]
          /\ UNCHANGED first

Without(s, n) == SelectSeq(s, LAMBDA x : x # n)

Remove(l, n) ==
  /\ n \in Members(l)
  /\ seqs' = [seqs EXCEPT ![l] = Without(@, n)]
  /\ LET p == prev[n]
         q == next[n]
         f == first[l]
         last == prev[f]
     IN CASE n = last /\ n = f ->
               /\ first' = [first EXCEPT ![l] = Nil]
               /\ prev' = [prev EXCEPT ![n] = Nil]
               /\ next' = [next EXCEPT ![n] = Nil]
          [] n = last /\ n # f ->
               /\ prev' = [prev EXCEPT ![n] = Nil, ![f] = p]
               /\ next' = [next EXCEPT ![n] = Nil, ![p] = Nil]
               /\ UNCHANGED first
          [] n # last /\ n = f ->
               /\ first' = [first EXCEPT ![l] = q]
               /\ prev' = [prev EXCEPT ![n] = Nil, ![q] = last]
               /\ next' = [next EXCEPT ![n] = Nil]
          [] OTHER ->
               /\ prev' = [prev EXCEPT ![n] = Nil, ![q] = p]
               /\ next' = [next EXCEPT ![n] = Nil, ![p] = q]
               /\ UNCHANGED first

Clear(l) ==
  /\ seqs' = [seqs EXCEPT ![l] = <<>>]
  /\ first' = [first EXCEPT ![l] = Nil]
  /\ prev' = [n \in Nodes |-> IF n \in Members(l) THEN Nil ELSE prev[n]]
  /\ next' = [n \in Nodes |-> IF n \in Members(l) THEN Nil ELSE next[n]]

---------------------------------------------------------------------------
(* What a traversal of the concrete structure finds *)
RECURSIVE Walk(_, _, _)
Walk(nx, n, fuel) == IF n = Nil \/ fuel = 0 THEN <<>>
                     ELSE <<n>> \o Walk(nx, nx[n], fuel - 1)

Represents ==
  \A l \in Lists :
    /\ Walk(next, first[l], Cardinality(Nodes) + 1) = seqs[l]
    /\ seqs[l] # <<>> =>
         /\ prev[first[l]] = seqs[l][Len(seqs[l])]
         /\ \A i \in 2..Len(seqs[l]) : prev[seqs[l][i]] = seqs[l][i - 1]

(* Nodes that are in no list are ready to be inserted again. *)
FreeIsClean == \A n \in Free : prev[n] = Nil /\ next[n] = Nil

Distinct == \A l \in Lists : Cardinality(Members(l)) = Len(seqs[l])
Disjoint == \A l, k \in Lists : l # k => Members(l) \cap Members(k) = {}
=============================================================================
