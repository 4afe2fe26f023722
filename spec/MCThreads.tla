------------------------------ MODULE MCThreads ------------------------------
(***************************************************************************)
(* Threads that call a method with A virtual parameters, in every          *)
(* hierarchy of N classes, with every set of at most K overriders;         *)
(* overriders may be added, and the registry initialized again, between    *)
(* calls.                                                                  *)
(***************************************************************************)
EXTENDS Threads, Hierarchies, FiniteSetsExt, SequencesExt

CONSTANTS N, A, K, Again

Vps(f) == [v \in 1..A |-> [m |-> 1, i |-> v, c |-> f[v]]]

RECURSIVE Alloc(_, _, _, _)
Alloc(u, vps, st, v) ==
  IF v > Len(vps) THEN st.slot
  ELSE Alloc(u, vps, Allocate(u, vps, st, v, FirstFree(st, vps[v].c)), v + 1)

Pub(u, f, ov) ==
  LET plan == Plan(u, [p |-> f, r |-> 0, o |-> ov, ret |-> [k \in DOMAIN ov |-> 0]], FALSE)
      gs   == GroupsOf(u, plan)
  IN [u |-> u, vps |-> Vps(f), slot |-> Alloc(u, Vps(f), StartSlots(u, Vps(f)), 1),
      plan |-> plan, gs |-> gs, table |-> Table(plan, gs)]

Sigs(u, f) == Tuples([i \in 1..A |-> Down(u, f[i])])

Init ==
  /\ \E u \in Hierarchies(N) : \E f \in [1..A -> 1..N] : \E k \in 0..K :
       /\ \A i \in 1..(A - 1) : f[i] <= f[i + 1]
       /\ k <= Cardinality(Sigs(u, f))
       /\ \E O \in kSubset(k, Sigs(u, f)) : pub = Pub(u, f, SetToSeq(O))
  /\ thr = [t \in Thread |-> Idle]
  /\ scratch = 0

(* An overrider is added. *)
More ==
  /\ Again
  /\ Quiet
  /\ Len(pub.plan.o) < K
  /\ LET have == pub.plan.o
     IN \E s \in Sigs(pub.u, pub.plan.p) \ ToSet(have) :
          Publish(Pub(pub.u, pub.plan.p, Append(have, s)))

Next == (\E t \in Thread : Step(t)) \/ More
Spec == Init /\ [][Next]_tvars

Symm == Permutations(Thread)
=============================================================================
