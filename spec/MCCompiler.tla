----------------------------- MODULE MCCompiler -----------------------------
(***************************************************************************)
(* For every hierarchy of N classes, a method with A virtual parameters    *)
(* and B methods with one: slots may be allocated in any order, and with   *)
(* AnySlot, any free slot may be taken.  Then every call finds in the tables   *)
(* the outcome that Dispatch prescribes.                                   *)
(***************************************************************************)
EXTENDS Compiler, Hierarchies, FiniteSetsExt, SequencesExt

CONSTANTS N, A, B, K, AnySlot, Lookup

VARIABLES u, vps, st, ov
vars == <<u, vps, st, ov>>

NV == A + B
Methods == 1..(1 + B)

Init ==
  /\ u \in Hierarchies(N)
  /\ \E f \in [1..NV -> 1..N] :
       /\ \A v \in (A + 1)..(NV - 1) : f[v] <= f[v + 1]
       /\ vps = [v \in 1..NV |-> [m |-> IF v <= A THEN 1 ELSE v - A + 1,
                                  i |-> IF v <= A THEN v ELSE 1,
                                  c |-> f[v]]]
  /\ st = StartSlots(u, vps)
  /\ ov = <<>>

Done == \A v \in DOMAIN vps : st.slot[v] # NoSlot

Alloc(v) ==
  /\ st.slot[v] = NoSlot
  /\ \E s \in IF AnySlot THEN {z \in 0..NV : Free(st, vps[v].c, z)} ELSE {FirstFree(st, vps[v].c)} :
       st' = Allocate(u, vps, st, v, s)
  /\ UNCHANGED <<u, vps, ov>>

P1 == [i \in 1..A |-> vps[i].c]

Override ==
  /\ Done /\ Lookup /\ ov = <<>>
  /\ \E k \in 1..K : \E O \in LET S == Tuples([i \in 1..A |-> Down(u, P1[i])])
                              IN IF k > Cardinality(S) THEN {} ELSE kSubset(k, S) :
        ov' = SetToSeq(O)
  /\ UNCHANGED <<u, vps, st>>

Next == (\E v \in DOMAIN vps : Alloc(v)) \/ Override

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Slots == NoClash(u, vps, st.slot) /\ UsedExact(u, vps, st)

(* The layout of trees is another way to allocate, as good. *)
Trees ==
  (st.slot = StartSlots(u, vps).slot /\ \A c \in DOMAIN u : IsTree(u, c)) =>
     LET slot == [v \in DOMAIN vps |-> TreeSlot(u, vps, v)]
     IN /\ NoClash(u, vps, slot)
        /\ \A c \in DOMAIN u : SlotsOf(u, vps, slot, c) = 0..(Cardinality(Visible(u, vps, c)) - 1)

Plan1 == Plan(u, [p |-> P1, r |-> 0, o |-> ov, ret |-> [k \in DOMAIN ov |-> 0]], FALSE)

(* What a call finds is what Dispatch prescribes; the size of the table is *)
(* the one reported.                                                       *)
Refines ==
  Done =>
    LET plan  == Plan1
        gs    == GroupsOf(u, plan)
        table == Table(plan, gs)
    IN /\ \A t \in Accepts(u, plan) :
            Resolve(u, vps, st.slot, 1, [i \in 1..A |-> i], plan, gs, table, t) = Outcomes(u, plan, t)
       /\ A > 1 => Cells(u, plan) = TableSize(gs)

(* The other methods: same, with a single parameter. *)
OthersRefine ==
  Done => \A b \in 1..B : \A c \in Down(u, vps[A + b].c) :
     /\ InBounds(u, vps, st.slot, c, st.slot[A + b])
     /\ Entry(u, vps, st.slot, c, st.slot[A + b]) = [m |-> 1 + b, i |-> 1]
=============================================================================
