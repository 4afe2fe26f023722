------------------------------ MODULE Compiler ------------------------------
(***************************************************************************)
(* How `initialize` lays out dispatch data, and how a call finds its       *)
(* overrider in it, without any search: v-tables made of slots, groups of  *)
(* classes, dispatch tables and strides.  Dispatch says what the result    *)
(* must be; MCCompiler checks that it is.                                  *)
(*                                                                         *)
(* u      the inheritance relation (see Dispatch), classes 1..n            *)
(* vps    the virtual parameters of all the methods: a sequence of         *)
(*        [m |-> method, i |-> position, c |-> class]                      *)
(***************************************************************************)
EXTENDS Dispatch

---------------------------------------------------------------------------
(* Slots.  Each virtual parameter has a slot, at the same place in the     *)
(* v-tables of its class and of all those that derive from it.             *)
(*                                                                         *)
(* used[c]      slots taken in the v-table of c                            *)
(* reserved[c]  slots that c must not take, because a class derived from   *)
(*              c has them                                                 *)

NoSlot == -1

StartSlots(u, vps) ==
  [slot     |-> [v \in DOMAIN vps |-> NoSlot],
   used     |-> [c \in DOMAIN u |-> {}],
   reserved |-> [c \in DOMAIN u |-> {}]]

Below(u, c) == Down(u, c)

Free(st, c, s) == s \notin st.used[c] \cup st.reserved[c]

FirstFree(st, c) ==
  CHOOSE s \in 0..Cardinality(st.used[c] \cup st.reserved[c]) :
     Free(st, c, s) /\ \A z \in 0..(s - 1) : ~ Free(st, c, z)

(* Give slot s to virtual parameter v: all the classes below its class     *)
(* have the slot, and all the bases of those must keep off it.             *)
Allocate(u, vps, st, v, s) ==
  LET c     == vps[v].c
      mine  == st.used[c] \cup {s}
      below == Below(u, c)
      above == UNION {u[d] : d \in below}
  IN [slot     |-> [st.slot EXCEPT ![v] = s],
      used     |-> [d \in DOMAIN u |-> IF d \in below THEN st.used[d] \cup mine ELSE st.used[d]],
      reserved |-> [b \in DOMAIN u |-> IF b \in above THEN st.reserved[b] \cup mine
                                       ELSE st.reserved[b]]]

(* In a part of the hierarchy without multiple inheritance, slots follow   *)
(* those of the bases, and v-tables have no holes.                         *)
RECURSIVE Related(_, _)
Related(u, S) ==
  LET T == {d \in DOMAIN u : \E c \in S : c \in u[d] \/ d \in u[c]}
  IN IF T = S THEN S ELSE Related(u, T)
IsTree(u, c) ==
  \A d \in Related(u, {c}) : \A x, y \in u[d] : x \in u[y] \/ y \in u[x]

TreeSlot(u, vps, v) ==
  Cardinality({w \in DOMAIN vps : \/ vps[w].c \in u[vps[v].c] \ {vps[v].c}
                                  \/ vps[w].c = vps[v].c /\ w < v})

(* What must hold while slots are allocated, and at the end. *)
Visible(u, vps, c) == {v \in DOMAIN vps : vps[v].c \in u[c]}

NoClash(u, vps, slot) ==
  \A c \in DOMAIN u : \A v, w \in Visible(u, vps, c) :
     v # w /\ slot[v] # NoSlot => slot[v] # slot[w]

UsedExact(u, vps, st) ==
  \A c \in DOMAIN u :
     st.used[c] = {st.slot[v] : v \in {w \in Visible(u, vps, c) : st.slot[w] # NoSlot}}

---------------------------------------------------------------------------
(* Groups, strides, dispatch table of a method m = [p, o] of Dispatch.     *)
(* The groups of a parameter are numbered in any order.                    *)

Pick(S) == CHOOSE x \in S : TRUE
RECURSIVE Enumerate(_)
Enumerate(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Enumerate(S \ {x})

GroupsOf(u, plan) == [i \in DOMAIN plan.p |-> Enumerate(Groups(u, plan, i))]

GroupOf(u, plan, gs, i, c) ==
  CHOOSE g \in DOMAIN gs[i] : gs[i][g] = Mask(u, plan.o, i, c)

RECURSIVE Stride(_, _)
Stride(gs, i) == IF i = 1 THEN 1 ELSE Len(gs[i - 1]) * Stride(gs, i - 1)

TableSize(gs) == Stride(gs, Len(gs)) * Len(gs[Len(gs)])

(* The overriders that apply to all the classes of cell k (from 0). *)
CellSet(plan, gs, k) ==
  {o \in DOMAIN plan.o :
     \A i \in DOMAIN gs : o \in gs[i][((k \div Stride(gs, i)) % Len(gs[i])) + 1]}

Table(plan, gs) == [k \in 0..(TableSize(gs) - 1) |-> Select(plan.dom, CellSet(plan, gs, k))]

---------------------------------------------------------------------------
(* V-tables: what is found at slot s of class c.  A slot that several      *)
(* parameters claim, or none, contains garbage.                            *)

Garbage == [m |-> 0, i |-> 0]
Entry(u, vps, slot, c, s) ==
  LET here == {v \in Visible(u, vps, c) : slot[v] = s}
  IN IF Cardinality(here) = 1 THEN LET v == Pick(here) IN [m |-> vps[v].m, i |-> vps[v].i]
     ELSE Garbage

(* The v-table of c covers slots First(c) .. Last(c) only. *)
SlotsOf(u, vps, slot, c) == {slot[v] : v \in Visible(u, vps, c)}
InBounds(u, vps, slot, c, s) ==
  \E a, b \in SlotsOf(u, vps, slot, c) : a <= s /\ s <= b

(* A call.  vpOf[i]: the index in vps of parameter i of the method.        *)
RECURSIVE Index(_, _, _, _, _)
Index(u, plan, gs, args, i) ==
  IF i > Len(args) THEN 0
  ELSE (GroupOf(u, plan, gs, i, args[i]) - 1) * Stride(gs, i) + Index(u, plan, gs, args, i + 1)

Resolve(u, vps, slot, m, vpOf, plan, gs, table, args) ==
  IF \A i \in DOMAIN args :
       /\ InBounds(u, vps, slot, args[i], slot[vpOf[i]])
       /\ Entry(u, vps, slot, args[i], slot[vpOf[i]]) = [m |-> m, i |-> i]
  THEN table[Index(u, plan, gs, args, 1)]
  ELSE {"garbage"}
=============================================================================
