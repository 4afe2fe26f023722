------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Declarative semantics of open-method dispatch, as documented by         *)
(* Boost.OpenMethod: inheritance deduced from class records, applicable    *)
(* overriders, dominance, selection, `next`, the N2216 option, and the     *)
(* report made by `initialize`.  Nothing here mentions slots, v-tables,    *)
(* groups or strides: those belong to Compiler.tla, which refines this.    *)
(*                                                                         *)
(* Classes are positive integers.  A class record is [d |-> class,         *)
(* b |-> set of classes]: "class d was registered together with its bases  *)
(* b".  An overrider signature is a sequence of classes, one per virtual   *)
(* parameter.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Outcomes of a selection.  Positive integers are overriders. *)
NoOverrider == 0
Ambiguous   == -1

---------------------------------------------------------------------------
(* Inheritance *)

Mentioned(recs) == UNION {{r.d} \cup r.b : r \in recs}

Direct(recs) ==
  [c \in Mentioned(recs) |-> {c} \cup UNION {r.b : r \in {q \in recs : q.d = c}}]

RECURSIVE Close(_)
Close(f) == LET g == [c \in DOMAIN f |-> UNION {f[x] : x \in f[c]}]
            IN IF g = f THEN f ELSE Close(g)

(* Up(recs)[c]: c and all the classes it derives from, directly or not.    *)
(* It depends on the SET of records only: order, repetition and grouping   *)
(* of registrations are irrelevant.                                        *)
Up(recs) == Close(Direct(recs))

(* Is the deduced relation a partial order (as any C++ hierarchy is)? *)
Acyclic(up) == \A c \in DOMAIN up : \A x \in up[c] : c \in up[x] => x = c

(* Does every class have a single chain of bases (no multiple inheritance)? *)
SingleInheritance(up) ==
  \A c \in DOMAIN up : \A x, y \in up[c] : x \in up[y] \/ y \in up[x]

---------------------------------------------------------------------------
(* Selection *)

ApplicableTo(up, sig, args) ==
  \A i \in DOMAIN sig : args[i] \in DOMAIN up /\ sig[i] \in up[args[i]]

(* a has at least one more specialized parameter than b, and none of b's   *)
(* is more specialized than a's.                                           *)
Dominates(up, a, b) ==
  /\ \E i \in DOMAIN a : a[i] # b[i] /\ b[i] \in up[a[i]]
  /\ \A i \in DOMAIN a : a[i] # b[i] => a[i] \notin up[b[i]]

(* Every argument acceptable to a is acceptable to b, and b is not a. *)
Generalizes(up, b, a) == a # b /\ \A i \in DOMAIN a : b[i] \in up[a[i]]

DomTable(up, ov) ==
  [k \in DOMAIN ov |-> {j \in DOMAIN ov : j # k /\ Dominates(up, ov[j], ov[k])}]

Applicable(up, ov, args) == {k \in DOMAIN ov : ApplicableTo(up, ov[k], args)}

Survivors(dom, S) == {k \in S : dom[k] \cap S = {}}

The(S) == CHOOSE x \in S : TRUE

(* The set of acceptable outcomes of a selection among S.  A singleton,    *)
(* except under N2216, where an unresolved ambiguity may be settled in     *)
(* favour of any remaining overrider.  ret[k] is the return class of       *)
(* overrider k, or 0 if the method's return type is not a registered       *)
(* class.                                                                  *)
Select(dom, S) ==
  LET V == Survivors(dom, S)
  IN IF S = {} THEN {NoOverrider}
     ELSE IF Cardinality(V) = 1 THEN V
     ELSE {Ambiguous}

NarrowByReturn(up, ret, V) ==
  {k \in V : ~ \E j \in V : ret[j] # ret[k] /\ ret[k] \in up[ret[j]]}

SelectN2216(up, dom, covariant, ret, S) ==
  LET V == LET W == Survivors(dom, S) IN IF W = {} THEN S ELSE W
  IN IF S = {} THEN {NoOverrider}
     ELSE IF Cardinality(V) = 1 THEN V
     ELSE IF covariant THEN NarrowByReturn(up, ret, V)
     ELSE V

---------------------------------------------------------------------------
(* A "plan" is everything `initialize` must have established for a method  *)
(* m = [p |-> parameter classes, r |-> return class or 0,                  *)
(*      o |-> <<signatures>>, ret |-> <<return classes>>]                  *)

Plan(up, m, n2216) ==
  LET dom  == DomTable(up, m.o)
      cov  == m.r # 0 /\ m.r \in DOMAIN up
      Sel(S) == IF n2216 THEN SelectN2216(up, dom, cov, m.ret, S) ELSE Select(dom, S)
  IN [p    |-> m.p,
      o    |-> m.o,
      r    |-> m.r,
      ret  |-> m.ret,
      dom  |-> dom,
      n2216|-> n2216,
      next |-> [k \in DOMAIN m.o |->
                  Sel({j \in DOMAIN m.o : Generalizes(up, m.o[j], m.o[k])})]]

(* Acceptable outcomes of a call. *)
Outcomes(up, plan, args) ==
  LET S == Applicable(up, plan.o, args)
      cov == plan.r # 0 /\ plan.r \in DOMAIN up
  IN IF plan.n2216 THEN SelectN2216(up, plan.dom, cov, plan.ret, S)
     ELSE Select(plan.dom, S)

(* Argument tuples a method accepts: anything that derives from its        *)
(* parameter classes.                                                      *)
Down(up, c) == {x \in DOMAIN up : c \in up[x]}

RECURSIVE Tuples(_)
Tuples(sets) ==
  IF sets = <<>> THEN {<<>>}
  ELSE {<<x>> \o t : x \in Head(sets), t \in Tuples(Tail(sets))}

Accepts(up, plan) ==
  Tuples([i \in DOMAIN plan.p |-> Down(up, plan.p[i])])

---------------------------------------------------------------------------
(* The report. *)

Mask(up, ov, i, c) == {k \in DOMAIN ov : ov[k][i] \in up[c]}

Groups(up, plan, i) == {Mask(up, plan.o, i, c) : c \in Down(up, plan.p[i])}

RECURSIVE ProdSize(_, _, _)
ProdSize(up, plan, i) ==
  IF i > Len(plan.p) THEN 1
  ELSE Cardinality(Groups(up, plan, i)) * ProdSize(up, plan, i + 1)

(* Dispatch table cells: classes that no overrider distinguishes share a   *)
(* row; only multi-methods have a table.                                   *)
Cells(up, plan) == IF Len(plan.p) = 1 THEN 0 ELSE ProdSize(up, plan, 1)

(* The candidate sets found in the cells of the dispatch table. *)
RECURSIVE CellSets(_, _, _)
CellSets(up, plan, i) ==
  IF i > Len(plan.p) THEN {DOMAIN plan.o}
  ELSE {g \cap s : g \in Groups(up, plan, i), s \in CellSets(up, plan, i + 1)}

HasNotImplemented(up, plan) == {} \in CellSets(up, plan, 1)

HasAmbiguous(up, plan) ==
  LET cov == plan.r # 0 /\ plan.r \in DOMAIN up
  IN \E S \in CellSets(up, plan, 1) :
       IF plan.n2216
       THEN Cardinality(SelectN2216(up, plan.dom, cov, plan.ret, S)) > 1
       ELSE Select(plan.dom, S) = {Ambiguous}

RECURSIVE SumCells(_, _, _)
SumCells(up, plans, i) ==
  IF i > Len(plans) THEN 0 ELSE Cells(up, plans[i]) + SumCells(up, plans, i + 1)

Report(up, plans) ==
  [cells |-> SumCells(up, plans, 1),
   ni    |-> Cardinality({m \in DOMAIN plans : HasNotImplemented(up, plans[m])}),
   amb   |-> Cardinality({m \in DOMAIN plans : HasAmbiguous(up, plans[m])})]

---------------------------------------------------------------------------
(* Registration errors that `initialize` must report: classes used in      *)
(* parameters but never registered, overrider parameters that do not       *)
(* derive from the method's, and unregistered covariant return types.      *)

MissingClasses(up, ms) ==
  UNION {
    LET m == ms[x] IN
    {m.p[i] : i \in DOMAIN m.p}
    \cup UNION {{m.o[k][i] : i \in DOMAIN m.p} : k \in DOMAIN m.o}
    \cup (IF m.r # 0 /\ m.r \in DOMAIN up
          THEN {m.ret[k] : k \in DOMAIN m.o} ELSE {})
    : x \in DOMAIN ms} \ DOMAIN up

(* <<method's class, overrider's class>> pairs that are not related. *)
MissingBases(up, ms) ==
  UNION {
    LET m == ms[x] IN
    UNION {{<<m.p[i], m.o[k][i]>> : i \in DOMAIN m.p} : k \in DOMAIN m.o}
    : x \in DOMAIN ms} 

BadBases(up, ms) ==
  {q \in MissingBases(up, ms) : q[1] \in DOMAIN up /\ q[2] \in DOMAIN up
                                /\ q[1] \notin up[q[2]]}
=============================================================================
