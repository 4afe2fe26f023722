------------------------------ MODULE MCWorlds ------------------------------
(***************************************************************************)
(* Every world made of a hierarchy of N classes and a method with A        *)
(* virtual parameters and at most K overriders.                            *)
(*                                                                         *)
(* The invariants are what Dispatch must imply, whatever the world.  With  *)
(* Emit, the worlds are printed: they are then replayed in the real        *)
(* library, registered in random ways.                                     *)
(***************************************************************************)
EXTENDS Dispatch, Hierarchies, Json, SequencesExt, FiniteSetsExt

CONSTANTS N, A, K, Emit

VARIABLES w,    \* the world
          made  \* the overriders are chosen
vars == <<w, made>>

Params == [1..A -> 1..N]
Sigs(u, p) == Tuples([i \in 1..A |-> Down(u, p[i])])
Subsets(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)

Init ==
  /\ made = FALSE
  /\ \E u \in Hierarchies(N) : \E p \in Params : w = [u |-> u, p |-> p, o |-> <<>>]

Next ==
  /\ ~ made
  /\ made' = TRUE
  /\ \E k \in 0..K : \E O \in Subsets(k, Sigs(w.u, w.p)) :
        w' = [w EXCEPT !.o = SetToSeq(O)]

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
M == [p |-> w.p, r |-> 0, o |-> w.o, ret |-> [k \in DOMAIN w.o |-> 0]]
P == Plan(w.u, M, FALSE)
Calls == Accepts(w.u, P)
Kinds == DOMAIN w.o

(* The same, with the n2216 option, without and with covariant return      *)
(* types.                                                                  *)
P0 == Plan(w.u, M, TRUE)
Rets == IF N > 3 \/ Len(w.o) > 3 THEN {} ELSE [Kinds -> 1..N]
PC(r) == Plan(w.u, [M EXCEPT !.r = 1, !.ret = r], TRUE)

(* Dominance is a strict relation, although it is not transitive. *)
Strict ==
  \A a, b \in Kinds : b \in P.dom[a] => a # b /\ a \notin P.dom[b]

(* An overrider more general than another is dominated by it, and applies  *)
(* to anything the other one applies to.                                   *)
GeneralIsDominated ==
  \A a, b \in Kinds : Generalizes(w.u, w.o[b], w.o[a]) =>
     /\ a \in P.dom[b]
     /\ \A t \in Calls : ApplicableTo(w.u, w.o[a], t) => ApplicableTo(w.u, w.o[b], t)

(* What is selected is applicable, and not dominated. *)
Sound ==
  \A t \in Calls : \A x \in Outcomes(w.u, P, t) :
     LET S == Applicable(w.u, w.o, t)
     IN /\ (x = NoOverrider) <=> (S = {})
        /\ x > 0 => x \in S /\ S \cap P.dom[x] = {}
        /\ x > 0 => \A y \in S \ {x} : S \cap P.dom[y] # {}

Deterministic == \A t \in Calls : Cardinality(Outcomes(w.u, P, t)) = 1

(* The overrider for exactly these classes, if there is one, is called. *)
Exact ==
  \A k \in Kinds : \E t \in Calls : t = w.o[k] /\ Outcomes(w.u, P, t) = {k}

(* A virtual function: with a single parameter and single inheritance,     *)
(* no call is ambiguous.                                                   *)
SingleDispatch ==
  (A = 1 /\ SingleInheritance(w.u)) =>
     \A t \in Calls : Outcomes(w.u, P, t) # {Ambiguous}

(* Substitution: a class that no overrider distinguishes from its base     *)
(* behaves as the base.                                                    *)
Substitution ==
  \A t, s \in Calls :
     Applicable(w.u, w.o, t) = Applicable(w.u, w.o, s) =>
        Outcomes(w.u, P, t) = Outcomes(w.u, P, s)

(* next leads to an overrider that accepts whatever the current one does,  *)
(* and chains end.                                                         *)
NextSafe ==
  \A q \in {P, P0} : \A k \in Kinds : \A x \in q.next[k] :
     x > 0 => Generalizes(w.u, w.o[x], w.o[k])

(* next is what a call would do without the overriders that are not more   *)
(* general.                                                                *)
NextIsACall ==
  \A k \in Kinds :
     LET gen == {j \in Kinds : Generalizes(w.u, w.o[j], w.o[k])}
     IN P.next[k] = {IF x > 0 THEN SetToSeq(gen)[x] ELSE x :
                       x \in Outcomes(w.u,
                              Plan(w.u, [M EXCEPT !.o = [j \in 1..Cardinality(gen) |->
                                                           w.o[SetToSeq(gen)[j]]],
                                                  !.ret = [j \in 1..Cardinality(gen) |-> 0]], FALSE),
                              w.o[k])}

(* N2216 resolves everything that can be resolved, and changes nothing     *)
(* else.                                                                   *)
N2216OK(q) ==
  \A t \in Calls :
     LET S == Applicable(w.u, w.o, t)
         X == Outcomes(w.u, q, t)
         Y == Outcomes(w.u, P, t)
     IN /\ X # {}
        /\ S # {} => X \subseteq S
        /\ Y # {Ambiguous} => X = Y
        /\ \A x \in X : x > 0 => \A y \in X : x \notin q.dom[y] \/ Survivors(q.dom, S) = {}
N2216 == N2216OK(P0) /\ \A r \in Rets : N2216OK(PC(r))

(* The report is zero if and only if no call fails. *)
ReportExact ==
  LET rep == Report(w.u, <<P>>)
  IN /\ rep.ni  = IF \E t \in Calls : Outcomes(w.u, P, t) = {NoOverrider} THEN 1 ELSE 0
     /\ rep.amb = IF \E t \in Calls : Outcomes(w.u, P, t) = {Ambiguous} THEN 1 ELSE 0
     /\ rep.cells <= IF A = 1 THEN 0 ELSE Cardinality(Calls)

(* The inheritance relation is deduced from direct bases, or from any set  *)
(* of bases that contains them.                                            *)
Deduced ==
  /\ Up({[d |-> c, b |-> Bases(w.u, c)] : c \in 1..N}) = w.u
  /\ Up({[d |-> c, b |-> w.u[c]] : c \in 1..N}) = w.u
  /\ Up(UNION {{[d |-> c, b |-> {b}] : b \in w.u[c]} : c \in 1..N}) = w.u

Theorems ==
  /\ Strict /\ GeneralIsDominated /\ Sound /\ Deterministic /\ Exact /\ SingleDispatch
  /\ Substitution /\ NextSafe /\ NextIsACall /\ N2216 /\ ReportExact /\ Deduced

Emitted == (Emit /\ made) => PrintT("WORLD " \o ToJson(<<[c \in 1..N |-> Bases(w.u, c)], w.p, w.o>>))
=============================================================================
