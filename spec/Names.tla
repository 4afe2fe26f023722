-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* How calls and overriders find their method by name.  Methods of the     *)
(* same name may exist in several namespaces and for several lists of      *)
(* parameters.                                                             *)
(*                                                                         *)
(* A world w is                                                            *)
(*   par    par[n]: the namespace that contains namespace n; 0 is global   *)
(*   cls    cls[x] = [ns, b]: its namespace, its direct bases              *)
(*   rns    rns[r + 1]: the namespace of registry r; -1: that of the library*)
(*   meth   [n |-> name, ns, reg |-> registry, ps |-> parameters]          *)
(*   ov     [n |-> name, ns, ps |-> parameters, m]: overriders; m # 0 when *)
(*          they are added to method m directly, and not found by name     *)
(* A parameter, or the type of an argument, is [k |-> kind, c |-> class,   *)
(* r |-> registry]:                                                        *)
(*   "v" virtual_<C&>  "w" virtual_<const C&>     (of methods)             *)
(*   "r" C&            "c" const C&               (of overriders and calls)*)
(*   "p" virtual_ptr<C, R>       "i" int                                   *)
(***************************************************************************)
EXTENDS Dispatch

Classes(w) == DOMAIN w.cls
Recs(w) == {[d |-> x, b |-> {w.cls[x].b[j] : j \in DOMAIN w.cls[x].b}] : x \in Classes(w)}
Inh(w) == Up(Recs(w))

---------------------------------------------------------------------------
(* Which methods are considered *)

Here(w, ns, name) == {m \in DOMAIN w.meth : w.meth[m].n = name /\ w.meth[m].ns = ns}

(* ordinary lookup: the innermost namespace that has the name *)
RECURSIVE Scope(_, _, _)
Scope(w, ns, name) ==
  IF Here(w, ns, name) # {} \/ ns = 0 THEN Here(w, ns, name)
  ELSE Scope(w, w.par[ns], name)

(* namespaces associated with an argument: those of its class and bases;   *)
(* of a virtual_ptr, also that of its registry                             *)
Assoc(w, u, a) ==
  IF a.k = "i" THEN {}
  ELSE {w.cls[x].ns : x \in u[a.c]} \cup (IF a.k = "p" THEN {w.rns[a.r + 1]} ELSE {})

Candidates(w, u, ns, name, args) ==
  Scope(w, ns, name) \cup UNION {Here(w, n, name) : n \in UNION {Assoc(w, u, args[j]) : j \in DOMAIN args}}

(* Which of them accept the arguments *)
Converts(u, a, p) ==
  CASE p.k = "i" -> a.k = "i"
    [] p.k = "v" -> a.k = "r" /\ p.c \in u[a.c]
    [] p.k = "w" -> a.k \in {"r", "c"} /\ p.c \in u[a.c]
    [] p.k = "p" -> \/ a.k = "r" /\ p.c \in u[a.c]
                    \/ a.k = "p" /\ a.r = p.r /\ p.c \in u[a.c]

Viable(w, u, m, args) ==
  /\ Len(w.meth[m].ps) = Len(args)
  /\ \A j \in DOMAIN args : Converts(u, args[j], w.meth[m].ps[j])

(* The method that is called, or 0: a call that several methods accept is  *)
(* an error, as one that none accepts: methods are not ordered by how well *)
(* they match.                                                             *)
Locate(w, u, ns, name, args) ==
  LET V == {m \in Candidates(w, u, ns, name, args) : Viable(w, u, m, args)}
  IN IF Cardinality(V) = 1 THEN The(V) ELSE 0

---------------------------------------------------------------------------
(* Overriders *)

Matches(a, p) == CASE p.k = "v" -> a.k = "r" [] p.k = "w" -> a.k = "c" [] OTHER -> a.k = p.k

MethodOf(w, u, o) == IF w.ov[o].m # 0 THEN w.ov[o].m
                     ELSE Locate(w, u, w.ov[o].ns, w.ov[o].n, w.ov[o].ps)

(* Can the overrider be added? *)
Accepted_(w, u, o) ==
  LET m == MethodOf(w, u, o)
  IN m # 0 /\ \A j \in DOMAIN w.ov[o].ps : Matches(w.ov[o].ps[j], w.meth[m].ps[j])

Attached(w, u, m) == {o \in DOMAIN w.ov : MethodOf(w, u, o) = m}

RECURSIVE Virtual(_)
Virtual(ps) == IF ps = <<>> THEN <<>>
               ELSE (IF Head(ps).k = "i" THEN <<>> ELSE <<Head(ps).c>>) \o Virtual(Tail(ps))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})

(* the plan of method m, and its overriders in the order of the plan *)
Ovs(w, u, m) == Sorted(Attached(w, u, m))
PlanOf(w, u, m) ==
  LET os == Ovs(w, u, m)
  IN Plan(u, [p |-> Virtual(w.meth[m].ps), r |-> 0, o |-> [j \in DOMAIN os |-> Virtual(w.ov[os[j]].ps)],
              ret |-> [j \in DOMAIN os |-> 0]], FALSE)

(* what runs: the overriders from the one selected, following next, then   *)
(* the outcome of the last selection                                       *)
RECURSIVE Follow(_, _, _)
Follow(os, plan, k) == IF k <= 0 THEN <<k>> ELSE <<os[k]>> \o Follow(os, plan, The(plan.next[k]))

CallResult(w, u, m, dyn) ==
  LET plan == PlanOf(w, u, m) IN Follow(Ovs(w, u, m), plan, The(Outcomes(u, plan, dyn)))
=============================================================================
