------------------------------- MODULE MCNames -------------------------------
(***************************************************************************)
(* Every world with two namespaces (side by side, or one in the other),    *)
(* two classes, and up to M methods of the same name with one parameter.   *)
(***************************************************************************)
EXTENDS Names, TLC, FiniteSetsExt, SequencesExt

CONSTANT M

VARIABLE w

Spaces == 0..2
Kinds == {"v", "p"}
Param(k, c) == [k |-> k, c |-> c, r |-> 0]
Method(ns, k, c) == [n |-> 1, ns |-> ns, reg |-> 0, ps |-> <<Param(k, c)>>]
Methods == {Method(ns, k, c) : ns \in Spaces, k \in Kinds, c \in 1..2}

Init ==
  \E par \in {<<0, 0>>, <<0, 1>>} : \E n1, n2 \in Spaces : \E b \in {<<>>, <<1>>} :
     w = [par |-> par, rns |-> <<-1, -1>>, cls |-> <<[ns |-> n1, b |-> <<>>], [ns |-> n2, b |-> b]>>,
          meth |-> <<>>, ov |-> <<>>]
(* methods are declared, in some order which does not matter *)
Order == SetToSeq(Methods)
Rank(m) == CHOOSE k \in DOMAIN Order : Order[k] = m
Next == /\ Len(w.meth) < M
        /\ \E m \in Methods : /\ \A x \in DOMAIN w.meth : Rank(w.meth[x]) < Rank(m)
                              /\ w' = [w EXCEPT !.meth = Append(@, m)]
Spec == Init /\ [][Next]_w

Args == {<<Param(k, c)>> : k \in {"r", "p", "c"}, c \in 1..2}
Loc(x, ns, a) == Locate(x, Inh(x), ns, 1, a)

RECURSIVE Encl(_, _)
Encl(x, ns) == {ns} \cup (IF ns = 0 THEN {} ELSE Encl(x, x.par[ns]))
Visible(x, ns, a) == Encl(x, ns) \cup Assoc(x, Inh(x), a[1])

(* the method that is found accepts the arguments, and is in a namespace   *)
(* around the call or associated with them                                 *)
Sound == \A ns \in Spaces, a \in Args :
           LET m == Loc(w, ns, a) IN
           m # 0 => Viable(w, Inh(w), m, a) /\ w.meth[m].ns \in Visible(w, ns, a)
(* methods in other namespaces, and of other names, do not matter *)
Elsewhere == \A ns \in Spaces, a \in Args : \A m \in Methods :
           m.ns \notin Visible(w, ns, a) =>
             Loc([w EXCEPT !.meth = Append(@, m)], ns, a) = Loc(w, ns, a)
OtherNames == \A ns \in Spaces, a \in Args : \A m \in Methods :
             Loc([w EXCEPT !.meth = Append(@, [m EXCEPT !.n = 2])], ns, a) = Loc(w, ns, a)
(* where the methods are in a namespace of the argument's class, the place *)
(* of the call, or of the overrider, does not matter                       *)
Anywhere == \A a \in Args :
           (\A m \in DOMAIN w.meth : w.meth[m].ns \in Assoc(w, Inh(w), a[1])) =>
             \A x, y \in Spaces : Loc(w, x, a) = Loc(w, y, a)
(* a method that is more general, visible too, makes the call an error *)
NoRanking == \A ns \in Spaces, a \in Args :
           LET c == Candidates(w, Inh(w), ns, 1, a)
               v == {m \in c : Viable(w, Inh(w), m, a)}
           IN Cardinality(v) > 1 => Loc(w, ns, a) = 0
=============================================================================
