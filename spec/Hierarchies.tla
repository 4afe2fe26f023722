----------------------------- MODULE Hierarchies -----------------------------
(***************************************************************************)
(* All the class hierarchies of a given size, up to renaming.  Classes are *)
(* numbered in such a way that bases come before derived classes.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pairs(n) == {q \in (1..n) \X (1..n) : q[1] < q[2]}

UpOf(n, f) == [c \in 1..n |-> {c} \cup {b \in 1..(c - 1) : f[<<b, c>>]}]

Transitive(u) == \A c \in DOMAIN u : \A b \in u[c] : u[b] \subseteq u[c]

Numbered(n) == {u \in {UpOf(n, f) : f \in [Pairs(n) -> BOOLEAN]} : Transitive(u)}

Code(n, u) ==
  LET RECURSIVE Sum(_, _, _)
      Sum(b, c, w) == IF c > n THEN 0
                      ELSE IF b >= c THEN Sum(1, c + 1, w)
                      ELSE (IF b \in u[c] THEN w ELSE 0) + Sum(b + 1, c, 2 * w)
  IN Sum(1, 1, 1)

Rename(u, p) == [c \in DOMAIN u |->
                   LET d == CHOOSE d \in DOMAIN u : p[d] = c IN {p[b] : b \in u[d]}]
IsNumbered(u) == \A c \in DOMAIN u : \A b \in u[c] : b <= c

(* One representative of each. *)
Hierarchies(n) ==
  LET perms == Permutations(1..n)
  IN {u \in Numbered(n) :
        \A p \in perms : LET v == Rename(u, p) IN IsNumbered(v) => Code(n, u) <= Code(n, v)}

(* Direct bases *)
Bases(u, c) ==
  {b \in u[c] \ {c} : ~ \E x \in u[c] \ {b, c} : b \in u[x]}
=============================================================================
