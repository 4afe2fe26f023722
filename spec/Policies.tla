------------------------------ MODULE Policies ------------------------------
(***************************************************************************)
(* Registries as lists of policies, and what policies are asked to do.     *)
(*                                                                         *)
(* A policy is a number; its tens are its category (1 rtti, 2 vptr,        *)
(* 3 type_hash, 4 error_handler, 5 output, 6 runtime_checks,               *)
(* 7 indirect_vptr; 8 and above: categories of the program).               *)
(*   11 std_rtti          12, 13 rtti of the program (13: deferred)        *)
(*   21 vptr_vector       22, 23 vptr_map      24 vptr of the program      *)
(*   25 vptr of the program, derived from vptr_vector                      *)
(*   31 fast_perfect_hash 32 hash of the program                           *)
(*   41 default_error_handler 42 throw_error_handler 43 of the program     *)
(*   51 stderr_output     52 of the program                                *)
(*   61 runtime_checks    71 indirect_vptr                                 *)
(*   81, 82, 83 (derived from 81), 91, 101   of the program                 *)
(*   14 deferred_static_rtti: a base of 13, not a category                 *)
(***************************************************************************)
EXTENDS Dispatch

Cat(k) == k \div 10

(* What a policy derives from: itself, its category, other policies. *)
Derives(k) == {k, Cat(k)} \cup (CASE k = 13 -> {14} [] k = 25 -> {21} [] k = 83 -> {81} [] OTHER -> {})

OfCat(s, c) == {i \in DOMAIN s : Cat(s[i]) = c}

WellFormed(s) == \A i, j \in DOMAIN s : Cat(s[i]) = Cat(s[j]) => i = j

(* registry::with: replaces the policy of the category, or adds one *)
With1(s, k) == IF OfCat(s, Cat(k)) = {} THEN Append(s, k)
               ELSE [i \in DOMAIN s |-> IF Cat(s[i]) = Cat(k) THEN k ELSE s[i]]
RECURSIVE With(_, _)
With(s, ks) == IF ks = <<>> THEN s ELSE With(With1(s, Head(ks)), Tail(ks))

(* registry::without: removes the policies of the categories *)
Without(s, cs) == SelectSeq(s, LAMBDA k : \A i \in DOMAIN cs : Cat(k) # cs[i])

(* registry::policy: the policy that derives from x; 0 if there is none.   *)
(* x is a category, or a policy: at most one policy can be found.          *)
Lookup(s, x) == LET F == {i \in DOMAIN s : x \in Derives(s[i])}
                IN IF F = {} THEN 0 ELSE s[CHOOSE i \in F : TRUE]

Has(s, x) == Lookup(s, x) # 0

Keys == {1, 2, 3, 4, 5, 6, 7, 8, 9, 81, 82, 14, 21, 24}

Same(a, b) == Len(a) = Len(b) /\ \A k \in {a[i] : i \in DOMAIN a} \cup {b[i] : i \in DOMAIN b} :
                Cardinality({i \in DOMAIN a : a[i] = k}) = Cardinality({i \in DOMAIN b : b[i] = k})

---------------------------------------------------------------------------
(* What `initialize` and `finalize` ask of the policies of the program.    *)
(* An entry of a log is [p |-> policy, f |-> what, ...].                   *)

Count(log, p, f) == Cardinality({i \in DOMAIN log : log[i].p = p /\ log[i].f = f})

Vptr(s) == Lookup(s, 2)
Hashed(s) == Vptr(s) \in {21, 25} /\ Has(s, 3)

(* the vptr policy is initialized, exactly once; vptr_vector initializes   *)
(* the hash, exactly once; nothing else is initialized                     *)
InitOK(s, log) ==
  /\ \A p \in {24, 25} : Count(log, p, "init") = IF Vptr(s) = p THEN 1 ELSE 0
  /\ IF Hashed(s) /\ Lookup(s, 3) = 32 THEN Count(log, 32, "init") = 1
     ELSE Count(log, 32, "init") <= 1 /\ (Lookup(s, 3) # 32 => Count(log, 32, "init") = 0)
(* each policy sees all the classes, once, with their v-table pointers,    *)
(* and the options                                                         *)
ContextOK(log, classes, opts) ==
  \A i \in DOMAIN log : log[i].f = "init" =>
     /\ log[i].opts = opts
     /\ Len(log[i].classes) = Cardinality(classes)
     /\ {log[i].classes[j] : j \in DOMAIN log[i].classes} = classes
     /\ log[i].bad = 0
(* `finalize` is called for each policy that has it (vptr and type_hash    *)
(* policies, at least), once, with the options                             *)
FiniOK(s, log, opts) ==
  /\ \A p \in {24, 25, 32} : Count(log, p, "fini") = IF Has(s, Cat(p)) /\ Lookup(s, Cat(p)) = p THEN 1 ELSE 0
  /\ \A p \in {12, 13, 43, 52, 81, 82, 83, 91, 101} :
       Count(log, p, "fini") <= IF Lookup(s, Cat(p)) = p THEN 1 ELSE 0
  /\ \A i \in DOMAIN log : log[i].opts = opts

---------------------------------------------------------------------------
(* Calls.  Classes 1..3 are registered (2 and 3 derive from 1); class 4    *)
(* derives from 2, and is not registered.                                  *)

U == [c \in 1..3 |-> {1, c}]

Sel(ovs, args) ==
  LET plan == Plan(U, [p |-> [i \in DOMAIN args |-> 1], r |-> 0, o |-> ovs,
                       ret |-> [k \in DOMAIN ovs |-> 0]], FALSE)
  IN The(Outcomes(U, plan, args))

(* the error that a call ends with; 1: none *)
Code(s, init, ovs, args) ==
  IF Has(s, 6) /\ ~ init THEN -3
  ELSE IF \E i \in DOMAIN args : args[i] = 4 THEN -2
  ELSE LET o == Sel(ovs, args) IN IF o > 0 THEN 1 ELSE o

(* Is the outcome of the call specified?  v: how each argument is passed   *)
(* (0 virtual_, 1 virtual_ptr made by the call, 2 virtual_ptr made before) *)
Specified(s, init, args) ==
  /\ init \/ Has(s, 6)
  /\ (\E i \in DOMAIN args : args[i] = 4) => init /\ Has(s, 6) /\ Vptr(s) # 0

(* how the program goes on: "back" 1, an exception 2 (of the program's     *)
(* handler) or 3 (throw_error_handler), abort 4                            *)
How(s, code) ==
  IF code = 1 THEN 1
  ELSE CASE Lookup(s, 4) = 43 -> 2 [] Lookup(s, 4) = 42 -> 3 [] OTHER -> 4
Delivered(s, code) == IF code # 1 /\ Lookup(s, 4) = 43 THEN <<code>> ELSE <<>>
(* where a message is written: the category's policy, or 0: nowhere *)
Written(s, code) == IF code # 1 /\ Lookup(s, 4) = 41 THEN Lookup(s, 5) ELSE 0

(* The objects whose v-table pointer must be found by the vptr policy *)
Asked(v, objs) == {objs[i] : i \in {j \in DOMAIN v : v[j] # 2}}
Seen(log, f) == {log[i].o : i \in {j \in DOMAIN log : log[j].f = f}}

(* In a call that is resolved, a vptr policy of the program is asked for   *)
(* the v-table pointers of exactly these objects; policies of the library  *)
(* ask for the types of all of them, and no others.                        *)
AskedOK(s, v, objs, log) ==
  /\ (Vptr(s) \in {24, 25} => Seen(log, "dyn") = Asked(v, objs))
  /\ (Vptr(s) \notin {24, 25} => Seen(log, "dyn") = {})
  /\ (Vptr(s) # 0 /\ Lookup(s, 1) \in {12, 13} => Asked(v, objs) \subseteq Seen(log, "type"))
=============================================================================
