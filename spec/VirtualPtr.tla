---------------------------- MODULE VirtualPtr ----------------------------
(***************************************************************************)
(* Virtual pointers: what each pointer designates, who owns the objects,   *)
(* and where calls through virtual pointers lead.                          *)
(*                                                                         *)
(* Pointers live in slots.  Slots 0..19 hold standard pointers, of kind    *)
(*   0 plain   1 std::shared_ptr   2 std::unique_ptr                       *)
(*   3 boost::intrusive_ptr                                                *)
(* and of static type A, const A, B, M or V (slot = 5 * kind + type).      *)
(* Slots 20..59 hold virtual_ptrs to or based on them, two of each type.   *)
(*                                                                         *)
(* A slot is Empty, or contains 0 (null) or the number of an object.  An   *)
(* object is of a dynamic class, and dies with its last owner.             *)
(*                                                                         *)
(* The essential statement of the module is that a virtual pointer has no  *)
(* state of its own besides the object it designates: all operations are   *)
(* those of the underlying pointers, and the outcome of a call depends on  *)
(* the class of the object and on what was last initialized, not on the    *)
(* pointer used, nor on how and when it was obtained.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty == -1
Slots == 0..59

(* Classes: 1 A, 2 M, 3 B : A, 4 C : M, A, 5 D : B, M, 6 V : virtual A,    *)
(* 7 X : B (registered late), 8 U : A (never registered).                  *)
Classes == 1..8
Ancestors == <<{1}, {2}, {3, 1}, {4, 2, 1}, {5, 3, 2, 1}, {6, 1}, {7, 3, 1}, {8, 1}>>
IsA(c, b) == b \in Ancestors[c]

Virtual(s) == s >= 20
Type(s) == IF Virtual(s) THEN (s - 20) \div 2 ELSE s
Kind(s) == Type(s) \div 5
StaticClass(s) == <<1, 1, 3, 2, 6>>[(Type(s) % 5) + 1]
Const(s) == Type(s) % 5 = 1
Smart(s) == Kind(s) # 0

(* The static type of d can hold what s designates, without a cast. *)
Upcast(d, s) == IsA(StaticClass(s), StaticClass(d)) /\ (Const(s) => Const(d))
Related(d, s) == \/ IsA(StaticClass(s), StaticClass(d))
                 \/ IsA(StaticClass(d), StaticClass(s))

(* Can d be initialized or assigned from s?  As for the underlying         *)
(* pointers, plus: a plain virtual_ptr from any kind of virtual_ptr.       *)
Convertible(d, s, m) ==
  /\ Upcast(d, s)
  /\ \/ Kind(d) = Kind(s) /\ (Virtual(s) => Virtual(d))
     \/ Kind(d) = 0 /\ Virtual(d) /\ Virtual(s)
  /\ Kind(d) = 2 => m = "m"
  /\ m = "p" => Kind(d) = 0 /\ Virtual(d) /\ ~ Virtual(s)

---------------------------------------------------------------------------
(* The state is a record:                                                  *)
(*   slots                                                                 *)
(*   objs      sequence of [c: class, m: 0 never dies, otherwise the kind  *)
(*             of smart pointer that owns it, k: killed]                   *)
(*   ov, xr    registered: the classes whose overriders are, and class X   *)
(*   iov, ixr  the same when initialize was last called                    *)
(*   init      initialized                                                 *)
(*   cfg       [indirect, checks, inplace, fixed, abstract]: the registry, *)
(*             the classes have embedded v-table pointers, all the         *)
(*             overriders but those for X are there from the beginning,    *)
(*             class 2 is abstract                                         *)

Start(cfg) == [slots |-> [s \in Slots |-> Empty], objs |-> <<>>,
               ov |-> IF cfg.fixed THEN {3, 4, 5, 6} ELSE {},
               xr |-> cfg.inplace, iov |-> {}, ixr |-> cfg.inplace,
               init |-> FALSE, cfg |-> cfg]

Owners(st, o) == {s \in Slots : st.slots[s] = o /\ Smart(s)}
Alive(st, o) == ~ st.objs[o].k /\ (st.objs[o].m = 0 \/ Owners(st, o) # {})

(* An object that has lost its last owner is dead for good. *)
Reap(st) == [st EXCEPT !.objs = [o \in DOMAIN st.objs |->
               [st.objs[o] EXCEPT !.k = ~ Alive(st, o)]]]

Set(st, d, v) == [st EXCEPT !.slots[d] = v]
NewObj(st, c, m) == [st EXCEPT !.objs = Append(@, [c |-> c, m |-> m, k |-> FALSE])]

(* the registrations that a virtual pointer to an object of class c needs *)
Registered(st, c) == c \in 1..6 \/ (c = 7 /\ st.ixr)
AcquireError(st, c) == IF ~ st.init THEN -3
                       ELSE IF ~ Registered(st, c) THEN -2
                       ELSE 0
NoError == [e |-> 0, t1 |-> 0, t2 |-> 0]
Error(e, t1, t2) == [e |-> e, t1 |-> t1, t2 |-> t2]

Acquires(d, s) == Virtual(d) /\ ~ Virtual(s)
Deref(st, s) == st.slots[s] > 0 /\ Alive(st, st.slots[s])
ClassOf(st, s) == st.objs[st.slots[s]].c

(* without checks, misuse is excluded *)
Known(st, s) == st.cfg.checks \/ AcquireError(st, ClassOf(st, s)) = 0

(* What remains in s after it was moved to d. *)
Moved(st, d, s, m) == IF m = "m" /\ Smart(s) /\ Smart(d) /\ d # s THEN Set(st, s, 0) ELSE st

Overrider(st, c, base) ==
  LET present == {k \in Ancestors[c] : IsA(k, base) /\ (k = base \/ k \in st.iov)}
  IN CHOOSE k \in present : present \subseteq Ancestors[k]

---------------------------------------------------------------------------
(* Operations.  Possible: 0 yes, 1 excluded (a precondition of the pointer *)
(* does not hold), 2 there is no such operation (it does not compile).     *)

Possible(st, o) ==
  LET d == o.d
      s == o.s
      m == o.m
      NE(x) == st.slots[x] # Empty
  IN CASE o.op \in {"ctor", "assign"} ->
            IF ~ Convertible(d, s, m) THEN 2
            ELSE IF ~ NE(s) \/ (o.op = "ctor" /\ d = s) \/ (o.op = "assign" /\ ~ NE(d)) THEN 1
            (* a conversion to a virtual base needs the object *)
            ELSE IF /\ StaticClass(s) = 6 /\ StaticClass(d) # 6
                    /\ st.slots[s] > 0 /\ ~ Deref(st, s)
                 THEN 1
            ELSE IF Acquires(d, s)
                 THEN IF st.slots[s] = 0 /\ Smart(s) THEN 0
                      ELSE IF Deref(st, s) /\ Known(st, s) THEN 0 ELSE 1
            ELSE 0
       [] o.op = "cast" ->
            IF ~ (Virtual(d) /\ Virtual(s) /\ Kind(d) = Kind(s) /\ Related(d, s)
                  /\ (Const(s) => Const(d)) /\ (Kind(d) = 2 => m = "m"))
            THEN 2
            ELSE IF NE(s) /\ Deref(st, s) /\ IsA(ClassOf(st, s), StaticClass(d))
                 THEN 0 ELSE 1
       [] o.op = "final" ->
            IF ~ (Acquires(d, s) /\ Type(d) = Type(s) /\ (Smart(d) => m \in {"m", "p"}))
            THEN 2
            ELSE IF NE(s) /\ Deref(st, s) /\ Known(st, s)
                    /\ (st.cfg.checks \/ ClassOf(st, s) = StaticClass(s))
                 THEN 0 ELSE 1
       [] o.op = "get" ->
            IF ~ (d < 5 /\ Type(s) % 5 = d /\ s # d) THEN 2 ELSE IF NE(s) THEN 0 ELSE 1
       [] o.op = "pointer" ->
            IF ~ (~ Virtual(d) /\ Virtual(s) /\ Type(d) = Type(s) /\ Kind(d) # 2)
            THEN 2 ELSE IF NE(s) THEN 0 ELSE 1
       [] o.op = "cmp" ->
            IF ~ (Virtual(d) /\ Virtual(s) /\ Kind(d) = Kind(s) /\ Related(d, s))
            THEN 2
            ELSE IF NE(d) /\ NE(s) /\ \A x \in {d, s} : st.slots[x] = 0 \/ Deref(st, x)
                 THEN 0 ELSE 1
       [] o.op = "swap" ->
            IF ~ (Virtual(d) /\ Virtual(s) /\ Type(d) = Type(s)) THEN 2
            ELSE IF NE(d) /\ NE(s) THEN 0 ELSE 1
       [] o.op = "pass" ->
            IF ~ (Virtual(d) /\ Virtual(s) /\ Type(d) = Type(s) /\ Smart(d)
                  /\ (Kind(d) = 2 => m = "m"))
            THEN 2 ELSE IF NE(s) /\ Deref(st, s) /\ st.init THEN 0 ELSE 1
       [] o.op = "null" -> IF NE(d) THEN 0 ELSE 1
       [] o.op = "def" -> IF Kind(d) = 0 THEN 2 ELSE 0
       [] o.op = "make" ->
            IF ~ (Virtual(d) /\ Smart(d)) \/ (st.cfg.abstract /\ StaticClass(d) = 2) THEN 2
            ELSE IF st.cfg.checks \/ st.init THEN 0 ELSE 1
       [] o.op = "new" ->
            IF ~ Virtual(d) /\ IsA(o.x, StaticClass(d)) /\ ~ (st.cfg.abstract /\ o.x = 2)
            THEN 0 ELSE 2
       [] o.op = "ov" -> IF st.cfg.fixed \/ (o.x = 7 /\ ~ st.ixr /\ o.s = 1) THEN 1 ELSE 0
       [] o.op = "xclass" -> IF st.cfg.inplace THEN 1 ELSE 0
       [] OTHER -> 0

(* Clear slots: all virtual ones, or all of them, and the objects. *)
ClearVirtual(st) == [st EXCEPT !.slots = [x \in Slots |-> IF Virtual(x) THEN Empty ELSE @[x]]]
ClearAll(st) == [st EXCEPT !.slots = [x \in Slots |-> Empty],
                           !.objs = [o \in DOMAIN @ |-> [@[o] EXCEPT !.k = TRUE]]]

(* The result of a possible operation: [st, err, r]. *)
Apply(st, o) ==
  LET d == o.d
      s == o.s
      m == o.m
      v == st.slots[s]
      Done(t) == [st |-> Reap(t), err |-> NoError, r |-> 0]
      Fail(t, e) == [st |-> Reap(t), err |-> e, r |-> 0]
  IN CASE o.op \in {"ctor", "assign"} ->
            LET c == ClassOf(st, s)
                e == IF Acquires(d, s) /\ v > 0 THEN AcquireError(st, c) ELSE 0
            IN IF e # 0
               THEN Fail(IF o.op = "ctor" THEN Set(st, d, Empty) ELSE st,
                         Error(e, IF e = -2 THEN c ELSE 0, 0))
               ELSE Done(Moved(Set(st, d, v), d, s, m))
       [] o.op = "cast" -> Done(Moved(Set(st, d, v), d, s, m))
       [] o.op = "final" ->
            IF ~ st.init THEN Fail(st, Error(-3, 0, 0))
            ELSE IF ClassOf(st, s) # StaticClass(s)
                 THEN Fail(st, Error(-6, StaticClass(s), ClassOf(st, s)))
            ELSE Done(Moved(Set(st, d, v), d, s, "m"))
       [] o.op \in {"get", "pointer"} -> Done(Set(st, d, v))
       [] o.op = "cmp" -> [st |-> st, err |-> NoError,
                           r |-> IF st.slots[d] = v THEN 10 ELSE 1]
       [] o.op = "swap" -> Done(Set(Set(st, d, v), s, st.slots[d]))
       [] o.op = "pass" ->
            [st |-> Reap(Set(IF m = "m" THEN Set(st, s, 0) ELSE st, d, v)),
             err |-> NoError,
             r |-> 1000 * Overrider(st, ClassOf(st, s), StaticClass(s)) + v]
       [] o.op \in {"null", "nullc", "def"} -> Done(Set(st, d, 0))
       [] o.op = "drop" -> Done(Set(st, d, Empty))
       [] o.op = "make" ->
            IF ~ st.init THEN Fail(st, Error(-3, 0, 0))
            ELSE LET t == NewObj(st, StaticClass(d), Kind(d))
                 IN Done(Set(t, d, Len(t.objs)))
       [] o.op = "new" ->
            LET t == NewObj(Reap(Set(st, d, Empty)), o.x, Kind(d))
            IN Done(Set(t, d, Len(t.objs)))
       [] o.op = "ov" ->
            Done([st EXCEPT !.ov = IF o.s = 1 THEN @ \cup {o.x} ELSE @ \ {o.x}])
       [] o.op = "xclass" -> Done([st EXCEPT !.xr = TRUE])
       [] o.op = "init" ->
            LET t == IF st.cfg.indirect /\ st.init THEN st
                     ELSE IF st.cfg.inplace THEN ClearAll(st) ELSE ClearVirtual(st)
            IN Done([t EXCEPT !.iov = t.ov, !.ixr = t.xr, !.init = TRUE])
       [] o.op = "fin" ->
            LET t == IF st.cfg.inplace THEN ClearAll(st)
                     ELSE IF st.cfg.checks THEN st ELSE ClearVirtual(st)
            IN Done([t EXCEPT !.init = FALSE])
       [] o.op = "clear" -> Done(ClearAll(st))

---------------------------------------------------------------------------
(* Observations *)

Count(st, s) ==
  IF st.slots[s] > 0 /\ Smart(s) THEN Cardinality(Owners(st, st.slots[s])) ELSE 0

(* The class of an inplace object without registration is its base's. *)
Call(st, s) ==
  IF Virtual(s) /\ st.slots[s] > 0 /\ Alive(st, st.slots[s])
  THEN IF st.init THEN 1000 * Overrider(st, ClassOf(st, s), StaticClass(s)) + st.slots[s]
       ELSE -3   \* only with runtime checks
  ELSE 0

Dead(st, o) ==
  IF Alive(st, o) THEN 0
  ELSE (IF IsA(st.objs[o].c, 1) THEN 10 ELSE 0) + (IF IsA(st.objs[o].c, 2) THEN 1 ELSE 0)

Live(st, part) == Cardinality({o \in DOMAIN st.objs : Alive(st, o) /\ IsA(st.objs[o].c, part)})

---------------------------------------------------------------------------
(* Properties of the state machine *)

(* No owner designates a dead object, and unique pointers are unique. *)
NoDanglingOwner(st) == \A s \in Slots : Smart(s) /\ st.slots[s] > 0 => Alive(st, st.slots[s])
UniqueOwner(st) == \A o \in DOMAIN st.objs : st.objs[o].m = 2 => Cardinality(Owners(st, o)) <= 1
SameFamily(st) == \A o \in DOMAIN st.objs : \A s \in Owners(st, o) : Kind(s) = st.objs[o].m
WellTyped(st) == \A s \in Slots : st.slots[s] > 0 => IsA(ClassOf(st, s), StaticClass(s))
=============================================================================
