---------------------------- MODULE ErrorHandling ----------------------------
(***************************************************************************)
(* What happens to the errors of a registry: which handler gets them, what *)
(* is written, what reaches the caller.  The registries and the methods    *)
(* are those of harness/errors.cpp:                                        *)
(*   registries 0, 1, 2, 6 have a handler that can be set, 3 the one that  *)
(*   throws, 4 none, 5 one defined by the user; all but 2 have an output.  *)
(*                                                                         *)
(* An operation is Apply(st, op): the set of its possible outcomes, each   *)
(* [st, obs].  An operation that aborts is executed in a copy of the       *)
(* program, so that the state does not change.                             *)
(*                                                                         *)
(* st.init[r]: "no", "yes", "stale" (registrations have changed since), or *)
(* "maybe": after an initialize that failed calls are rejected, or behave  *)
(* as before.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Regs

Kind(r) == CASE r \in {0, 1, 2, 6} -> "set" [] r = 3 -> "throw" [] r = 4 -> "none" [] r = 5 -> "own"
HasOutput(r) == r # 2

Default == 0       (* the default handler *)
None    == -9

Start == [init  |-> [r \in Regs |-> "no"],
          bad   |-> [r \in Regs |-> 0],       (* what is wrong with the registrations *)
          h     |-> [r \in Regs |-> IF Kind(r) = "set" THEN Default ELSE None],
          saved |-> [r \in Regs |-> None],    (* what `set` returned last *)
          own   |-> 0,                        (* what the handler of registry 5 does *)
          on    |-> TRUE]                     (* the output of registry 1 *)

(***************************************************************************)
(* Errors: [t |-> type, ty |-> classes in the error].  Classes: 1 A, 2 B:A,*)
(* 3 C:B, 4 U:A (not registered), 5 V, 6 W, 7 Y:W.                         *)
(***************************************************************************)
Err(t, ty)     == [t |-> t, ty |-> ty]
NotInitialized == Err(-3, <<>>)

(* What a call comes to: an error, or the result code; and the overriders  *)
(* that run before.                                                        *)
E(chain, err)  == [chain |-> chain, err |-> <<err>>, code |-> 0]
V(chain, code) == [chain |-> chain, err |-> <<>>, code |-> code]

Initialized(e) ==
  CASE e = 1 -> E(<<>>, Err(0, <<1>>))
    [] e = 2 -> E(<<>>, Err(-1, <<2, 3>>))
    [] e = 3 -> E(<<2, 1>>, Err(0, <<3>>))       (* reached via next *)
    [] e = 4 -> E(<<>>, Err(-2, <<4>>))
    [] e = 5 -> E(<<>>, Err(-2, <<4>>))
    [] e = 6 -> E(<<>>, Err(-6, <<1, 2>>))
    [] e = 7 -> V(<<5>>, 35)
    [] e = 8 -> V(<<3>>, 7)

(* for an object of an unknown class, and a wrong `final`, either is right *)
Uninitialized(e) == {E(<<>>, NotInitialized)} \cup (IF e \in {4, 5, 6} THEN {Initialized(e)} ELSE {})

Results(i, e) ==
  CASE i = "yes" -> {[r |-> Initialized(e), init |-> "yes"]}
    [] i = "no"  -> {[r |-> x, init |-> "no"] : x \in Uninitialized(e)}
    [] i = "maybe" ->
         IF e \in {4, 5, 6}
         THEN {[r |-> x, init |-> "maybe"] : x \in Uninitialized(e) \cup {Initialized(e)}}
         ELSE {[r |-> Initialized(e), init |-> "yes"]}
              \cup {[r |-> x, init |-> "no"] : x \in Uninitialized(e)}

InitErrors(bad, pf) ==
  (IF bad \in {1, 3} THEN {Err(-2, <<5>>)} ELSE {})
  \cup (IF bad \in {2, 3} THEN {Err(-4, <<6, 7>>)} ELSE {})
  \cup (IF pf = 1 THEN {Err(-7, <<>>)} ELSE {})

(***************************************************************************)
(* Handling an error.  obs.del: what the handlers received; obs.msg: for   *)
(* each message written, <<registry, error>>; obs.what: the description in *)
(* the exception, <<registry, error>>.  The handlers of the user:          *)
(*   1, 3, 6 throw; 2 returns; 4 makes handler 1 current, then throws;     *)
(*   5 makes a call that fails and is handled by 1, then throws;           *)
(*   7 makes handler 3 current, then returns.                              *)
(* The library goes no further after a handler that returned; but an error *)
(* may also be reported by the program itself (direct).                    *)
(***************************************************************************)
Del(r, h, err) == [r |-> r, h |-> h, t |-> err.t, ty |-> err.ty]

Obs(how, thrown, code, del, chain, msg, what) ==
  [how |-> how, thrown |-> thrown, code |-> code, del |-> del, chain |-> chain,
   msg |-> msg, what |-> what]

(* the call of handler 5, of which only the error matters *)
Nested(i, initializing) ==
  IF initializing \/ i \in {"maybe", "stale"} THEN {Err(0, <<1>>), NotInitialized}
  ELSE {x.r.err[1] : x \in Results(i, 1)}

Handle(st, r, err, chain, initializing, direct) ==
  LET k == Kind(r)
      h == st.h[r]
      Return(s, del, msg) == {IF direct THEN [st |-> s, obs |-> Obs("back", 0, 0, del, chain, msg, <<>>)]
                              ELSE [st |-> st, obs |-> Obs("abort", 0, 0, del, chain, msg, <<>>)]}
      Throw(s, x, del, ch, what) == [st |-> s, obs |-> Obs("back", x, 0, del, ch, <<>>, what)]
  IN
  CASE k = "none"  -> Return(st, <<>>, <<>>)
    [] k = "throw" -> {Throw(st, 100, <<Del(r, 100, err)>>, chain, <<r, err>>)}
    [] k = "own"   -> IF st.own = 1 THEN {Throw(st, 50, <<Del(r, 50, err)>>, chain, <<>>)}
                      ELSE Return(st, <<Del(r, 50, err)>>, <<>>)
    [] k = "set" /\ h = Default ->
         Return(st, <<>>, IF HasOutput(r) /\ (r = 1 => st.on) THEN <<r, err>> ELSE <<>>)
    [] k = "set" /\ h = 2 -> Return(st, <<Del(r, 2, err)>>, <<>>)
    [] k = "set" /\ h = 7 -> Return([st EXCEPT !.h[r] = 3], <<Del(r, 7, err)>>, <<>>)
    [] k = "set" /\ h \in {1, 3, 6} -> {Throw(st, h, <<Del(r, h, err)>>, chain, <<>>)}
    [] k = "set" /\ h = 4 -> {Throw([st EXCEPT !.h[r] = 1], 4, <<Del(r, 4, err)>>, chain, <<>>)}
    [] k = "set" /\ h = 5 ->
         {Throw(st, 5, <<Del(r, 5, err), Del(r, 1, e2)>>, chain \o <<90>>, <<>>)
            : e2 \in Nested(st.init[r], initializing)}

(***************************************************************************)
(* Operations: [op, r, x]                                                  *)
(***************************************************************************)
Quiet(st) == [st |-> st, obs |-> Obs("back", 0, 0, <<>>, <<>>, <<>>, <<>>)]
(* `set` returns the previous handler, here in code *)
Prev(st, p) == [st |-> st, obs |-> Obs("back", 0, p, <<>>, <<>>, <<>>, <<>>)]

Possible(st, o) ==
  CASE o.op = "call"    -> st.init[o.r] # "stale"
    [] o.op = "set"     -> Kind(o.r) = "set"
    [] o.op = "error"   -> Kind(o.r) # "none"
    [] o.op = "restore" -> st.saved[o.r] # None
    [] OTHER            -> TRUE

(* errors the program reports *)
Reported(x) == CASE x = 1 -> NotInitialized [] x = 2 -> Err(-2, <<4>>) [] x = 3 -> Err(-7, <<>>)

After(st, o) == IF st.init[o.r] = "no" THEN "no" ELSE "maybe"

Apply(st, o) ==
  CASE o.op = "own" -> {Quiet([st EXCEPT !.own = o.x])}
    [] o.op = "out" -> {Quiet([st EXCEPT !.on = o.x = 1])}
    [] o.op = "set" ->
         {Prev([st EXCEPT !.h[o.r] = o.x, !.saved[o.r] = st.h[o.r]], st.h[o.r])}
    [] o.op = "restore" ->
         {Prev([st EXCEPT !.h[o.r] = st.saved[o.r], !.saved[o.r] = st.h[o.r]], st.h[o.r])}
    [] o.op = "put" ->
         {Quiet([st EXCEPT !.bad[o.r] = o.x,
                           !.init[o.r] = IF o.x # st.bad[o.r] /\ @ # "no" THEN "stale" ELSE @])}
    [] o.op = "error" -> Handle(st, o.r, Reported(o.x), <<>>, FALSE, TRUE)
    [] o.op = "fini" -> {Quiet([st EXCEPT !.init[o.r] = "no"])}
    [] o.op = "init" ->
         LET es == InitErrors(st.bad[o.r], o.x) IN
         IF es = {} THEN {Quiet([st EXCEPT !.init[o.r] = "yes"])}
         ELSE UNION {{[y EXCEPT !.st.init[o.r] = IF y.obs.how = "abort" THEN @ ELSE After(st, o)]
                        : y \in Handle(st, o.r, e, <<>>, TRUE, FALSE)} : e \in es}
    [] o.op = "call" ->
         UNION {IF x.r.err = <<>>
                THEN {[st  |-> [st EXCEPT !.init[o.r] = x.init],
                       obs |-> Obs("back", 0, x.r.code, <<>>, x.r.chain, <<>>, <<>>)]}
                ELSE {[y EXCEPT !.st.init[o.r] = IF y.obs.how = "abort" THEN @ ELSE x.init]
                        : y \in Handle(st, o.r, x.r.err[1], x.r.chain, FALSE, FALSE)}
                : x \in Results(st.init[o.r], o.x)}

(***************************************************************************)
(* Properties of an outcome y of operation o in state st                   *)
(***************************************************************************)
Fails(y) == y.obs.how = "abort" \/ y.obs.thrown # 0

(* an error goes to the current handler, and only there, once *)
OnceToCurrent(st, o, y) ==
  LET d == y.obs.del
      mine == SelectSeq(d, LAMBDA x : x.h \notin {1} \/ st.h[o.r] = 1)
  IN Fails(y) \/ o.op = "error" =>
       CASE Kind(o.r) = "set" /\ st.h[o.r] = Default ->
              d = <<>> /\ (Len(y.obs.msg) = 2 <=> HasOutput(o.r) /\ (o.r = 1 => st.on))
         [] Kind(o.r) = "set" /\ st.h[o.r] # Default ->
              Len(mine) = 1 /\ mine[1].h = st.h[o.r] /\ y.obs.msg = <<>>
         [] Kind(o.r) = "none" -> d = <<>> /\ y.obs.msg = <<>>
         [] OTHER -> Len(d) = 1 /\ y.obs.msg = <<>>

(* after an error the caller gets an exception, or the program is over *)
NeverContinues(st, o, y) ==
  (y.obs.del # <<>> \/ y.obs.msg # <<>>) => Fails(y) \/ o.op = "error"

(* other registries are not concerned *)
Local(st, o, y) ==
  \A r \in Regs \ {o.r} :
     /\ y.st.init[r] = st.init[r] /\ y.st.h[r] = st.h[r] /\ y.st.saved[r] = st.saved[r]
     /\ \A j \in DOMAIN y.obs.del : y.obs.del[j].r # r
==============================================================================
