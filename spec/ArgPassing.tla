----------------------------- MODULE ArgPassing -----------------------------
(***************************************************************************)
(* Passing arguments through a method call, as in a direct function call.  *)
(*                                                                         *)
(* A location is where a value lives: a variable of the caller, a by-value *)
(* parameter, a temporary.                                                 *)
(*   ty  "own"  a smart pointer (or smart virtual_ptr): o is the object it *)
(*              owns or shares, 0 if null                                  *)
(*       "trk"  an ordinary value: o is its identity, 0 if moved from;     *)
(*              c is how many times it was copied; a is its address, or 0  *)
(*              if it is not known                                         *)
(* A frame is a call in progress.  A parameter is                          *)
(*   md  "val"  by value: a location of its own                            *)
(*       "ref"  by reference (lvalue, const or rvalue): another location   *)
(*       "obj"  a reference, pointer or virtual_ptr to object o            *)
(* An argument is an expression:                                           *)
(*   e  "l"  a location, as a lvalue      "m"  a location, moved           *)
(*      "p"  a new temporary that holds o                                  *)
(*      "c"  a temporary made by converting a location, which is unchanged *)
(*   s  the location: a variable, or (in a frame) a parameter, by position *)
(*                                                                         *)
(* The state does not mention methods, v-tables or thunks.  Binding the    *)
(* parameters of a direct function call changes it in exactly this way;    *)
(* what is observed through the real methods must be the same.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty == [locs |-> [l \in {} |-> 0], vars |-> <<>>, stack |-> <<>>, sink |-> <<>>,
          new |-> 1, made |-> {}, ret |-> [k |-> "none", o |-> 0, c |-> 0, a |-> 0]]

Top(st) == st.stack[Len(st.stack)]
Under(st) == SubSeq(st.stack, 1, Len(st.stack) - 1)

(* How many own o. *)
Holders(st, o) ==
  Cardinality({l \in DOMAIN st.locs : st.locs[l].ty = "own" /\ st.locs[l].o = o})
  + Cardinality({j \in DOMAIN st.sink : st.sink[j].ty = "own" /\ st.sink[j].o = o})

Dead(st) == {o \in st.made : Holders(st, o) = 0}

(* Ordinary values in existence, moved from or not. *)
Living(st) ==
  Cardinality({l \in DOMAIN st.locs : st.locs[l].ty = "trk"})
  + Cardinality({j \in DOMAIN st.sink : st.sink[j].ty = "trk"})

NewLoc(st, r) ==
  [st EXCEPT !.locs = [l \in DOMAIN st.locs \cup {st.new} |->
                          IF l = st.new THEN r ELSE st.locs[l]],
             !.new = st.new + 1,
             !.made = IF r.ty = "own" /\ r.o # 0 THEN st.made \cup {r.o} ELSE st.made]

NewVar(st, r) == [NewLoc(st, r) EXCEPT !.vars = Append(st.vars, st.new)]

(* The location an argument refers to. *)
SourceOf(st, s) == IF st.stack = <<>> THEN st.vars[s] ELSE Top(st).ps[s].l

(* Bind one parameter.  f: the new frame. *)
Bind1(st, base, f, g) ==
  LET src  == SourceOf(base, g.s)
      from == st.locs[src]
      P(md, l, o) == Append(f.ps, [md |-> md, l |-> l, o |-> o])
      fresh(r, md) == [st |-> NewLoc(st, r),
                       f  |-> [ps |-> P(md, st.new, 0), fr |-> f.fr \cup {st.new}, in |-> FALSE]]
  IN IF g.md = "obj" THEN [st |-> st, f |-> [f EXCEPT !.ps = P("obj", 0, g.o)]]
     ELSE IF g.e = "p" THEN fresh([ty |-> g.ty, o |-> g.o, c |-> 0, a |-> 0], g.md)
     ELSE IF g.e = "c" THEN fresh([from EXCEPT !.a = 0], "ref")
     ELSE IF g.md = "ref" THEN [st |-> st, f |-> [f EXCEPT !.ps = P("ref", src, 0)]]
     ELSE IF g.e = "l"
     THEN fresh([from EXCEPT !.c = IF from.ty = "trk" THEN from.c + 1 ELSE 0, !.a = 0], "val")
     ELSE LET b == fresh([from EXCEPT !.a = 0], "val")
          IN [b EXCEPT !.st.locs[src].o = 0]

RECURSIVE BindAll(_, _, _, _)
BindAll(st, base, f, args) ==
  IF args = <<>> THEN [st |-> st, f |-> f]
  ELSE LET b == Bind1(st, base, f, Head(args)) IN BindAll(b.st, base, b.f, Tail(args))

(* A call: parameters are bound; no overrider runs yet. *)
Call(st, args) ==
  LET b == BindAll(st, st, [ps |-> <<>>, fr |-> {}, in |-> FALSE], args)
  IN [b.st EXCEPT !.stack = Append(st.stack, b.f)]

Enter(st) == [st EXCEPT !.stack[Len(st.stack)].in = TRUE]

(* The callee takes what a parameter holds. *)
Steal(st, i) ==
  LET l == Top(st).ps[i].l
  IN [st EXCEPT !.sink = Append(st.sink, st.locs[l]), !.locs[l].o = 0]

Free(st, ls) == [st EXCEPT !.locs = [l \in DOMAIN st.locs \ ls |-> st.locs[l]]]

(* Return, or exit by an exception: parameters and temporaries are gone. *)
Pop(st) == [Free(st, Top(st).fr) EXCEPT !.stack = Under(st)]

Leave(st, ret) == [Pop(st) EXCEPT !.ret = ret]

DropVars(st) == [Free(st, {st.vars[j] : j \in DOMAIN st.vars}) EXCEPT !.vars = <<>>]

---------------------------------------------------------------------------
(* What may be observed of a parameter: o, c, a as above, u the number of  *)
(* owners according to the pointer, same: the overrider's parameter has    *)
(* the type of the method's (no conversion is needed).                     *)
ParamOK(st, i, ob) ==
  LET p == Top(st).ps[i]
      r == st.locs[p.l]
  IN IF p.md = "obj" THEN ob.o = p.o
     ELSE /\ ob.o = r.o
          /\ IF r.ty = "own"
             THEN /\ r.o # 0 => ob.u >= Holders(st, r.o)
                  /\ (p.md = "ref" /\ ob.same = 1 /\ r.a # 0) => ob.a = r.a
             ELSE /\ ob.c = r.c
                  /\ (p.md = "ref" /\ r.a # 0) => ob.a = r.a

VarOK(st, i, ob) ==
  LET r == st.locs[st.vars[i]]
  IN /\ ob.o = r.o
     /\ IF r.ty = "own" THEN r.o # 0 => ob.u = Holders(st, r.o)
        ELSE ob.c = r.c

(* Learn the address of temporaries bound to reference parameters. *)
RECURSIVE Learn(_, _, _)
Learn(st, obs, i) ==
  IF i > Len(obs) THEN st
  ELSE LET p == Top(st).ps[i]
       IN Learn(IF p.md = "ref" /\ st.locs[p.l].a = 0
                   /\ (st.locs[p.l].ty = "trk" \/ obs[i].same = 1)
                THEN [st EXCEPT !.locs[p.l].a = obs[i].a] ELSE st,
                obs, i + 1)

---------------------------------------------------------------------------
(* Properties of the model itself (checked by MCArgPassing). *)

(* an object held by a unique owner never has two *)
Unique(st, us) == \A o \in us : Holders(st, o) <= 1

(* parameters refer to locations that exist *)
NoDangling(st) ==
  \A f \in DOMAIN st.stack : \A i \in DOMAIN st.stack[f].ps :
     st.stack[f].ps[i].md # "obj" => st.stack[f].ps[i].l \in DOMAIN st.locs

(* nothing is left when no call is in progress *)
NoLeak(st) ==
  st.stack = <<>> => DOMAIN st.locs = {st.vars[j] : j \in DOMAIN st.vars}
=============================================================================
