---------------------------- MODULE MCArgPassing ----------------------------
(***************************************************************************)
(* Every short history of calls, on one uniquely owned object (1), one     *)
(* shared object (2), and one ordinary value (3).                          *)
(***************************************************************************)
EXTENDS ArgPassing, TLC

CONSTANT Depth, MaxVars, MaxSink, MaxNew

VARIABLE st

Kinds == {[ty |-> "own", o |-> 1], [ty |-> "own", o |-> 2], [ty |-> "trk", o |-> 3]}
Used == st.made \cup {st.locs[l].o : l \in {k \in DOMAIN st.locs : st.locs[k].ty = "trk"}}

Init == st = Empty

Declare == /\ st.stack = <<>> /\ Len(st.vars) < MaxVars /\ st.new < MaxNew
           /\ \E k \in Kinds :
                /\ k.o = 2 \/ k.o \notin Used
                /\ k.o = 2 => Holders(st, 2) > 0 \/ 2 \notin st.made
                /\ st' = NewVar(st, [ty |-> k.ty, o |-> k.o, c |-> 0, a |-> 0])

(* What can be passed: by value or reference; lvalues of the unique owner  *)
(* only by reference.                                                      *)
Sources == IF st.stack = <<>> THEN DOMAIN st.vars
           ELSE {i \in DOMAIN Top(st).ps : Top(st).ps[i].md # "obj"}
At(s) == st.locs[SourceOf(st, s)]
Exprs ==
  {[md |-> md, ty |-> At(s).ty, e |-> e, s |-> s, o |-> 0] :
      md \in {"val", "ref"}, e \in {"l", "m"}, s \in Sources}
  \cup {[md |-> md, ty |-> k.ty, e |-> "p", s |-> 0, o |-> k.o] :
          md \in {"val", "ref"}, k \in {x \in Kinds : x.o \notin Used}}
Legal(g) == g.e = "p" \/ ~ (g.md = "val" /\ g.e = "l" /\ At(g.s).ty = "own" /\ At(g.s).o = 1)
(* one location is not both moved from and used elsewhere in the same call *)
Compatible(g, h) ==
  \/ g.s # h.s
  \/ g.s = 0 /\ g.o # h.o
  \/ g.s # 0 /\ g.e = "l" /\ h.e = "l"

Invoke == /\ Len(st.stack) < Depth /\ st.new < MaxNew
          /\ st.stack # <<>> => Top(st).in
          /\ LET E == {g \in Exprs : Legal(g)}
             IN \/ \E g \in E : st' = Call(st, <<g>>)
                \/ \E g, h \in E : Compatible(g, h) /\ st' = Call(st, <<g, h>>)

Start == st.stack # <<>> /\ ~ Top(st).in /\ st' = Enter(st)
Take == /\ st.stack # <<>> /\ Top(st).in /\ Len(st.sink) < MaxSink
        /\ \E i \in DOMAIN Top(st).ps :
             /\ Top(st).ps[i].md = "val"
             /\ st.locs[Top(st).ps[i].l].o # 0
             /\ st' = Steal(st, i)
(* by return, exception, or because there is no overrider *)
Exit == st.stack # <<>> /\ st' = Pop(st)
Drop == st.stack = <<>> /\ st.vars # <<>> /\ st' = DropVars(st)
Flush == st.stack = <<>> /\ st.sink # <<>> /\ st' = [st EXCEPT !.sink = <<>>]

Next == Declare \/ Invoke \/ Start \/ Take \/ Exit \/ Drop \/ Flush
Spec == Init /\ [][Next]_st

UniqueOwner == Unique(st, {1})
NothingDangles == NoDangling(st)
NothingLeaks == NoLeak(st)
(* values are copied only to initialize by-value parameters from lvalues,  *)
(* so at most once per call in progress                                    *)
Copies == \A l \in DOMAIN st.locs : st.locs[l].c <= Depth
(* what was released is never owned again *)
NoRevival == [][Dead(st) \subseteq Dead(st')]_st
=============================================================================
