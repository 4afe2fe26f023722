--------------------------- MODULE TraceRegistry ---------------------------
(***************************************************************************)
(* Trace validation: is what the real library did a behaviour of Registry? *)
(* The trace is a set of chunks (files), each a sequence of events written *)
(* by harness/engine_main.cpp.  Every event must be explained by the       *)
(* state.  There are several registries, which must not interfere: `regs`  *)
(* maps each to its own state, and each event is about one of them.        *)
(*                                                                         *)
(* On a mismatch the event is printed with what the specification expects, *)
(* and validation resumes at the next "reset" (a new scenario).            *)
(***************************************************************************)
EXTENDS Registry, TLC, Json, IOUtils

Dir     == IOEnv.TRACE_DIR
NChunks == atoi(IOEnv.TRACE_CHUNKS)

Traces == [c \in 1..NChunks |-> ndJsonDeserialize(Dir \o "/t" \o ToString(c) \o ".ndjson")]

Registries == 0..14

VARIABLES
  ck, i,   \* chunk, position in the chunk
  regs,    \* state of each registry
  grouped, \* 0, or how the groups the scenario is made of differ (see InGroups)
  seen,    \* what was observed in the previous groups of the scenario
  skip     \* skipping until the next scenario

vars == <<ck, i, regs, grouped, seen, skip>>

Ev == Traces[ck][i]

(* memo: what was picked arbitrarily since the last initialize (N2216)     *)
(* shaky: the last `initialize` failed; calls may be rejected              *)
Fresh == [units |-> <<>>, meths |-> <<>>, pub |-> None, memo |-> <<>>, shaky |-> FALSE]

Init == /\ ck \in 1..NChunks
        /\ i = 1
        /\ regs = [s \in Registries |-> Fresh]
        /\ grouped = 0
        /\ seen = <<>>
        /\ skip = FALSE

(* At most 20 per kind and worker are printed. *)
ASSUME TLCSet(1, <<>>)
Report_(what, expected) ==
  LET n == IF what \in DOMAIN TLCGet(1) THEN TLCGet(1)[what] ELSE 0
  IN /\ TLCSet(1, [w \in DOMAIN TLCGet(1) \cup {what} |->
                     IF w = what THEN n + 1 ELSE TLCGet(1)[w]])
     /\ n < 20 => PrintT(<<"MISMATCH", ck, i, what, ToString(expected), ToString(Ev)>>)

---------------------------------------------------------------------------
(* One call: observed chain k = <<ov, has_next, ov, has_next, ...>>,       *)
(* terminal code x (0 no_overrider, -1 ambiguous, 1 returned).             *)

IsOv(s) == \A z \in s : z > 0

(* The part of the chain that follows the selection of the overrider.      *)
RECURSIVE NextOK(_, _, _, _)
NextOK(plan, prev, k, x) ==
  IF k = <<>> THEN x \in plan.next[prev] /\ x <= 0
  ELSE /\ k[1] \in plan.next[prev]
       /\ k[1] > 0
       /\ k[2] = IF IsOv(plan.next[k[1]]) THEN 1 ELSE 0
       /\ NextOK(plan, k[1], SubSeq(k, 3, Len(k)), x)

ArgClasses(a) == [j \in DOMAIN a |-> ClassOf(a[j])]

ReportOK(m, t, args, plan) ==
  /\ t.ty = args
  /\ t.e = m
  /\ t.n = Len(plan.p)
  /\ t.h = 1

(* "" if the call is explained, or what is wrong with it *)
CallVerdict(reg, m, t, f) ==
  LET pub     == reg.pub
      plan    == pub.plans[m]
      unknown == {t.a[j] : j \in DOMAIN t.a} \ pub.types
      args    == ArgClasses(t.a)
      allowed == Outcomes(pub.up, plan, args)
      n22     == IF plan.n2216 THEN "n2216" ELSE "call"
  IN IF pub.st = "none"
     THEN IF t.x = -3 /\ t.k = <<>> /\ t.h = 1 THEN "" ELSE "call.notinit"
     ELSE IF reg.shaky /\ t.x = -3 /\ t.k = <<>> /\ t.h = 1 THEN ""
     ELSE IF unknown # {}
     THEN IF t.x = -2 /\ t.k = <<>> /\ t.h = 1 /\ \E u \in unknown : t.ty = <<ClassOf(u)>>
          THEN "" ELSE "call.unknown"
     ELSE IF t.x \notin {1, 0, -1}
     THEN IF IsOv(allowed) THEN n22 \o ".select" ELSE "call.error"
     ELSE IF t.k = <<>>
     THEN IF t.x = 1 \/ t.x \notin allowed
          THEN IF IsOv(allowed) THEN n22 \o ".select" ELSE "call.error"
          ELSE IF ReportOK(m, t, args, plan) THEN "" ELSE "call.report"
     ELSE IF t.k[1] \notin allowed
     THEN IF IsOv(allowed) THEN n22 \o ".select" ELSE "call.error"
     ELSE IF t.bad # 0 THEN "call.args"
     ELSE IF t.k[2] # (IF IsOv(plan.next[t.k[1]]) THEN 1 ELSE 0) THEN "call.next"
     ELSE IF f = 0
     THEN IF Len(t.k) # 2 \/ t.x # 1 \/ t.h # 0 THEN n22 \o ".select"
          ELSE IF t.r # t.k[1] THEN "call.ret" ELSE ""
     ELSE IF ~ NextOK(plan, t.k[1], SubSeq(t.k, 3, Len(t.k)), t.x) THEN "call.next"
     ELSE IF ReportOK(m, t, args, plan) THEN "" ELSE "call.report"

(* N2216: an arbitrary choice must be the same for every call. *)
Key(m, t) == <<m, t.a>>
Stable(reg, m, t) ==
  LET key == Key(m, t) IN key \in DOMAIN reg.memo => reg.memo[key] = t.k
NewMemo(reg, e) ==
  IF reg.pub.st = "none" \/ reg.shaky \/ ~ reg.pub.plans[e.m].n2216 \/ e.f # 1 THEN reg.memo
  ELSE [key \in DOMAIN reg.memo \cup {Key(e.m, e.t[j]) : j \in DOMAIN e.t} |->
          IF key \in DOMAIN reg.memo THEN reg.memo[key]
          ELSE (CHOOSE q \in {e.t[j] : j \in DOMAIN e.t} : Key(e.m, q) = key).k]

(* Registration order: what a call did, in terms that do not depend on the *)
(* order in which overriders are registered.                               *)
Sigs(reg, m, k) ==
  [j \in DOMAIN k |-> IF j % 2 = 0 THEN k[j]
                      ELSE <<reg.meths[m].o[k[j]], reg.meths[m].ret[k[j]]>>]
Observed(reg, m, t) == <<Sigs(reg, m, t.k), t.x, t.ty>>
OrderKey(s, m, t) == <<s, m, ArgClasses(t.a)>>

InGroups == grouped # 0
(* 1: registered in different ways; 2: as in several runs of a program *)
(* observations of the current event, as a function *)
Obs(reg, e) ==
  LET rows == {e.t[j] : j \in DOMAIN e.t}
  IN [key \in {OrderKey(e.s, e.m, t) : t \in rows} |->
        Observed(reg, e.m, CHOOSE t \in rows : OrderKey(e.s, e.m, t) = key)]
OrderOK(obs) == \A key \in DOMAIN obs \cap DOMAIN seen : obs[key] = seen[key]
Union(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

Expect(reg, e, j) ==
  IF reg.pub.st = "none" THEN <<"not_initialized">>
  ELSE <<e.t[j], "expected", Outcomes(reg.pub.up, reg.pub.plans[e.m], ArgClasses(e.t[j].a)),
         reg.pub.plans[e.m]>>

---------------------------------------------------------------------------

Adv == i' = i + 1 /\ ck' = ck

R == regs[Ev.s]
Set(r) == regs' = [regs EXCEPT ![Ev.s] = r]

Same == UNCHANGED <<regs, grouped, seen, skip>>

(* The state is not known any more: resume at the next scenario. *)
Fail(what, expected) ==
  /\ Report_(what, expected)
  /\ skip' = TRUE
  /\ UNCHANGED <<regs, grouped, seen>>

Reset ==
  /\ Ev.op = "reset"
  /\ regs' = [s \in Registries |-> Fresh]
  /\ grouped' = 0
  /\ seen' = <<>>
  /\ skip' = FALSE

Group ==
  /\ Ev.op = "group"
  /\ grouped' = IF Ev.n >= 100 THEN 2 ELSE 1
  /\ UNCHANGED <<regs, seen, skip>>

Unit ==
  /\ Ev.op = "unit"
  /\ Set([R EXCEPT !.units =
            [u \in DOMAIN R.units \cup {Ev.u} |->
               IF u = Ev.u THEN [d |-> Ev.d, b |-> Ev.b] ELSE R.units[u]]])
  /\ UNCHANGED <<grouped, seen, skip>>

Drop ==
  /\ Ev.op = "drop"
  /\ Set([R EXCEPT !.units = [u \in DOMAIN R.units \ {Ev.u} |-> R.units[u]]])
  /\ UNCHANGED <<grouped, seen, skip>>

Cfg ==
  /\ Ev.op = "cfg"
  /\ Set([R EXCEPT !.meths =
            [m \in DOMAIN Ev.M |->
               [p |-> Ev.M[m].p, r |-> Ev.M[m].r, o |-> Ev.M[m].o, ret |-> Ev.M[m].or]]])
  /\ UNCHANGED <<grouped, seen, skip>>

N2216Opt(opt) == opt % 2 = 1
TraceOn(opt)  == (opt % 8) \in {2, 3}
PolicyFails(opt) == opt >= 8

Initialize ==
  /\ Ev.op = "init"
  /\ LET errs == InitErrors(R.units, R.meths)
         np   == Publish(R.units, R.meths, N2216Opt(Ev.opt))
         rep  == Report(np.up, np.plans)
         okey == <<Ev.s, 0, <<>>>>
         obs  == [z \in {okey} |-> IF errs # {} THEN <<>> ELSE <<<<>>, Ev.cells, <<Ev.ni, Ev.amb>>>>]
     IN /\ (Ev.len > 0 /\ ~ TraceOn(Ev.opt)) => Report_("init.output", 0)
        /\ IF errs # {}
           THEN (* rejected and reported; nothing is published *)
                IF <<Ev.out, Ev.ty>> \notin errs \/ Ev.hc # 1 THEN Fail("init.error", errs)
                ELSE Set([R EXCEPT !.shaky = TRUE]) /\ UNCHANGED <<grouped, seen, skip>>
           ELSE IF PolicyFails(Ev.opt)
           THEN IF Ev.out = -7 THEN Set([R EXCEPT !.shaky = TRUE]) /\ UNCHANGED <<grouped, seen, skip>>
                ELSE Fail("init.policy", -7)
           ELSE IF Ev.out # 1 \/ Ev.hc # 0 THEN Fail("init.error", {})
           ELSE /\ (<<Ev.cells, Ev.ni, Ev.amb>> # <<rep.cells, rep.ni, rep.amb>>)
                   => Report_("init.report", rep)
                /\ (InGroups /\ ~ OrderOK(obs)) => Report_("order", seen[okey])
                /\ Set([R EXCEPT !.pub = np, !.memo = <<>>, !.shaky = FALSE])
                /\ seen' = IF InGroups THEN Union(seen, obs) ELSE seen
                /\ UNCHANGED <<grouped, skip>>

(* `initialize` in a process whose error handler returns *)
AbInitialize ==
  /\ Ev.op = "abinit"
  /\ LET errs  == InitErrors(R.units, R.meths)
         codes == {q[1] : q \in errs}
     IN IF \/ /\ errs = {}
              /\ Ev.end = "exit" /\ Ev.h = <<>> /\ Ev.ret = 1
           \/ /\ errs # {}
              /\ Ev.end = "abort" /\ Ev.ret = 0
              /\ \E c \in codes : Ev.h = <<c>>
        THEN Same
        ELSE Report_("init.abort", errs) /\ Same

Finalize ==
  /\ Ev.op = "fin"
  /\ Set([R EXCEPT !.pub = None, !.memo = <<>>, !.shaky = FALSE])
  /\ UNCHANGED <<grouped, seen, skip>>

Calls ==
  /\ Ev.op = "calls"
  /\ LET verdict == [j \in DOMAIN Ev.t |-> CallVerdict(R, Ev.m, Ev.t[j], Ev.f)]
         bad     == {j \in DOMAIN Ev.t : verdict[j] # ""}
         ordered == /\ InGroups /\ R.pub.st = "ready" /\ ~ R.shaky
                    /\ R.pub.plans[Ev.m].n2216 => grouped = 2
         obs     == Obs(R, Ev)
     IN /\ \A v \in {verdict[j] : j \in bad} :
               Report_(v, Expect(R, Ev, CHOOSE j \in bad : verdict[j] = v))
        /\ (Ev.f = 1 /\ ~ R.shaky /\ \E j \in DOMAIN Ev.t : ~ Stable(R, Ev.m, Ev.t[j]))
              => Report_("n2216.stable", R.memo)
        /\ (ordered /\ Ev.f = 1 /\ ~ OrderOK(obs))
              => Report_(IF grouped = 2 THEN "n2216.runs" ELSE "order", [key \in DOMAIN obs \cap DOMAIN seen |-> <<seen[key], obs[key]>>])
        /\ Set([R EXCEPT !.memo = NewMemo(R, Ev)])
        /\ seen' = IF ordered /\ Ev.f = 1 THEN Union(seen, obs) ELSE seen
        /\ UNCHANGED <<grouped, skip>>

(* a call in a process whose error handler returns *)
AbCall ==
  /\ Ev.op = "abcall"
  /\ LET pub == R.pub
         unknown == {Ev.a[j] : j \in DOMAIN Ev.a} \ pub.types
         codes == IF pub.st = "none" THEN {-3}
                  ELSE IF unknown # {} THEN {-2}
                  ELSE Outcomes(pub.up, pub.plans[Ev.m], ArgClasses(Ev.a))
     IN IF \/ R.shaky
           \/ /\ IsOv(codes)
              /\ Ev.end = "exit" /\ Ev.h = <<>> /\ Ev.ran = 1 /\ Ev.ret = 1
           \/ /\ ~ IsOv(codes)
              /\ Ev.end = "abort" /\ Ev.ran = 0 /\ Ev.ret = 0
              /\ \E c \in codes : Ev.h = <<c>>
        THEN Same
        ELSE Report_("call.abort", codes) /\ Same

End == Ev.op = "end" /\ Same

Skip == Ev.op # "reset" /\ skip /\ Same

Next ==
  /\ i <= Len(Traces[ck])
  /\ Adv
  /\ \/ Reset
     \/ Skip
     \/ ~ skip /\ (Group \/ Unit \/ Drop \/ Cfg \/ Initialize \/ AbInitialize
                   \/ Finalize \/ Calls \/ AbCall \/ End)

Spec == Init /\ [][Next]_vars

(* Accepted: every event of every chunk was consumed. *)
RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
=============================================================================
