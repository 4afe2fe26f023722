----------------------------- MODULE TraceArgs ------------------------------
(***************************************************************************)
(* Trace validation against ArgPassing.  Events are written by the         *)
(* programs made by tools/proggen.py (see harness/pass.hpp).               *)
(***************************************************************************)
EXTENDS ArgPassing, TLC, Json, IOUtils

Dir     == IOEnv.TRACE_DIR
NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces  == [c \in 1..NChunks |-> ndJsonDeserialize(Dir \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, st, skip
vars == <<ck, i, st, skip>>
Ev == Traces[ck][i]

Init == ck \in 1..NChunks /\ i = 1 /\ st = Empty /\ skip = FALSE

ASSUME TLCSet(1, <<>>)
Report_(what, expected) ==
  LET n == IF what \in DOMAIN TLCGet(1) THEN TLCGet(1)[what] ELSE 0
  IN /\ TLCSet(1, [w \in DOMAIN TLCGet(1) \cup {what} |->
                     IF w = what THEN n + 1 ELSE TLCGet(1)[w]])
     /\ n < 20 => PrintT(<<"MISMATCH", ck, i, what, ToString(expected), ToString(Ev)>>)

Adv == i' = i + 1 /\ ck' = ck
To(s) == st' = s /\ skip' = FALSE
Fail(what) == Report_(what, st) /\ skip' = TRUE /\ UNCHANGED st
Decide(ok, what, s) == IF ok THEN To(s) ELSE Fail(what)

ParamsOK(obs) == /\ Len(obs) = Len(Top(st).ps)
                 /\ \A k \in DOMAIN obs : ParamOK(st, k, obs[k])
VarsOK == /\ Len(Ev.vars) = Len(st.vars)
          /\ \A k \in DOMAIN Ev.vars : VarOK(st, k, Ev.vars[k])
DeadOK == {Ev.dead[k] : k \in DOMAIN Ev.dead} = Dead(st) /\ Ev.dd = 0
LiveOK == Ev.live = Living(st)

(* a new call site: nothing is left of the previous one *)
Site == Ev.op = "site" /\ To(Empty)
Var == Ev.op = "var" /\ To(NewVar(st, [ty |-> Ev.ty, o |-> Ev.o, c |-> 0, a |-> Ev.a]))
CallEv == Ev.op = "call" /\ To(Call(st, Ev.args))
EnterEv == Ev.op = "enter" /\ Decide(ParamsOK(Ev.p), "pass.enter", Enter(Learn(st, Ev.p, 1)))
StealEv == Ev.op = "steal" /\ To(Steal(st, Ev.i))
LeaveEv == Ev.op = "leave" /\ Decide(ParamsOK(Ev.p), "pass.leave", Leave(st, Ev.ret))
Throw   == Ev.op = "throw" /\ Decide(ParamsOK(Ev.p), "pass.leave", Pop(st))
(* the exception arrives in the caller; if no overrider was entered, it is *)
(* the library's                                                           *)
Caught  == Ev.op = "caught" /\ To(IF st.stack # <<>> /\ ~ Top(st).in THEN Pop(st) ELSE st)
(* the result arrives in the caller *)
RetOK == /\ Ev.ret.k = st.ret.k /\ Ev.ret.o = st.ret.o /\ Ev.ret.c = st.ret.c
         /\ (st.ret.k = "ref" => Ev.ret.a = st.ret.a)
NBack == Ev.op = "nback" /\ Decide(RetOK, "pass.result", IF st.ret.k = "own"
                                   THEN [st EXCEPT !.made = st.made \cup {st.ret.o}] ELSE st)
Back == Ev.op = "back" /\ Decide(RetOK /\ st.stack = <<>>, "pass.result",
          IF st.ret.k \in {"own", "trk"}
          THEN NewVar(st, [ty |-> st.ret.k, o |-> st.ret.o, c |-> st.ret.c, a |-> 0]) ELSE st)
After == Ev.op = "after" /\ IF ~ VarsOK THEN Fail("pass.after")
                            ELSE IF ~ DeadOK THEN Fail("pass.alive")
                            ELSE Decide(LiveOK, "pass.values", st)
(* the variables are gone *)
Drop == /\ Ev.op = "drop"
        /\ LET s == DropVars(st)
           IN Decide({Ev.dead[k] : k \in DOMAIN Ev.dead} = Dead(s) /\ Ev.dd = 0, "pass.alive", s)
(* what was stolen is gone *)
Flush == /\ Ev.op = "flush"
         /\ LET s == [st EXCEPT !.sink = <<>>]
            IN IF {Ev.dead[k] : k \in DOMAIN Ev.dead} # Dead(s) \/ Ev.dd # 0 THEN Fail("pass.alive")
               ELSE Decide(Ev.live = Living(s), "pass.values", s)
End == Ev.op = "end" /\ UNCHANGED <<st, skip>>
Skip == Ev.op # "site" /\ skip /\ UNCHANGED <<st, skip>>

Next == /\ i <= Len(Traces[ck])
        /\ Adv
        /\ \/ Site
           \/ Skip
           \/ ~ skip /\ (Var \/ CallEv \/ EnterEv \/ StealEv \/ LeaveEv \/ Throw \/ Caught
                         \/ NBack \/ Back \/ After \/ Drop \/ Flush \/ End)
Spec == Init /\ [][Next]_vars
RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
=============================================================================
