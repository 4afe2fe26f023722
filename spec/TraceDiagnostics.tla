-------------------------- MODULE TraceDiagnostics ---------------------------
(* Validates what the real registries did and wrote (harness/diag.cpp).     *)
EXTENDS Diagnostics, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, skip, s
vars == <<ck, i, skip, s>>
Ev == Traces[ck][i]

Report_(what, exp) == PrintT(<<"MISMATCH", ck, i, what, ToString(exp), ToString(Ev)>>)

Init == ck \in 1..NChunks /\ i = 1 /\ skip = FALSE /\ s = Start

(* nothing was written, except (if on) to the output of registry r *)
Silent(ev) == ev.o = 0 /\ ev.e = 0 /\ \A j \in DOMAIN ev.w : ev.w[j] = 0
Written(ev, r, on) ==
  IF ~ on THEN Silent(ev)
  ELSE /\ ev.o = 0
       /\ (ev.e > 0) <=> (r \in StdErr)
       /\ \A q \in Regs : (ev.w[q + 1] > 0) <=> (q = r /\ r \notin StdErr)

Env == Ev.op = "env" /\ s' = [s EXCEPT !.env = IF Ev.set = 0 THEN <<>> ELSE <<Ev.v>>] /\ skip' = FALSE

Bad == Ev.op = "bad" /\ s' = [s EXCEPT !.bad[Ev.r] = Ev.x] /\ skip' = FALSE

Initialize ==
  /\ Ev.op = "init"
  /\ LET on == Tracing(Ev.form, s.env) IN
     /\ ~ Written(Ev, Ev.r, on) => Report_("diag.output", <<s, on>>)
     /\ IF Ev.x # InitResult(s, Ev.r) THEN Report_("diag.init", s) /\ skip' = TRUE /\ s' = s
        ELSE /\ (Ev.x = 1 /\ Ev.rep # Report) => Report_("diag.report", s)
             /\ s' = [s EXCEPT !.st[Ev.r] = AfterInit(s, Ev.r, Ev.form)]
             /\ skip' = FALSE

Finalize == /\ Ev.op = "fini"
            /\ ~ Silent(Ev) => Report_("diag.output", s)
            /\ s' = [s EXCEPT !.st[Ev.r] = "no"]
            /\ skip' = FALSE

Call == /\ Ev.op = "calls"
        /\ ~ Silent(Ev) => Report_("diag.output", s)
        /\ skip' = FALSE
        /\ IF s.st[Ev.r] = "maybe" THEN s' = s
           ELSE LET p  == IF s.st[Ev.r] = "n2216" /\ s.pick[Ev.r] = 0 THEN Ev.x[1] ELSE s.pick[Ev.r]
                    ok == /\ Ev.x = Calls(s.st[Ev.r], p)
                          /\ s.st[Ev.r] = "n2216" => p \in {1, 2}
                IN /\ ~ ok => Report_("diag.calls", s)
                   /\ s' = [s EXCEPT !.pick[Ev.r] = IF ok THEN p ELSE @]

Next ==
  /\ i <= Len(Traces[ck])
  /\ i' = i + 1 /\ ck' = ck
  /\ \/ Ev.op = "reset" /\ s' = Start /\ skip' = FALSE
     \/ Ev.op # "reset" /\ (skip \/ Ev.op = "end") /\ UNCHANGED <<skip, s>>
     \/ Ev.op \notin {"reset", "end"} /\ ~ skip /\ (Env \/ Bad \/ Initialize \/ Finalize \/ Call)

Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
==============================================================================
