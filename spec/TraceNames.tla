------------------------------ MODULE TraceNames ------------------------------
(***************************************************************************)
(* Validates calls and overriders that find their methods by name          *)
(* (programs made by tools/namegen.py).                                    *)
(*   world   the declarations in the program                               *)
(*   probe   can a call be compiled in a namespace, with these arguments?  *)
(*   call    a call made in a namespace: static and dynamic types of the   *)
(*           arguments; overriders that ran, by following next             *)
(*   direct  an overrider is called through its container                  *)
(***************************************************************************)
EXTENDS Names, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, w
vars == <<ck, i, w>>
Ev == Traces[ck][i]

Init == ck \in 1..NChunks /\ i = 1 /\ w = <<>>

ASSUME TLCSet(1, <<>>)
Report_(what, expected) ==
  LET n == IF what \in DOMAIN TLCGet(1) THEN TLCGet(1)[what] ELSE 0
  IN /\ TLCSet(1, [x \in DOMAIN TLCGet(1) \cup {what} |->
                     IF x = what THEN n + 1 ELSE TLCGet(1)[x]])
     /\ n < 20 => PrintT(<<"MISMATCH", ck, i, what, ToString(expected), ToString(Ev)>>)
Must(ok, what, expected) == IF ok THEN TRUE ELSE Report_(what, expected)

World == Ev.op = "world" /\ w' = Ev.w
Probe == /\ Ev.op = "probe" /\ UNCHANGED w
         /\ LET m == Locate(w, Inh(w), Ev.ns, Ev.n, Ev.args)
            IN Must(Ev.ok = (m # 0), "names.visible", m)
Call  == /\ Ev.op = "call" /\ UNCHANGED w
         /\ LET u == Inh(w)
                m == Locate(w, u, Ev.ns, Ev.n, Ev.args)
            IN IF m = 0 THEN Must(FALSE, "names.visible", 0)
               ELSE Must(Ev.ran = CallResult(w, u, m, Ev.dyn) /\ Ev.bad = 0, "names.call",
                         CallResult(w, u, m, Ev.dyn))
(* The overrider runs, whatever the dynamic types; then next *)
Through == /\ Ev.op = "direct" /\ UNCHANGED w
           /\ LET u == Inh(w)
                 m == MethodOf(w, u, Ev.o)
                 os == Ovs(w, u, m)
                 k == CHOOSE k \in DOMAIN os : os[k] = Ev.o
                 r == Follow(os, PlanOf(w, u, m), k)
             IN Must(Ev.ran = r /\ Ev.bad = 0, "names.direct", r)

Next ==
  /\ i <= Len(Traces[ck])
  /\ i' = i + 1 /\ ck' = ck
  /\ World \/ Probe \/ Call \/ Through \/ (Ev.op \in {"reset", "end"} /\ UNCHANGED w)
Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
==============================================================================
