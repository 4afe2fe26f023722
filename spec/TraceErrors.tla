----------------------------- MODULE TraceErrors -----------------------------
(* Validates what the real registries did (harness/errors.cpp).             *)
EXTENDS ErrorHandling, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, skip, st, texts
vars == <<ck, i, skip, st, texts>>
Ev == Traces[ck][i]

Report_(what, exp) == PrintT(<<"MISMATCH", ck, i, what, ToString(exp), ToString(Ev)>>)

Init == ck \in 1..NChunks /\ i = 1 /\ skip = FALSE /\ st = Start /\ texts = <<>>

Contains(s, n) == \E j \in 1..(Len(s) - Len(n) + 1) : SubSeq(s, j, j + Len(n) - 1) = n

(* an error is described, and names the classes it is about *)
TextOf(tx, r, err) ==
  LET e == CASE err.t = 0 -> 1 [] err.t = -1 -> 2 [] err.t = -3 -> 4 [] err.t = -4 -> 5
             [] err.t = -6 -> 7 [] err.t = -7 -> 8
             [] err.t = -2 -> IF err.ty = <<4>> THEN 3 ELSE 6
  IN tx[r + 1][e]
Described(ev) ==
  \A r \in Regs : \A err \in {Err(0, <<>>), Err(-1, <<>>), NotInitialized, Err(-7, <<>>),
                              Err(-2, <<4>>), Err(-2, <<5>>), Err(-4, <<6, 7>>), Err(-6, <<1, 2>>)} :
     LET s == TextOf(ev.texts, r, err) IN
     Len(s) > 0 /\ \A j \in DOMAIN err.ty : Contains(s, ev.names[err.ty[j]])

Op(ev) == IF ev.op \in {"own", "out"} THEN [op |-> ev.op, r |-> 0, x |-> ev.x]
          ELSE IF ev.op = "set" THEN [op |-> "set", r |-> ev.r, x |-> ev.h]
          ELSE IF ev.op \in {"restore", "fini"} THEN [op |-> ev.op, r |-> ev.r, x |-> 0]
          ELSE IF ev.op = "put" THEN [op |-> "put", r |-> ev.r, x |-> ev.x]
          ELSE IF ev.op = "error" THEN [op |-> "error", r |-> ev.r, x |-> ev.e]
          ELSE IF ev.op = "init" THEN [op |-> "init", r |-> ev.r, x |-> ev.pf]
          ELSE [op |-> "call", r |-> ev.r, x |-> ev.e]

Out(o) == [r \in Regs |-> IF o.msg # <<>> /\ o.msg[1] = r
                          THEN TextOf(texts, r, o.msg[2]) \o "\n" ELSE ""]

(* what is wrong with the observation, if the outcome was y *)
Diff(ev, y) ==
  LET o == y.obs IN
  CASE ev.op \in {"own", "out", "fini", "put"} -> ""
    [] ev.op \in {"set", "restore"} -> IF ev.prev = o.code THEN "" ELSE "err.set"
    [] OTHER ->
         IF ev.how # o.how \/ ev.thrown # o.thrown THEN "err.outcome"
         ELSE IF ev.del # o.del THEN "err.delivery"
         ELSE IF \E r \in Regs : ev.out[r + 1] # Out(o)[r] THEN "err.message"
         ELSE IF o.what # <<>> /\ ev.what # TextOf(texts, o.what[1], o.what[2]) THEN "err.what"
         ELSE IF ev.chain # o.chain \/ (o.how = "back" /\ ev.code # o.code) THEN "err.result"
         ELSE ""

Step ==
  LET o  == Op(Ev)
      ys == Apply(st, o)
      good == {y \in ys : Diff(Ev, y) = ""}
  IN IF good # {} THEN st' = (CHOOSE y \in good : TRUE).st /\ skip' = FALSE
     ELSE LET y == CHOOSE y \in ys : TRUE IN
          Report_(Diff(Ev, y), y.obs) /\ skip' = TRUE /\ st' = st

Next ==
  /\ i <= Len(Traces[ck])
  /\ i' = i + 1 /\ ck' = ck
  /\ \/ /\ Ev.op = "reset"
        /\ st' = Start /\ texts' = Ev.texts /\ skip' = FALSE
        /\ ~ Described(Ev) => Report_("err.text", Ev.names)
     \/ Ev.op # "reset" /\ (skip \/ Ev.op = "end") /\ UNCHANGED <<skip, st, texts>>
     \/ /\ Ev.op \notin {"reset", "end"} /\ ~ skip
        (* calls after registrations have changed are not specified: the    *)
        (* rest of the scenario is not judged                               *)
        /\ IF Possible(st, Op(Ev)) THEN Step ELSE skip' = TRUE /\ st' = st
        /\ texts' = texts

Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
==============================================================================
