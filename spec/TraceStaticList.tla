-------------------------- MODULE TraceStaticList --------------------------
(* Validates what the real lists did (harness/lists.cpp).                   *)
EXTENDS StaticList, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, skip
vars == <<seqs, first, prev, next, ck, i, skip>>
Ev == Traces[ck][i]

Init == LInit /\ ck \in 1..NChunks /\ i = 1 /\ skip = FALSE

(* c: traversal with iterators, k: with const iterators, n: size, e: empty *)
Observed ==
  \A l \in Lists : LET o == Ev.o[l] IN
    /\ o.c = seqs'[l] /\ o.k = seqs'[l]
    /\ o.n = Len(seqs'[l]) /\ o.e = IF seqs'[l] = <<>> THEN 1 ELSE 0

Step == \/ Ev.op = "push" /\ Push(Ev.l, Ev.x)
        \/ Ev.op = "remove" /\ Remove(Ev.l, Ev.x)
        \/ Ev.op = "clear" /\ Clear(Ev.l)

Mismatch == PrintT(<<"MISMATCH", ck, i, "list", ToString(seqs), ToString(Ev)>>)

Next ==
  /\ i <= Len(Traces[ck])
  /\ i' = i + 1 /\ ck' = ck
  /\ \/ /\ Ev.op = "reset"
        /\ seqs' = [l \in Lists |-> <<>>]
        /\ first' = [l \in Lists |-> Nil]
        /\ prev' = [n \in Nodes |-> Nil]
        /\ next' = [n \in Nodes |-> Nil]
        /\ skip' = FALSE
     \/ /\ Ev.op # "reset" /\ skip /\ UNCHANGED <<lvars, skip>>
     \/ /\ Ev.op # "reset" /\ ~ skip /\ Ev.op # "end"
        /\ Step
        /\ IF Observed THEN skip' = FALSE ELSE Mismatch /\ skip' = TRUE
     \/ Ev.op = "end" /\ ~ skip /\ UNCHANGED <<lvars, skip>>

Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
=============================================================================
