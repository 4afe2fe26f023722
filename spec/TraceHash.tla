----------------------------- MODULE TraceHash -----------------------------
(* Validates what the real hash policy did (harness/hash.cpp).              *)
EXTENDS PerfectHash, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i,
          known   \* registry -> number of ids hashed by its last initialize, or -1
vars == <<ck, i, known>>
Ev == Traces[ck][i]

Init == ck \in 1..NChunks /\ i = 1 /\ known = [r \in 0..3 |-> -1]

Mismatch(what, exp) == PrintT(<<"MISMATCH", ck, i, what, exp, ToString(Ev)>>)

(* m: "easy" sets of ids are those for which the search cannot reasonably fail *)
InitEv ==
  /\ Ev.op = "init"
  /\ IF Ev.ok = 1
     THEN /\ known' = [known EXCEPT ![Ev.r] = Len(Ev.h)]
          /\ IF Perfect(Ev.h, Ev.lo, Ev.hi) THEN TRUE ELSE Mismatch("hash.perfect", "injective, in range")
     ELSE /\ known' = [known EXCEPT ![Ev.r] = -1]
          /\ IF /\ Ev.code = -5 /\ Ev.hc = 1 /\ Ev.attempts > 0 /\ Ev.buckets >= Ev.n
                /\ Ev.easy = 0
             THEN TRUE ELSE Mismatch("hash.error", "search_error")

(* hashing again the same ids gives the same values; others are reported *)
HashEv ==
  /\ Ev.op = "hash"
  /\ UNCHANGED known
  /\ IF /\ \A j \in DOMAIN Ev.same : Ev.same[j] = 1
        /\ \A j \in DOMAIN Ev.unk : Ev.unk[j] = 1
     THEN TRUE ELSE Mismatch("hash.check", "same values; missing_class for other ids")

Other ==
  \/ Ev.op = "reset" /\ known' = [r \in 0..3 |-> -1]
  \/ Ev.op = "end" /\ UNCHANGED known

Next == i <= Len(Traces[ck]) /\ i' = i + 1 /\ ck' = ck /\ (InitEv \/ HashEv \/ Other)
Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
=============================================================================
