-------------------------- MODULE TraceVirtualPtr --------------------------
(* Validates what real virtual pointers did (harness/vptr.cpp).             *)
EXTENDS VirtualPtr, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, st, skip,
          loose   \* null slots whose v-table pointer is not specified
vars == <<ck, i, st, skip, loose>>
Ev == Traces[ck][i]
Cfg(e) == [indirect |-> e.indirect = 1, checks |-> e.checks = 1,
           inplace |-> e.inplace = 1, fixed |-> e.fixed = 1,
           abstract |-> e.abstract = 1]

Init == ck \in 1..NChunks /\ i = 1 /\ skip = FALSE /\ loose = {}
        /\ st = Start([indirect |-> FALSE, checks |-> TRUE,
                       inplace |-> FALSE, fixed |-> TRUE, abstract |-> FALSE])

(* A virtual pointer left null by a cast of a rvalue has an unspecified     *)
(* v-table pointer.                                                        *)
Loose(t, done) ==
  LET d == Ev.d
      s == Ev.s
      new == IF ~ done THEN loose
             ELSE CASE Ev.op = "cast" ->
                         (loose \ {d}) \cup (IF Ev.m = "m" /\ Smart(s) /\ d # s THEN {s} ELSE {})
                    [] Ev.op \in {"ctor", "assign"} ->
                         (loose \ ({d} \cup (IF Ev.m = "m" /\ Smart(s) /\ Smart(d) THEN {s} ELSE {})))
                         \cup (IF s \in loose THEN {d} ELSE {})
                    [] Ev.op = "swap" -> {IF x = d THEN s ELSE IF x = s THEN d ELSE x : x \in loose}
                    [] Ev.op = "pass" -> loose \ {d, s}
                    [] Ev.op \in {"init", "fin", "clear"} -> loose
                    [] Ev.op = "cmp" -> loose
                    [] OTHER -> loose \ {d}
  IN {x \in new : t.slots[x] = 0}

(* The v-table pointer of a virtual pointer: 0 null, 1 that of the class of *)
(* the object, 2 another one.                                              *)
Vptr(t, s) == IF ~ Virtual(s) \/ t.slots[s] = Empty \/ ~ t.init THEN -1
              ELSE IF t.slots[s] = 0 THEN 0 ELSE 1

(* The differences between what was observed and a state *)
Differences(t, l) ==
  (IF \A s \in Slots : Ev.w[s + 1] = Vptr(t, s) \/ s \in l THEN {} ELSE {"vp.vptr"}) \cup
  (IF \A s \in Slots : Ev.st[s + 1] = t.slots[s] THEN {} ELSE {"vp.object"})
  \cup (IF \A s \in Slots : Ev.n[s + 1] = Count(t, s) THEN {} ELSE {"vp.owners"})
  \cup (IF /\ Len(Ev.dead) = Len(t.objs)
           /\ \A o \in DOMAIN t.objs : Ev.dead[o] = Dead(t, o)
           /\ Ev.live = <<Live(t, 1), Live(t, 2)>> THEN {} ELSE {"vp.lifetime"})
  \cup (IF \A s \in Slots : Ev.c[s + 1] = Call(t, s) THEN {} ELSE {"vp.call"})

Expected == LET p == Possible(st, Ev) IN
  IF p # 0 THEN [p |-> p, st |-> st, err |-> NoError, r |-> 0]
  ELSE [p |-> 0] @@ Apply(st, Ev)

(* A smart virtual_ptr that is cast as an rvalue may share its object with *)
(* the result, or be left null (shared_ptr casts move only from C++20 on). *)
Alternative(x) ==
  IF Ev.op = "cast" /\ Ev.m = "m" /\ x.p = 0 /\ Kind(Ev.s) \in {1, 3} /\ Ev.d # Ev.s
     /\ Ev.st[Ev.s + 1] = st.slots[Ev.s]
  THEN Set(x.st, Ev.s, st.slots[Ev.s])
  ELSE x.st

Shown(t) == [slots |-> {<<s, t.slots[s], Call(t, s), Count(t, s)>> :
                          s \in {u \in Slots : t.slots[u] # Empty}},
             objs |-> t.objs, ov |-> t.iov]
Report(k, x) == PrintT(<<"MISMATCH", ck, i, k, ToString(x)>>)

Judge ==
  LET x == Expected
      t == Alternative(x)
      l == Loose(t, x.p = 0 /\ x.err = NoError)
      err == IF x.p = 0 /\ [e |-> Ev.e, t1 |-> Ev.t1, t2 |-> Ev.t2] = x.err THEN TRUE ELSE x.p # 0
      bad == (IF Ev.skip # x.p THEN {"vp.possible"} ELSE {})
             \cup (IF err THEN {} ELSE {"vp.error"})
             \cup (IF x.p = 0 /\ Ev.op \in {"cmp", "pass"} /\ Ev.r # x.r
                   THEN {IF Ev.op = "cmp" THEN "vp.compare" ELSE "vp.call"} ELSE {})
             \cup Differences(t, l)
  IN IF bad = {} THEN st' = t /\ skip' = FALSE /\ loose' = l
     ELSE /\ \A k \in bad : Report(k, <<Ev, [p |-> x.p, err |-> x.err, r |-> x.r], Shown(t)>>)
          /\ st' = t /\ skip' = TRUE /\ loose' = l

Next ==
  /\ i <= Len(Traces[ck])
  /\ i' = i + 1 /\ ck' = ck
  /\ \/ Ev.op = "reset" /\ st' = Start(Cfg(Ev)) /\ skip' = FALSE /\ loose' = {}
     \/ Ev.op = "end" /\ UNCHANGED <<st, skip, loose>>
     \/ Ev.op \notin {"reset", "end"} /\ skip /\ UNCHANGED <<st, skip, loose>>
     \/ Ev.op \notin {"reset", "end"} /\ ~ skip /\ Judge

Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
Sane == NoDanglingOwner(st) /\ UniqueOwner(st) /\ SameFamily(st) /\ WellTyped(st)
=============================================================================
