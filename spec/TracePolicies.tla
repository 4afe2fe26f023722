---------------------------- MODULE TracePolicies ----------------------------
(***************************************************************************)
(* Validates registries composed by the real library, and what they do     *)
(* (programs made by tools/compgen.py, harness/compose.hpp).               *)
(*   make    a registry is made from a list of policies                    *)
(*   with, without   a registry is made from the previous one              *)
(*   run     the registry is used; overriders ov of methods 1, 2           *)
(*   init, call, fini                                                      *)
(***************************************************************************)
EXTENDS Policies, TLC, Json, IOUtils

NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == [c \in 1..NChunks |->
             ndJsonDeserialize(IOEnv.TRACE_DIR \o "/t" \o ToString(c) \o ".ndjson")]

VARIABLES ck, i, list, on, ov
vars == <<ck, i, list, on, ov>>
Ev == Traces[ck][i]

Init == ck \in 1..NChunks /\ i = 1 /\ list = <<>> /\ on = FALSE /\ ov = <<>>

ASSUME TLCSet(1, <<>>)
Report_(what, expected) ==
  LET n == IF what \in DOMAIN TLCGet(1) THEN TLCGet(1)[what] ELSE 0
  IN /\ TLCSet(1, [w \in DOMAIN TLCGet(1) \cup {what} |->
                     IF w = what THEN n + 1 ELSE TLCGet(1)[w]])
     /\ n < 20 => PrintT(<<"MISMATCH", ck, i, what, ToString(expected), ToString(Ev)>>)
Must(ok, what, expected) == IF ok THEN TRUE ELSE Report_(what, expected)

(* the policies found, key by key; and the flags *)
FoundOK(s) == /\ \A k \in DOMAIN Ev.found : Ev.found[k][2] = Lookup(s, Ev.found[k][1])
              /\ {Ev.found[k][1] : k \in DOMAIN Ev.found} = Keys
Flags(s) == <<Has(s, 2), Has(s, 4), Has(s, 5), Has(s, 14), Has(s, 6), Has(s, 7)>>

Compose(s) ==
  /\ Must(Same(Ev.got, s), "policies.list", s)
  /\ Must(FoundOK(s), "policies.lookup", [k \in Keys |-> Lookup(s, k)])
  /\ Must(Ev.flags = Flags(s), "policies.flags", Flags(s))
  /\ list' = s /\ UNCHANGED <<on, ov>>

Make    == Ev.op = "make" /\ Compose(Ev.ps)
WithEv  == Ev.op = "with" /\ Compose(With(list, Ev.ps))
WoutEv  == Ev.op = "without" /\ Compose(Without(list, Ev.cs))
Run     == Ev.op = "run" /\ ov' = Ev.ov /\ on' = FALSE /\ UNCHANGED list

InitEv ==
  /\ Ev.op = "init"
  /\ Must(InitOK(list, Ev.log), "policies.init", list)
  /\ Must(ContextOK(Ev.log, {1, 2, 3}, Ev.opts), "policies.context", {1, 2, 3})
  /\ on' = TRUE /\ UNCHANGED <<list, ov>>
FiniEv ==
  /\ Ev.op = "fini"
  /\ Must(FiniOK(list, Ev.log, Ev.opts), "policies.fini", list)
  /\ on' = FALSE /\ UNCHANGED <<list, ov>>

(* Calls that are not specified are not executed. *)
CallEv ==
  /\ Ev.op = "call"
  /\ LET code == Code(list, on, ov[Ev.m], Ev.args)
     IN IF ~ Specified(list, on, Ev.args) THEN Must(Ev.how = 0, "policies.possible", 0)
        ELSE /\ Must(Ev.how = How(list, code), "policies.how", How(list, code))
             /\ Must(Ev.deliv = Delivered(list, code), "policies.error", Delivered(list, code))
             /\ Must(Ev.wrote = (IF Written(list, code) = 0 THEN <<>> ELSE <<Written(list, code)>>),
                     "policies.output", Written(list, code))
             /\ IF code # 1 THEN TRUE ELSE
                  /\ Must(Ev.res = Sel(ov[Ev.m], Ev.args), "policies.select", Sel(ov[Ev.m], Ev.args))
                  /\ Must(AskedOK(list, Ev.v, Ev.objs, Ev.log), "policies.asked", Asked(Ev.v, Ev.objs))
  /\ UNCHANGED <<list, on, ov>>

Next ==
  /\ i <= Len(Traces[ck])
  /\ i' = i + 1 /\ ck' = ck
  /\ Make \/ WithEv \/ WoutEv \/ Run \/ InitEv \/ FiniEv \/ CallEv
     \/ (Ev.op \in {"reset", "end"} /\ UNCHANGED <<list, on, ov>>)
Spec == Init /\ [][Next]_vars

RECURSIVE SumLen(_)
SumLen(c) == IF c = 0 THEN 0 ELSE Len(Traces[c]) + SumLen(c - 1)
Accepted == TLCGet("distinct") = SumLen(NChunks) + NChunks
==============================================================================
