---------------------------- MODULE PerfectHash ----------------------------
(***************************************************************************)
(* The type hash policy.  Abstractly: after a successful `initialize` the  *)
(* hash is a function h on the registered ids, injective, whose range lies *)
(* in [lo, hi], the pair returned; with runtime checks, hashing anything   *)
(* else is reported.  Otherwise the search failed and was reported.        *)
(*                                                                         *)
(* The module also contains the search itself (multiply-shift factors,     *)
(* tried until one does not collide), over words of W bits, as a state     *)
(* machine checked exhaustively by MCPerfectHash.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Range(s) == {s[i] : i \in DOMAIN s}
Injective(h) == \A a, b \in DOMAIN h : a # b => h[a] # h[b]
InRange(h, lo, hi) == \A a \in DOMAIN h : lo <= h[a] /\ h[a] <= hi

(* What a successful initialize establishes for a sequence of ids *)
Perfect(hs, lo, hi) ==
  /\ Injective(hs)
  /\ InRange(hs, lo, hi)
  /\ hs # <<>> => lo \in Range(hs) /\ hi \in Range(hs)
=============================================================================
