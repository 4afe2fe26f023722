----------------------------- MODULE Diagnostics -----------------------------
(***************************************************************************)
(* What initialize and calls write, and the influence of options.  The     *)
(* registries, methods and forms of options are those of harness/diag.cpp. *)
(* Registries 0 and 4 write to stderr, 1 and 2 to a stream of their own; 3 *)
(* has no output.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Regs   == 0..4
StdErr == {0, 4}

Forms == 0..19
N2216(f) == f \in {1, 2, 3, 14, 15, 16, 17, 18, 19}
(* the trace option: absent, on, off, or as the environment says *)
TraceOpt(f) == CASE f \in {4, 5, 8, 11, 14, 18}   -> "on"
                 [] f \in {6, 9, 12, 15, 19}      -> "off"
                 [] f \in {7, 10, 13, 16, 17}     -> "env"
                 [] OTHER                         -> "none"

(* the variable is <<>> if it is not set *)
EnvOn(env) == env = <<"1">>
Tracing(f, env) == \/ TraceOpt(f) = "on"
                   \/ TraceOpt(f) = "env" /\ EnvOn(env)

Start == [env |-> <<>>,
          bad |-> [r \in Regs |-> 0],
          st  |-> [r \in Regs |-> "no"],       (* "no", "plain", "n2216" *)
          pick |-> [r \in Regs |-> 0]]         (* the arbitrary choice made under n2216 *)

(* Methods: f(X, X) for (X, Y), (Y, X); g(X) for Y; h(X) for X, Y; w(V).   *)
(* [cells, not_implemented, ambiguous]                                     *)
Report == <<4, 2, 1>>

Calls(st, pick) ==
  IF st = "no" THEN [j \in 1..8 |-> -23]
  ELSE <<IF st = "plain" THEN -21 ELSE pick, 2, 1, -20, -20, 3, 4, 14>>

InitResult(s, r) == IF s.bad[r] = 1 THEN -22 ELSE 1
AfterInit(s, r, f) ==
  IF s.bad[r] = 1 THEN IF s.st[r] = "no" THEN "no" ELSE "maybe"
  ELSE IF N2216(f) THEN "n2216" ELSE "plain"
==============================================================================
