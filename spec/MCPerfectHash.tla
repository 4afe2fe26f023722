--------------------------- MODULE MCPerfectHash ---------------------------
(* The search for hash factors over words of W bits: for any set of ids    *)
(* and any choice of multipliers, if it succeeds the result is perfect and *)
(* the control table identifies exactly the registered ids.                *)
EXTENDS PerfectHash

CONSTANTS W, MaxIds, MaxAttempts, Passes

Word == 0 .. (2^W - 1)
Unused == 2^W   \* a value that is not an id
Sentinel == Unused

VARIABLES ids,      \* the set of registered ids
          pass, attempts, total, mult, bits,
          todo, lo, hi, control,
          pc        \* "start", "fill", "found", "failed"
vars == <<ids, pass, attempts, total, mult, bits, todo, lo, hi, control, pc>>

RECURSIVE Bits(_)
Bits(n) == IF n \div 2 = 0 THEN 0 ELSE 1 + Bits(n \div 2)

H(m, b, x) == ((m * x) % (2^W)) \div (2^(W - b))

Init ==
  /\ ids \in {s \in SUBSET (1 .. (2^W - 2)) : Cardinality(s) <= MaxIds}
  /\ pass = 0 /\ attempts = 0 /\ total = 0 /\ mult = 1
  /\ bits = 1 + Bits((Cardinality(ids) * 5) \div 4)
  /\ todo = {} /\ lo = 0 /\ hi = 0
  /\ control = <<>>
  /\ pc = "start"

Start ==
  /\ pc = "start"
  /\ \E m \in {x \in Word : x % 2 = 1} : mult' = m
  /\ attempts' = attempts + 1 /\ total' = total + 1
  /\ todo' = ids
  /\ lo' = 2^W /\ hi' = 0
  /\ control' = [i \in 0 .. (2^bits - 1) |-> Sentinel]
  /\ pc' = "fill"
  /\ UNCHANGED <<ids, pass, bits>>

Fill ==
  /\ pc = "fill" /\ todo # {}
  /\ LET x == CHOOSE y \in todo : \A z \in todo : y <= z
         i == H(mult, bits, x)
     IN /\ lo' = IF i < lo THEN i ELSE lo
        /\ hi' = IF i > hi THEN i ELSE hi
        /\ IF control[i] # Sentinel
           THEN (* collision *)
                /\ UNCHANGED <<control, todo>>
                /\ IF attempts < MaxAttempts THEN pc' = "start" /\ UNCHANGED <<pass, bits, attempts>>
                   ELSE IF pass + 1 < Passes /\ bits < W
                   THEN pc' = "start" /\ pass' = pass + 1 /\ bits' = bits + 1 /\ attempts' = 0
                   ELSE pc' = "failed" /\ UNCHANGED <<pass, bits, attempts>>
           ELSE /\ control' = [control EXCEPT ![i] = x]
                /\ todo' = todo \ {x}
                /\ UNCHANGED <<pass, bits, attempts, pc>>
  /\ UNCHANGED <<ids, total, mult>>

Found ==
  /\ pc = "fill" /\ todo = {} /\ pc' = "found"
  /\ UNCHANGED <<ids, pass, attempts, total, mult, bits, todo, lo, hi, control>>

Next == Start \/ Fill \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

h == [x \in ids |-> H(mult, bits, x)]
Correct == pc = "found" =>
  /\ Injective(h) /\ InRange(h, lo, hi)
  /\ ids # {} => lo \in {h[x] : x \in ids} /\ hi \in {h[x] : x \in ids}
(* runtime checks: an id is accepted iff it is registered *)
Checked == pc = "found" =>
  \A x \in 1 .. (2^W - 2) :
    LET i == H(mult, bits, x)
    IN (lo <= i /\ i <= hi /\ control[i] = x) <=> x \in ids
Bounded == total <= MaxAttempts * Passes
Terminates == <>(pc \in {"found", "failed"})
=============================================================================
