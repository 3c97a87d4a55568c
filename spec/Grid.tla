-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The conditions of a run: a range (lo, hi, st), exact decimals in units  *)
(* of 10^-k.  The machine emits the next condition as long as it does not  *)
(* exceed the maximum.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Los, Spans, Steps, Exps
VARIABLES lo, hi, st, k, out, done
vars == <<lo, hi, st, k, out, done>>
NValues(a, b, c) == IF b < a THEN 0 ELSE (b - a) \div c + 1
Init == /\ lo \in Los /\ \E d \in Spans : hi = lo + d
        /\ st \in Steps /\ k \in Exps /\ out = <<>> /\ done = FALSE
NextValue == lo + Len(out) * st
Next == /\ ~done
        /\ IF NextValue <= hi THEN out' = Append(out, NextValue) /\ UNCHANGED done
           ELSE done' = TRUE /\ UNCHANGED out
        /\ UNCHANGED <<lo, hi, st, k>>
Spec == Init /\ [][Next]_vars
NeverBeyond == \A n \in 1..Len(out) : out[n] >= lo /\ out[n] <= hi
Complete == done => /\ Len(out) = NValues(lo, hi, st)
                    /\ \A v \in lo..hi : (v - lo) % st = 0 => \E n \in 1..Len(out) : out[n] = v
Emit == done => PrintT("VQSC " \o ToJson([lo |-> lo, hi |-> hi, st |-> st, k |-> k]))
=============================================================================
