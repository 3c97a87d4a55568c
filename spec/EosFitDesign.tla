----------------------------- MODULE EosFitDesign -----------------------------
(***************************************************************************)
(* What can be asked of one equation-of-state fit, and what a sequence of  *)
(* fits may depend on.  A request is formulation, order, kind of data,     *)
(* fixed parameters, weights and starting values.  The outcome of a fit is *)
(* a function of its request alone: whatever was fitted before leaves no   *)
(* trace (Memory stays empty), which is what the replayed sequences test.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen
Masks == {<<1, 1, 1, 1>>, <<1, 0, 1, 1>>, <<1, 1, 1, 0>>, <<0, 1, 1, 1>>, <<1, 0, 1, 0>>, <<1, 1, 0, 1>>}
Orders(f) == CASE f = "M" -> {3} [] f = "V" -> {2, 3} [] OTHER -> {2, 3, 4}
Implied(f, o) == IF f = "M" \/ f = "V" \/ o < 4 THEN (IF o = 2 THEN {2, 3} ELSE {3}) ELSE {}
Requests == UNION {{[f |-> f, order |-> o, axis |-> a, fixed |-> m, w |-> w, start |-> s] :
                     o \in Orders(f), a \in BOOLEAN, m \in Masks, w \in {"none", "P", "V", "PV"}, s \in {"own", "given"}}
                    : f \in {"M", "BM", "NS", "V", "T"}}
Free(r) == (1..4) \ ({j \in 1..4 : r.fixed[j] = 0} \cup Implied(r.f, r.order))
\* something is left to fit; nothing is both implied and reported as free
Sound(r) == Free(r) # {}
VARIABLES done, memory, last
vars == <<done, memory, last>>
Init == done = 0 /\ memory = {} /\ last \in {r \in Requests : Sound(r)}
\* the next fit may be anything; the outcome depends on the request only
Next == done < MaxLen /\ done' = done + 1 /\ memory' = memory /\ UNCHANGED last
Spec == Init /\ [][Next]_vars
Partition == /\ Free(last) \cap Implied(last.f, last.order) = {}
             /\ \A j \in Free(last) : last.fixed[j] = 1
             /\ Cardinality(Free(last)) + Cardinality(Implied(last.f, last.order)) <= 4
NoMemory == memory = {}
Emit == done = 0 => PrintT("VQSC " \o ToJson([r |-> last, free |-> [j \in 1..4 |-> IF j \in Free(last) THEN 1 ELSE 0]]))
=============================================================================
