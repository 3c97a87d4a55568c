------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  The recorded execution is     *)
(* trace.ndjson, one JSON object per line.  A trace specification walks    *)
(* over the lines (Stride independent walks for stateless traces, so that  *)
(* TLC's workers share them) and judges each line; a line which the        *)
(* specification does not allow is reported as "VQBAD <line> <clause>".    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Stride
Trace == ndJsonDeserialize("trace.ndjson")
NLines == Len(Trace)
Starts == 1..(IF Stride <= NLines THEN Stride ELSE NLines)
Say(i, clause, ok) == IF ok THEN TRUE ELSE PrintT("VQBAD " \o ToString(i) \o " " \o clause)
Has(e, f) == f \in DOMAIN e
=============================================================================
