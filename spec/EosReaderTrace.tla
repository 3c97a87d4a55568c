---------------------------- MODULE EosReaderTrace ----------------------------
(***************************************************************************)
(* R01: what the reader returned for a file, against the machine.          *)
(***************************************************************************)
EXTENDS EosReader, Verdict
VARIABLE l
Judge(i) ==
    LET e == Trace[i]
        s == Read(e.lines)
        got == DOMAIN e.data
    IN  IF s.error # "" THEN
             /\ Say(i, "rejected-" \o s.error, ~e.completed /\ e.error # "")
             /\ Say(i, "calculator-rejects", e.calc # "")
        ELSE /\ Say(i, "accepted", e.completed /\ e.error = "")
             /\ Say(i, "job-title", e.job = s.job)
             /\ Say(i, "declared-quantities", got = Declared(s))
             /\ \A q \in got \cap Declared(s) : Say(i, "column-" \o q, e.data[q] = Column(s, q) /\ e.prop[q] = Column(s, q))
             /\ Say(i, "calculator", (e.calc = "") = ({"v", "a", "b", "c"} \cap Declared(s) # {}))
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
