---------------------------- MODULE SoecReaderTrace ----------------------------
(***************************************************************************)
(* R02: what a reader of an elastic input file exposes, also after other   *)
(* files were read.                                                        *)
(***************************************************************************)
EXTENDS SoecReader, Real, Verdict
VARIABLE l
Judge(i) ==
    LET e == Trace[i]
        r == TLCEval(Read(e.lines))
    IN  IF r.ok
        THEN /\ Say(i, "accepted", e.completed /\ e.error = "")
             /\ e.completed =>
                  /\ Say(i, "matrix", e.C = r.C)
                  /\ Say(i, "title", e.job = (IF r.title = 1 THEN e.first ELSE "Unknown"))
                  /\ Say(i, "density", e.rho = (IF r.rho = <<>> THEN Zero ELSE r.rho[1]))
             /\ Say(i, "calculator-accepts", e.calc = "" /\ e.calcC = r.C /\ e.calcrho = e.rho)
        ELSE /\ Say(i, "rejected", ~e.completed /\ e.error # "")
             /\ Say(i, "calculator-rejects", e.calc # "" /\ e.calc = e.error)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
