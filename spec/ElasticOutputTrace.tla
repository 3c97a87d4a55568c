--------------------------- MODULE ElasticOutputTrace ---------------------------
(***************************************************************************)
(* I02: generated input files of the elastic analysis, read back.  A line: *)
(* doc the printed sections (numbers in the units printed), how: via the   *)
(* command or the class, error shown, whether a file was written and what  *)
(* the reader of elastic inputs exposes of it; for the command also        *)
(* whether it ended without an exception.                                  *)
(***************************************************************************)
EXTENDS ElasticOutput, Real, Verdict
VARIABLE l
\* Half a unit of the last decimal of the file: 4 decimals of the elements, 1 of the density
StepC == Div(I(1), I(20000))
StepRho == Div(I(1), I(20))
Scale(code) == IF code = "vasp" THEN I(10) ELSE I(1)
Within(a, b, d) == Le(Abs(Sub(a, b)), Mul(d, Q(1001, 1000)))
Judge(i) ==
    LET e == Trace[i]
        r == TLCEval(ReadOut(e.code, e.doc))
    IN  /\ Say(i, "no-crash", e.crash = "")
        /\ IF r.ok
           THEN /\ Say(i, "generated", e.error = "" /\ e.written)
                /\ e.written =>
                     /\ Say(i, "readable", e.completed)
                     /\ e.completed =>
                          /\ Say(i, "job", e.job = e.title)
                          /\ Say(i, "stiffness", /\ Len(e.C) = 6
                                                 /\ \A a, b \in 1..6 : Within(e.C[a][b], Div(r.C[a][b], Scale(e.code)), StepC))
                          /\ Say(i, "symmetric", \A a, b \in 1..6 : e.C[a][b] = e.C[b][a])
                          /\ Say(i, "density", Within(e.rho, IF r.rho = <<>> THEN Zero ELSE Mul(I(1000), r.rho), StepRho))
           ELSE /\ Say(i, "refused", e.error # "" \/ e.crash # "")
                /\ Say(i, "no-file", ~e.written)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
