---------------------------- MODULE SymmetryTrace ----------------------------
(***************************************************************************)
(* S03: the class reported for a matrix.  Matrices in units of 10^-5 GPa   *)
(* (integers); the driver keeps away from the edge of the tolerance.       *)
(***************************************************************************)
EXTENDS Symmetry, Verdict
VARIABLE l
KeyOf(i, j) == IF i <= j THEN 10 * i + j ELSE 10 * j + i
\* no relation of any class is at the edge of the tolerance (where rounding decides)
AtEdge(m) == \E c \in DOMAIN Rels : \E f \in Rels[c] : AbsI(AbsI(Value(f, m)) - Tol(f, 100)) <= 2
Judge(i) ==
    LET e == Trace[i]
        m == [k \in Keys |-> e.m[k \div 10][k % 10]]
        c == Recognise(m, 100)
    IN  AtEdge(m) \/
        /\ Say(i, "class", e.class = c)
        /\ Say(i, "calculator-class", e.calc = c)
        /\ Say(i, "report", e.report = "System is " \o c)
        /\ Say(i, "stiffness-kept", e.kept)
        /\ Say(i, "requested", e.expect = "" \/ e.expect = c)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
