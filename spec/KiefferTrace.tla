---------------------------- MODULE KiefferTrace ----------------------------
(* K01: values returned by the Kieffer class. *)
EXTENDS Kieffer, Verdict
VARIABLE l
KTol == Mul(I(4), Eps(8))
Judge(i) ==
    LET e == Trace[i]
        z == ~Pos(e.T)
        ref == KSum(e.nu, e.T)
        tr == IF Gt(e.T, One) THEN e.T ELSE One
        Ok(v, r, s) == Near(v, r, KTol, Add(Abs(r), Mul(I(Len(e.nu)), s)))
    IN  /\ Say(i, "free-energy", Ok(e.F, ref[1], Mul(RGAS, tr)))
        /\ Say(i, "entropy", Ok(e.S, ref[2], RGAS))
        /\ Say(i, "heat-capacity", Ok(e.C, ref[3], RGAS))
        /\ Say(i, "zero-temperature", z => e.F = Zero /\ e.S = Zero /\ e.C = Zero)
        /\ Say(i, "additive", \A k \in 1..3 :
               Near(<<e.F, e.S, e.C>>[k], Sum([b \in 1..Len(e.nu) |-> e.each[b][k]]), Eps(12), MaxAbs(<<e.F, e.S, e.C>>)))
        /\ Say(i, "order-independent", \A k \in 1..3 :
               Near(<<e.F, e.S, e.C>>[k], e.rev[k], Eps(12), MaxAbs(<<e.F, e.S, e.C>>)))
        /\ Say(i, "input-kept", e.after = e.nu)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
