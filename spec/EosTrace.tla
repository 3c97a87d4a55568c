------------------------------- MODULE EosTrace -------------------------------
(***************************************************************************)
(* E01: pressures and energies computed by the code follow the documented  *)
(* closed forms with the parameters in force.                              *)
(***************************************************************************)
EXTENDS Qha, Verdict
VARIABLE l
ParInForce(e) == IF e.dofit THEN CompleteFor(e.f, e.order, e.linear, e.p)
                 ELSE [e.p EXCEPT ![3] = IF e.f = "M" THEN Zero ELSE @]
Agree(i, clause, e, p, got) ==
    Say(i, clause, /\ Len(got) = Len(e.V)
                   /\ \A k \in 1..Len(e.V) :
                        LET x == TLCEval(PV(e.f, p, e.V[k])) IN Near(got[k], x, Eps(11), Add(p[1], Abs(x))))
Judge(i) ==
    LET e == Trace[i] IN
    CASE e.ev = "pv" ->
           LET p == TLCEval(ParInForce(e)) IN
           /\ Agree(i, "closed-form", e, p, e.P)
           /\ Say(i, "zero-at-V0", Near(e.P0, Zero, Eps(12), p[1]))
      [] e.ev = "ev" ->
           \* p = <<E0, K0, K', V0>>
           LET q == TLCEval(Complete(e.f, 3, <<e.p[2], e.p[3], Zero, e.p[4]>>))
               big == Add(Abs(e.p[1]), Mul(e.p[2], e.p[4])) IN
           /\ Say(i, "energy-form", /\ Len(e.E) = Len(e.V)
                     /\ \A k \in 1..Len(e.V) :
                          LET x == TLCEval(EV(e.f, e.p, e.V[k])) IN Near(e.E[k], x, Eps(11), big))
           /\ Say(i, "energy-at-V0", Near(e.Eref, e.p[1], Eps(12), big))
           /\ Agree(i, "pressure-of-form", e, q, e.P)
      [] e.ev = "report" ->
           \* input report of a quasi-harmonic run on energies generated from the form (energy and volume
           \* units eu, vu): pressures in unit pu, printed with three decimals
           LET kp == Mul(e.p[2], DensityFactor(e.eu, e.vu, e.pu))
               q == TLCEval(Complete(e.f, 3, <<kp, e.p[3], Zero, e.p[4]>>))
               n == Len(e.V)
               x(k) == TLCEval(PV(e.f, q, e.V[k]))
               step(k) == Div(MaxAbs(<<Sub(e.V[IF k < n THEN k + 1 ELSE k], e.V[k]),
                                      Sub(e.V[k], e.V[IF k > 1 THEN k - 1 ELSE k])>>), e.V[k])
               c == Mul(e.p[3], e.p[3])
               tol(k) == Add(Q(6, 10000), Mul(kp,
                         IF e.mini = "eos" THEN Eps(5)
                         ELSE IF k \in {1, n} THEN Mul(step(k), Mul(I(2), e.p[3])) ELSE Mul(Sq(step(k)), Mul(I(2), c)))) IN
           /\ Say(i, "report-rows", Len(e.P) = n)
           /\ Len(e.P) = n => Say(i, "report-pressure-" \o e.mini, \A k \in 1..n : Le(Abs(Sub(e.P[k], x(k))), tol(k)))
           /\ e.mini = "eos" => Say(i, "report-parameters",
                 /\ Len(e.pars) = 4
                 /\ Near(e.pars[1], e.p[1], Eps(5), Mul(e.p[2], e.p[4]))
                 /\ Near(e.pars[2], kp, Eps(4), kp) /\ Near(e.pars[3], e.p[3], Eps(3), e.p[3])
                 /\ Near(e.pars[4], e.p[4], Eps(5), e.p[4]))
      [] e.ev = "norm" ->
           \* normalised pressure: F f-curve of the equation, and of the data against the first volume
           LET p == TLCEval(e.p)
               strain(v0, v) == CASE e.f = "BM" -> Mul(Half, Sub(Sq(Cbrt(Div(v0, v))), One))
                                  [] e.f = "NS" -> Mul(OneThird, Ln(Div(v0, v)))
                                  [] e.f = "V" -> Sub(One, Cbrt(Div(v, v0)))
               denom(v0, v) == LET s == strain(v0, v) IN
                               Mul(Mul(I(3), s), CASE e.f = "BM" -> Pow(Cbrt(Div(v0, v)), 5)
                                  [] e.f = "NS" -> Div(v0, v)
                                  [] e.f = "V" -> Div(One, Sq(Cbrt(Div(v, v0)))))
               n == Len(e.V) IN
           /\ Say(i, "strain", \A k \in 1..n : Near(e.fc[k], strain(p[4], e.V[k]), Eps(12), One))
           /\ Say(i, "normalised-pressure", \A k \in 1..n :
                 LET d == TLCEval(denom(p[4], e.V[k])) IN
                 Near(Mul(e.Fc[k], d), PV(e.f, p, e.V[k]), Eps(11), p[1]))
           /\ Say(i, "normalised-data", Len(e.fo) = n - 1 /\ \A k \in 2..n :
                 /\ Near(e.fo[k - 1], strain(e.V[1], e.V[k]), Eps(12), One)
                 /\ Near(Mul(e.Fo[k - 1], denom(e.V[1], e.V[k])), e.P[k], Eps(11), Abs(e.P[k])))
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
