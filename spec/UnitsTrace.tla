----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS Units, Verdict
VARIABLE l
Tol == Eps(12)
\* one conversion of the elements in e.inp to those in e.out
Elementwise(e, F(_), scale) ==
    /\ Len(e.inp) = Len(e.out)
    /\ \A n \in 1..Len(e.inp) :
          Near(e.out[n], F(e.inp[n]), Tol, Add(Abs(F(e.inp[n])), scale))
\* the affine maps lose absolute accuracy near their zero
AffScale(e) == IF e.kind = "temperature" THEN I(500) ELSE Zero
Conv(i, e) ==
    /\ Say(i, "accepted", e.status = "ok")
    /\ e.status # "ok" \/
       /\ Say(i, "factor", Elementwise(e, LAMBDA x : Convert(e.kind, e.from, e.to, x), AffScale(e)))
       /\ Say(i, "shape", e.shin = e.shout)
       /\ Say(i, "caller-data-untouched", e.untouched)
Density(i, e) ==
    /\ Say(i, "accepted", e.status = "ok")
    /\ e.status # "ok" \/
       /\ Say(i, "density-factor",
              LET f == IF e.dir = "e2p" THEN DensityFactor(e.eu, e.vu, e.pu)
                       ELSE Div(One, DensityFactor(e.eu, e.vu, e.pu))
              IN  Elementwise(e, LAMBDA x : Mul(f, x), Zero))
       /\ Say(i, "shape", e.shin = e.shout)
       /\ Say(i, "caller-data-untouched", e.untouched)
\* a chain of conversions agrees with the direct one
Chain(i, e) ==
    LET sc == IF e.kind = "temperature" THEN I(1000) ELSE Zero
    IN  \A n \in 1..Len(e.start) :
          Say(i, "path-independence",
              Near(e.final[n], e.direct[n], Tol, Add(Abs(e.direct[n]), sc)))
Judge(i) ==
    LET e == Trace[i]
    IN  CASE e.ev = "conv" -> Conv(i, e)
          [] e.ev = "density" -> Density(i, e)
          [] e.ev = "chain" -> Chain(i, e)
          [] e.ev = "unknown" -> Say(i, "unknown-unit-rejected", e.status = "exc")
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
