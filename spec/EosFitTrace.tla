----------------------------- MODULE EosFitTrace -----------------------------
(***************************************************************************)
(* E02: one performed fit.  The returned parameters respect the request    *)
(* and are a stationary point of the weighted sum of squares - of the      *)
(* pressure residuals, and of the volume residuals too when the volumes    *)
(* carry uncertainties (orthogonal distance regression).                   *)
(***************************************************************************)
EXTENDS EosForms, Verdict
VARIABLE l
ImpliedIdx(f, o) == IF f \in {"M", "V"} \/ o < 4 THEN (IF o = 2 THEN {2, 3} ELSE {3}) ELSE {}
Free(e) == (1..4) \ ({j \in 1..4 : e.fixed[j] = 0} \cup ImpliedIdx(e.f, e.order))
Fit(i, e) ==
    LET n == Len(e.V)
        b == TLCEval(CompleteFor(e.f, e.order, e.linear, e.beta))
        odr == Has(e, "sV")
        we(k) == IF Has(e, "sP") THEN Div(One, Sq(e.sP[k])) ELSE One
        wd(k) == Div(One, Sq(e.sV[k]))
        x == TLCEval([k \in 1..n |-> IF odr THEN Add(e.V[k], e.delta[k]) ELSE e.V[k]])
        f(p, v) == PV(e.f, CompleteFor(e.f, e.order, e.linear, p), v)
        eps == TLCEval([k \in 1..n |-> Sub(f(e.beta, x[k]), e.P[k])])
        h(j) == Mul(Eps(9), Add(Abs(e.beta[j]), IF j = 3 THEN Div(One, e.beta[1]) ELSE Zero))
        col(j) == TLCEval([k \in 1..n |-> Div(Sub(f([e.beta EXCEPT ![j] = Add(@, h(j))], x[k]),
                                               f([e.beta EXCEPT ![j] = Sub(@, h(j))], x[k])), Mul(Two, h(j)))])
        hv(k) == Mul(Eps(9), x[k])
        dPdV == TLCEval([k \in 1..n |-> Div(Sub(f(e.beta, Add(x[k], hv(k))), f(e.beta, Sub(x[k], hv(k)))), Mul(Two, hv(k)))])
        S == TLCEval(Add(Sum([k \in 1..n |-> Mul(we(k), Sq(eps[k]))]),
                         IF odr THEN Sum([k \in 1..n |-> Mul(wd(k), Sq(e.delta[k]))]) ELSE Zero))
        wsum == Sum([k \in 1..n |-> we(k)])
        floor == Mul(Sq(Mul(Eps(6), e.beta[1])), wsum)          \* rounding of an exact fit
        tol == Mul(IF e.easy THEN Eps(3) ELSE Q(3, 100), Sqrt(Add(S, floor)))
        Ok(j) == LET c == col(j) IN
                 Le(Abs(Sum([k \in 1..n |-> Mul(we(k), Mul(eps[k], c[k]))])),
                    Mul(tol, Sqrt(Sum([k \in 1..n |-> Mul(we(k), Sq(c[k]))]))))
        implied == ImpliedIdx(e.f, e.order)
        \* the four-parameter Tait equation has no real pressure for part of its parameters: judged
        \* only where the returned parameters are physical
        kk == Mul(e.beta[1], e.beta[3])
        tait4 == e.f = "T" /\ e.order = 4
        conv == e.conv /\ (tait4 => e.given /\ e.finite /\ Pos(e.beta[1]) /\ Pos(e.beta[2]) /\ Pos(Neg(kk)) /\ Pos(Add(Add(One, e.beta[2]), kk)))
    IN  /\ Say(i, "fixed-unchanged", \A j \in 1..4 : (e.fixed[j] = 0 /\ j \notin implied) => e.beta[j] = e.start[j])
        /\ Say(i, "implied-from-fitted", \A j \in implied : Near(e.beta[j], b[j], Eps(5), Add(Abs(b[j]), Div(One, b[1]))))
        /\ Say(i, "no-volume-residual-without-weights", odr \/ \A k \in 1..n : e.delta[k] = Zero)
        /\ Say(i, "converged", e.conv \/ ~e.easy \/ tait4)
        /\ conv => Say(i, "stationary", \A j \in Free(e) : Ok(j))
        /\ (conv /\ odr) => Say(i, "stationary-volumes", \A k \in 1..n :
                Le(Abs(Add(Mul(we(k), Mul(eps[k], dPdV[k])), Mul(wd(k), e.delta[k]))),
                   Mul(tol, Sqrt(Add(Mul(we(k), Sq(dPdV[k])), wd(k))))))
        /\ conv => Say(i, "pressures-returned", \A k \in 1..n : Near(e.y[k], f(e.beta, x[k]), Eps(5), e.beta[1]))
        /\ Has(e, "true") => Say(i, "recovered", \A j \in {1, 2, 4} : Near(e.beta[j], e.true[j], IF j = 4 THEN Eps(6) ELSE Eps(4), Abs(e.true[j])))
        /\ Say(i, "caller-unchanged", e.untouched)
Judge(i) ==
    LET e == Trace[i] IN
    CASE e.ev = "fit" -> Fit(i, e)
      [] e.ev = "again" -> Say(i, "repeatable", e.a = e.b \/ \A j \in 1..4 : Near(e.a[j], e.b[j], Eps(9), Add(Abs(e.a[j]), Eps(6))))
      [] e.ev = "guess" -> \* starting values the program proposes: of the right size on clean data
           /\ Say(i, "guess-sensible", /\ Near(e.g[4], e.p[4], Eps(2), e.p[4])
                    /\ Near(e.g[1], e.p[1], Q(2, 5), e.p[1]) /\ e.g[2] = I(4) /\ e.g[3] = Zero)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
