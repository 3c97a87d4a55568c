------------------------- MODULE SoecDirectionsTrace -------------------------
(***************************************************************************)
(* S02: directional properties and their reported extremes.                *)
(*  "dir": values returned for angles (t, p, x)                            *)
(*  "ext": one property of a report: extremes (4 decimals), anisotropy,    *)
(*         axes (4 decimals), and witness directions found by the driver   *)
(***************************************************************************)
EXTENDS Elastic, Verdict
VARIABLE l
rel == Eps(9)
\* value of property q in direction n (and m)
Wave(C, rho, n, k) ==    \* squared velocities of the Christoffel matrix as roots of its characteristic polynomial
    LET g == TLCEval(Christoffel(C, n))
        tr == Sum(<<g[1][1], g[2][2], g[3][3]>>)
        q0 == Div(tr, I(3))
        b == TLCEval(Shifted(g, q0))
        p2 == Sum([i \in 1..3 |-> DotV(b[i], b[i])])
        r == Sqrt(Div(p2, I(6)))
        det == Add(Sub(Mul(b[1][1], Sub(Mul(b[2][2], b[3][3]), Mul(b[2][3], b[3][2]))),
                       Mul(b[1][2], Sub(Mul(b[2][1], b[3][3]), Mul(b[2][3], b[3][1])))),
                   Mul(b[1][3], Sub(Mul(b[2][1], b[3][2]), Mul(b[2][2], b[3][1]))))
        cs == IF Le(r, Mul(Eps(12), q0)) THEN One ELSE Max(Neg(One), Min(One, Div(det, Mul(Two, Mul(r, Sq(r))))))
        \* acos
        a == IF Le(One, cs) THEN Zero ELSE IF Le(cs, Neg(One)) THEN Pi ELSE Sub(Div(Pi, Two), Asin(cs))
        turn == IF k = 3 THEN Zero ELSE IF k = 1 THEN Div(Mul(Two, Pi), I(3)) ELSE Div(Mul(I(4), Pi), I(3))
        w == Add(q0, Mul(Two, Mul(r, Cos(Add(Div(a, I(3)), turn)))))
    IN  Sqrt(Div(Mul(I(1000), w), rho))
Value(e, S, q, n, m) ==
    CASE q = "E" -> Young(S, n)
      [] q = "LC" -> LinComp(S, n)
      [] q = "G" -> Shear(S, n, m)
      [] q = "Nu" -> Poisson(S, n, m)
      [] q = "V_s1" -> Div(Wave(e.C, e.rho, n, 1), One)
      [] q = "V_s2" -> Wave(e.C, e.rho, n, 2)
      [] q = "V_p" -> Wave(e.C, e.rho, n, 3)
Cleaned(n, m) == Unit(VSub(m, VScale(DotV(n, m), n)))
UnitOk(v) == Near(DotV(v, v), One, Q(4, 10000), One)
JudgeExt(i, e) ==
    LET S == TLCEval(Inverse(e.C))
        half4 == Mul(Q(6, 10), Eps(4))
        two == e.q \in {"G", "Nu"}
        tol == Add(half4, Mul(Eps(5), Max(Abs(e.max), Abs(e.min))))
        at(k) == LET n == TLCEval(Unit(e.n[k])) IN TLCEval(Value(e, S, e.q, n, IF two THEN Cleaned(n, e.m[k]) ELSE <<>>))
        loose(x) == Add(Add(half4, half4), Mul(Q(3, 1000), IF e.q \in {"Nu", "LC"} THEN Max(Abs(e.max), Abs(e.min)) ELSE Abs(x)))
    IN  /\ Say(i, "order", Le(e.min, e.max))
        /\ Say(i, "axes-are-directions", \A k \in 1..2 : UnitOk(e.n[k]) /\ (two => UnitOk(e.m[k])))
        /\ Say(i, "second-axis-perpendicular", ~two \/ \A k \in 1..2 : Le(Abs(DotV(e.n[k], e.m[k])), Q(4, 10000)))
        /\ Say(i, "minimum-attained-along-axis", Le(Abs(Sub(at(1), e.min)), loose(e.min)))
        /\ Say(i, "maximum-attained-along-axis", Le(Abs(Sub(at(2), e.max)), loose(e.max)))
        /\ Say(i, "anisotropy", IF Lt(e.min, Neg(half4)) THEN e.inf
                                ELSE Le(e.min, Mul(Two, half4)) \/
                                     (~e.inf /\ Le(Div(Sub(e.max, half4), Add(e.min, half4)), Add(e.aniso, half4))
                                             /\ Le(Sub(e.aniso, half4), Div(Add(e.max, half4), Sub(e.min, half4)))))
        /\ \A k \in 1..Len(e.wit) :
             LET n == Unit(e.wit[k].n)
                 v == TLCEval(Value(e, S, e.q, n, IF two THEN Cleaned(n, e.wit[k].m) ELSE <<>>))
             IN  /\ Say(i, "no-direction-below-minimum", Le(Sub(e.min, tol), v))
                 /\ Say(i, "no-direction-above-maximum", Le(v, Add(e.max, tol)))
JudgeDir(i, e) ==
    LET S == TLCEval(Inverse(e.C))
        sc == MaxAbsM(S)
        n == TLCEval(Dir(e.t, e.p))
        m == TLCEval(Dir2(e.t, e.p, e.x))
        g == TLCEval(Christoffel(e.C, n))
        iy == TLCEval(InvYoung(S, n))
    IN  /\ Say(i, "young", Near(Div(One, e.E), iy, rel, sc))
        /\ Say(i, "compressibility", Near(e.LC, LinComp(S, n), rel, Mul(I(1000), sc)))
        /\ Say(i, "shear", Near(Div(One, e.G), InvShear(S, n, m), rel, sc))
        /\ Say(i, "poisson", Near(Mul(e.Nu, iy), Neg(Lateral(S, n, m)), rel, sc))
        /\ e.rho = Zero \/
           LET ev == [k \in 1..3 |-> Div(Mul(e.rho, Sq(e.V[k])), I(1000))] IN
           /\ Say(i, "wave-velocities", \A k \in 1..3 : NonNeg(e.V[k]))
           /\ Say(i, "wave-velocities", Spectrum(g, ev, Mul(rel, MaxAbsM(g))))
           /\ Say(i, "single-wave-velocities", e.V1 = e.V)
Judge(i) == LET e == Trace[i] IN IF e.kind = "dir" THEN JudgeDir(i, e) ELSE JudgeExt(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
