---------------------------- MODULE QhaMinTrace ----------------------------
(***************************************************************************)
(* Q01: one line per quasi-harmonic run.  outcome "done": VT, KT, Kp given *)
(* in volume and pressure units; outcome "error": err is the message, file *)
(* tells whether a result file exists.                                     *)
(***************************************************************************)
EXTENDS Qha, Verdict
VARIABLE l

\* polynomial minimisation: cs coefficients of F in frame fm, pe = pressure
PolyCell(fm, cs, pe, V) ==
    LET d1 == Add(EvalDer(fm, cs, V, 1), pe)
        d2 == EvalDer(fm, cs, V, 2)
    IN  [step |-> Div(d1, d2), curv |-> d2, d3 |-> EvalDer(fm, cs, V, 3)]

\* upward zero crossing of F' + pe on a wide geometric grid of positive volumes
GridV(e) == LET lo == Mul(e.V[1], Q(1, 20))
                r == Q(103, 100)
            IN  TLCEval([k \in 1..260 |-> Mul(lo, Pow(r, k))])
Crosses(fm, cs, pe, gv) ==
    LET s == TLCEval([k \in 1..Len(gv) |-> Add(EvalDer(fm, cs, gv[k], 1), pe)[1]])
    IN  \E k \in 1..(Len(gv) - 1) : s[k] = -1 /\ s[k + 1] = 1
\* exact for parabolas and cubics: F' + pe has an upward zero at a positive volume
HasMin(fm, cs, pe) ==
    LET a == Add(Div(cs[2], fm.h), pe)          \* F'(c) + pe
        b == EvalDer(fm, cs, fm.c, 2)
        c == Mul(Half, EvalDer(fm, cs, fm.c, 3))  \* F' + pe = a + b y + c y^2, y = V - c
        disc == Sub(Sq(b), Mul(I(4), Mul(a, c)))
        y == Div(Mul(I(-2), a), Add(b, Sqrt(disc)))  \* upward zero
    IN  IF fm.d = 2 \/ c = Zero THEN Pos(b) /\ Pos(Sub(fm.c, Div(a, b)))
        ELSE /\ Pos(disc) /\ (b = Neg(Sqrt(disc)) \/ Pos(Add(fm.c, y)))
\* data for which every model must find a volume: parabola minimum inside the range
Ordinary(fm2, ys, pe, e) ==
    LET cs == Coefs(fm2, ys)
        b == EvalDer(fm2, cs, fm2.c, 2)
        V == Sub(fm2.c, Div(Add(Div(cs[2], fm2.h), pe), b))
    IN  Pos(b) /\ Le(Abs(Sub(V, fm2.c)), Mul(fm2.h, Q(9, 10)))

\* Gauss-Newton correction of the least-squares EoS through (V, ys) at <<K, Kp, V0>>
\* (E0 enters linearly and is eliminated)
EosCell(form, Vs, ys, K, Kp, V0) ==
    LET n == Len(Vs)
        hh == Eps(14)
        yref == Div(Sum(ys), I(n))
        f(p) == TLCEval([v \in 1..n |-> EV(form, p, Vs[v])])
        p0 == <<Zero, K, Kp, V0>>
        base == f(p0)
        col(k) == LET d == Mul(hh, Abs(p0[k]))
                      up == f([p0 EXCEPT ![k] = Add(@, d)])
                      dn == f([p0 EXCEPT ![k] = Sub(@, d)])
                  IN  TLCEval([v \in 1..n |-> Div(Sub(up[v], dn[v]), Mul(Two, hh))])  \* w.r.t. ln p
        J == <<[v \in 1..n |-> Mul(K, V0)], col(2), col(3), col(4)>>
        r == [v \in 1..n |-> Sub(Sub(ys[v], yref), base[v])]
        N == MatMulT(J, J)
        g == [k \in 1..4 |-> Dot(J[k], r)]
    IN  Solve(N, g)        \* relative corrections (component 1: E0 / KV)

Form(e) == e.form

TolV == Eps(8)
Done(i, e) ==
    LET TK == TKelvin(e)
        H == Harm(e, TK)
        nt == Len(TK)
        np == Len(e.P)
        fm == Frame(e.V, e.edeg)
        FR == TLCEval([t \in 1..nt |-> FRow(e, H, t)])
        CF == TLCEval([t \in 1..nt |-> Coefs(fm, FR[t])])
        pes == TLCEval([p \in 1..np |-> PDens(e, e.P[p])])
        ev2p == DensityFactor(e.eu, e.vu, e.pu)
        shape == /\ Len(e.VT) = nt /\ Len(e.KT) = nt /\ Len(e.Kp) = nt
                 /\ \A t \in 1..nt : Len(e.VT[t]) = np /\ Len(e.KT[t]) = np /\ Len(e.Kp[t]) = np
        cells == (1..nt) \X (1..np)
        pc == TLCEval([x \in cells |-> PolyCell(fm, CF[x[1]], pes[x[2]], e.VT[x[1]][x[2]])])
        \* far outside the sampled volumes the polynomial is ill conditioned
        Inside(x) == Le(Abs(Sub(e.VT[x[1]][x[2]], fm.c)), Mul(Q(5, 2), fm.h))
        fmf == Frame(e.V, e.fdeg)
        ff == FreqFit(e, fmf)
        ue == Coefs(fm, e.U0)
        \* derivatives of the frequency-scheme free energy by central differences
        FD(x) == LET V == e.VT[x[1]][x[2]]
                     d == Mul(V, Eps(8))
                     g(k) == FFreq(e, fm, ue, fmf, ff, Add(V, Mul(I(k), d)), TK[x[1]])
                     gm2 == g(-2) gm1 == g(-1) g0 == g(0) g1 == g(1) g2 == g(2)
                 IN  [curv |-> Div(Add(Sub(gm1, Mul(Two, g0)), g1), Sq(d)),
                      d3 |-> Div(Add(Sub(g2, Mul(Two, g1)), Sub(Mul(Two, gm1), gm2)), Mul(Two, Pow(d, 3)))]
        KOK(x, c, checkKp) ==
            LET V == e.VT[x[1]][x[2]]
                K == Mul(V, c.curv)
                ra == Ratio(e, Mul(V, K))
                kp == Neg(Add(One, Div(Mul(V, c.d3), c.curv)))
            IN  /\ Near(e.KT[x[1]][x[2]], Mul(ev2p, K), Add(Mul(Q(1, 1000000), I(20)), Mul(Q(1, 10000000), ra)), Mul(ev2p, K))
                /\ (checkKp => Near(e.Kp[x[1]][x[2]], kp, Add(Eps(3), Mul(Eps(4), ra)), One))
    IN  /\ Say(i, "shapes", shape)
        /\ shape =>
           /\ Say(i, "positive-volume", \A x \in cells : Pos(e.VT[x[1]][x[2]]))
           /\ IF e.mini = "poly"
              THEN /\ Say(i, "stationary-volume", \A x \in cells :
                        Near(pc[x].step, Zero, IF Inside(x) THEN TolV ELSE Eps(3), e.VT[x[1]][x[2]]))
                   /\ Say(i, "minimum-not-maximum", \A x \in cells : Pos(pc[x].curv))
                   /\ Say(i, "bulk-modulus-is-curvature",
                        IF e.scheme = "td" THEN \A x \in cells : Inside(x) => KOK(x, pc[x], TRUE)
                        ELSE \A x \in cells : Inside(x) => KOK(x, TLCEval(FD(x)), e.edeg >= 3))
              ELSE LET ec == TLCEval([x \in cells |->
                              EosCell(Form(e), e.V, [v \in 1..Len(e.V) |-> Add(FR[x[1]][v], Mul(pes[x[2]], e.V[v]))],
                                      Div(e.KT[x[1]][x[2]], ev2p), e.Kp[x[1]][x[2]], e.VT[x[1]][x[2]])])
                       \* the fit is only well posed when the minimum lies among the data
                       wp == {x \in cells : Ordinary(Frame(e.V, 2), FR[x[1]], pes[x[2]], e)}
                       ra(x) == Ratio(e, Mul(e.VT[x[1]][x[2]], Div(e.KT[x[1]][x[2]], ev2p)))
                   IN  /\ Say(i, "eos-volume", \A x \in wp : Le(Abs(ec[x][4]), Add(Eps(7), Mul(Eps(9), ra(x)))))
                       /\ Say(i, "eos-bulk-modulus", \A x \in cells :
                            Pos(e.KT[x[1]][x[2]]) /\ (x \in wp => Le(Abs(ec[x][2]), Add(Eps(5), Mul(Eps(7), ra(x))))))
                       /\ Say(i, "eos-Kprime", \A x \in wp : Le(Abs(ec[x][3]), Add(Eps(3), Mul(Eps(6), ra(x)))))

Failed(i, e) ==
    LET TK == TKelvin(e)
        H == Harm(e, TK)
        nt == Len(TK)
        np == Len(e.P)
        fm == Frame(e.V, e.edeg)
        fm2 == Frame(e.V, 2)
        gv == GridV(e)
        FR == TLCEval([t \in 1..nt |-> FRow(e, H, t)])
        pes == TLCEval([p \in 1..np |-> PDens(e, e.P[p])])
        cells == (1..nt) \X (1..np)
    IN  /\ Say(i, "error-is-explained", e.err # "")
        /\ Say(i, "no-result-file-after-error", ~e.file)
        /\ Say(i, "no-crash", ~e.crash)
        /\ Say(i, "minimum-missed",
             IF e.mini = "poly"
             THEN \E x \in cells :
                    LET cs == Coefs(fm, FR[x[1]])
                    IN  IF e.edeg <= 3 THEN ~HasMin(fm, cs, pes[x[2]]) ELSE ~Crosses(fm, cs, pes[x[2]], gv)
             ELSE \E x \in cells : ~Ordinary(fm2, FR[x[1]], pes[x[2]], e))

Judge(i) == LET e == Trace[i] IN IF e.outcome = "done" THEN Done(i, e) ELSE Failed(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
