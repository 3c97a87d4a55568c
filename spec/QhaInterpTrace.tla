--------------------------- MODULE QhaInterpTrace ---------------------------
(***************************************************************************)
(* Q03: properties at V(T,P) are the scheme's interpolation; restating the *)
(* input in other units changes nothing.                                   *)
(***************************************************************************)
EXTENDS Qha, Verdict
VARIABLE l

PN == <<"Uzp", "Uth", "S", "Fvib", "Cv">>
\* J/mol -> unit of the reported property
Out(e, p) == IF p \in {ENT, CV} THEN Mul(I(1000), EMol(e)) ELSE EMol(e)
Run(i, e) ==
    LET r == e.res
        TK == TKelvin(e)
        H == Harm(e, TK)
        nt == Len(e.T)
        np == Len(e.P)
        nv == Len(e.V)
        cells == (1..nt) \X (1..np)
        v(n, x) == r[n][x[1]][x[2]]
        VT(x) == r.VT[x[1]][x[2]]
        fm == Frame(e.V, e.edeg)
        fmf == Frame(e.V, e.fdeg)
        ff == FreqFit(e, fmf)
        ue == Coefs(fm, e.U0)
        \* reference value of the five vibrational properties in a cell
        tdc == TLCEval([t \in 1..nt |-> TLCEval([p \in 1..5 |->
                  Coefs(fm, [k \in 1..nv |-> Mul(Out(e, p), H[t][k][p])])])])
        ref == TLCEval([x \in cells |->
                  IF e.scheme = "td" THEN [p \in 1..5 |-> EvalFit(fm, tdc[x[1]][p], VT(x))]
                  ELSE LET o == Osums(HzInterp(e, fmf, ff, VT(x)), e.w, TK[x[1]])
                       IN  [p \in 1..5 |-> Mul(Out(e, p), o[p])]])
        us == TLCEval([x \in cells |-> EvalFit(fm, ue, VT(x))])
        \* magnitude against which rounding is measured: the largest harmonic value
        big(p) == LET m == TLCEval([t \in 1..nt |-> MaxAbs([k \in 1..nv |-> Mul(Out(e, p), H[t][k][p])])]) IN MaxAbs(m)
        \* (plus an absolute floor: 10^-6 R for S and Cv, 10^-6 RT for the energies)
        tmax == MaxAbs(TK)
        flr(p) == Mul(Eps(6), Mul(Out(e, p), IF p \in {ENT, CV} THEN RGAS ELSE Mul(RGAS, Add(One, tmax))))
        bg == TLCEval([p \in 1..5 |-> Add(big(p), flr(p))])
        e0 == MaxAbs(e.U0)
        \* rounding of a polynomial regression of that degree in the plain volume
        dg == IF e.scheme = "freq" /\ e.fdeg > e.edeg THEN e.fdeg ELSE e.edeg
        tol == IF dg <= 3 THEN Eps(9) ELSE IF dg = 4 THEN Eps(7) ELSE Eps(5)
        shape == \A n \in {"Uzp", "Uth", "S", "Fvib", "Cv", "Utot", "F", "VT"} :
                    Len(r[n]) = nt /\ \A t \in 1..nt : Len(r[n][t]) = np
    IN  /\ Say(i, "shapes", shape)
        /\ shape =>
           /\ \A p \in 1..5 : Say(i, "interpolated-" \o PN[p], \A x \in cells :
                  Near(v(PN[p], x), ref[x][p], tol, Add(Mul(Eps(1), bg[p]), Abs(ref[x][p]))))
           /\ Say(i, "total-energy", \A x \in cells :
                  Near(v("Utot", x), Add(us[x], Add(ref[x][UZP], ref[x][UTH])), One,
                       Add(Mul(Eps(12), e0), Mul(tol, Add(bg[UZP], bg[UTH])))))
           /\ Say(i, "free-energy", \A x \in cells :
                  Near(v("F", x), Add(us[x], ref[x][FVIB]), One, Add(Mul(Eps(12), e0), Mul(tol, bg[FVIB]))))
           /\ Say(i, "F=U-TS", \A x \in cells :
                  Near(v("F", x), Sub(v("Utot", x), Mul(TK[x[1]], Div(v("S", x), I(1000)))), One,
                       Add(Mul(Eps(12), e0), Mul(tol, Add(bg[UZP], bg[FVIB])))))

Kind(n) == CASE n \in {"Uzp", "Uth", "Utot", "Fvib", "F", "H", "G", "S", "Cv", "Cp", "Cp-Cv"} -> "energy"
             [] n = "VT" -> "volume" [] n \in {"KT", "KS"} -> "pressure" [] OTHER -> "none"
UnitOf(e, n) == CASE Kind(n) = "energy" -> e.eu [] Kind(n) = "volume" -> e.vu [] OTHER -> e.pu
Fac(e, n) == IF Kind(n) = "none" THEN One ELSE ScaleT[Kind(n)][UnitOf(e, n)]
All == {"Uzp", "Uth", "Utot", "S", "Fvib", "F", "Cv", "VT", "KT", "Kp", "KS", "H", "G", "Cp", "Cp-Cv", "alphaV", "gruneisen"}
Restated(i, e) ==
    LET a == e.base
        b == e.alt
        eos == a.mini = "eos"
        nt == Len(a.T)
        np == Len(a.P)
        \* volumes agree to 10^-8 (fits: 10^-7); derivatives of the fit magnify that
        \* (the non-linear EoS regression stops at a relative change of 10^-8 in chi^2)
        rel(n) == CASE n = "VT" -> IF eos THEN Mul(I(5), Eps(5)) ELSE Eps(7)
                    [] n \in {"Utot", "F", "H", "G"} -> IF eos THEN Eps(8) ELSE Eps(10)
                    [] n \in {"Uzp", "Uth", "S", "Fvib", "Cv"} -> IF eos THEN Mul(I(2), Eps(4)) ELSE Eps(6)
                    [] n \in {"KT", "KS"} -> IF eos THEN Mul(I(2), Eps(3)) ELSE Mul(I(3), Eps(5))
                    [] n = "Kp" -> Mul(I(3), Eps(2))
                    [] OTHER -> IF eos THEN Mul(I(2), Eps(2)) ELSE Eps(3)
        amp(n) == LET m == TLCEval([t \in 1..nt |-> MaxAbs(a.res[n][t])]) IN MaxAbs(m)
        \* 5 % of the bulk modulus times the volume, molar or per cell J
        kv == TLCEval(Mul(Q(1, 20), Mul(Mul(Fac(a, "KT"), amp("KT")), Mul(Fac(a, "VT"), amp("VT")))))
        dt == IF nt > 1 THEN Sub(a.T[2], a.T[1]) ELSE One
        \* quotients by a vanishing heat capacity magnify rounding without bound
        cold(t, p) == Le(a.res.Cv[t][p], Mul(Q(1, 20), amp("Cv")))
        Same(n) == /\ Len(b.res[n]) = nt
                   /\ LET fa == Fac(a, n) fb == Fac(b, n)
                          \* first-order effect of a volume difference on the energies
                          m == TLCEval(IF n \in {"Utot", "F", "H", "G"} THEN Add(Mul(rel(n), Mul(fa, amp(n))), Mul(rel("VT"), kv))
                                       ELSE IF eos /\ n = "alphaV" THEN Add(Mul(rel(n), amp(n)), Div(Mul(Two, Eps(5)), dt))
                                       ELSE Mul(rel(n), Mul(fa, amp(n)))) IN
                      \A t \in 1..nt : \A p \in 1..np :
                         \/ Near(Mul(fa, a.res[n][t][p]), Mul(fb, b.res[n][t][p]), One, m)
                         \/ n \in {"KS", "gruneisen"} /\ cold(t, p)
                         \* functions of alpha and K_T, which Q02 decides exactly
                         \/ eos /\ n \in {"Cp-Cv", "gruneisen"}
        TA == TKelvin(a)
        TB == TKelvin(b)
    IN  /\ Say(i, "MACHINERY-inputs-equivalent",
              /\ \A v \in 1..Len(a.V) : /\ Close(Mul(ScaleT["volume"][a.vu], a.V[v]), Mul(ScaleT["volume"][b.vu], b.V[v]), Eps(12))
                                        /\ Close(Mul(ScaleT["energy"][a.eu], a.U0[v]), Mul(ScaleT["energy"][b.eu], b.U0[v]), Eps(12))
              /\ Len(b.T) = nt /\ Len(b.P) = np
              /\ \A t \in 1..nt : Near(TA[t], TB[t], Eps(11), I(300))
              /\ \A p \in 1..np : Near(Mul(ScaleT["pressure"][a.pu], a.P[p]), Mul(ScaleT["pressure"][b.pu], b.P[p]), Eps(11), Dec(1, 9)))
        /\ \A n \in All : Say(i, "restatement-" \o n, Same(n))
Judge(i) == LET e == Trace[i] IN IF e.ev = "run" THEN Run(i, e) ELSE Restated(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
