----------------------------- MODULE QhaIdTrace -----------------------------
(***************************************************************************)
(* Q02: the results of one quasi-harmonic run satisfy the identities; the  *)
(* file holds them with their units.                                       *)
(***************************************************************************)
EXTENDS Qha, Verdict
VARIABLE l

Primary == {"Uzp", "Uth", "Utot", "S", "Fvib", "F", "Cv", "VT", "KT", "Kp", "KS", "H", "G", "Cp", "Cp-Cv",
            "alphaV", "gruneisen"}
Run(i, e) ==
    LET r == e.res
        nt == Len(e.T)
        np == Len(e.P)
        cells == (1..nt) \X (1..np)
        TK == TKelvin(e)
        pes == TLCEval([p \in 1..np |-> PDens(e, e.P[p])])
        shape == \A n \in Primary : Len(r[n]) = nt /\ \A t \in 1..nt : Len(r[n][t]) = np
        v(n, x) == r[n][x[1]][x[2]]
        PVt(x) == Mul(pes[x[2]], v("VT", x))
        \* K V in energy units, per kelvin quantities in thousandths
        KV(x) == Mul(Div(v("KT", x), DensityFactor(e.eu, e.vu, e.pu)), v("VT", x))
        short == nt < 50
        al(t, p) == LET s == IF t = nt THEN t - 1 ELSE t
                    IN  Div(Div(Sub(r.VT[s + 1][p], r.VT[s][p]), Sub(TK[s + 1], TK[s])), r.VT[t][p])
        aerr(t) == LET s == IF t = nt THEN t - 1 ELSE t IN Div(Eps(14), Sub(TK[s + 1], TK[s]))
        zero(n) == \A x \in cells : v(n, x) = Zero
        sc(x, n) == Add(Abs(v(n, x)), Abs(PVt(x)))
        cold(x) == ~Pos(TK[x[1]]) \/ v("Cv", x) = Zero
        \* (a temperature of -273.15 C is 0 K up to rounding)
        perK(x) == Mul(Mul(Sq(v("alphaV", x)), KV(x)), Q(1, 10))
        cpcv(x) == Mul(I(1000), Mul(Mul(Sq(v("alphaV", x)), KV(x)), TK[x[1]]))
    IN  /\ Say(i, "shapes", shape)
        /\ shape =>
           /\ Say(i, "H=U+PV", \A x \in cells : Near(v("H", x), Add(v("Utot", x), PVt(x)), Eps(12), sc(x, "Utot")))
           /\ Say(i, "G=F+PV", \A x \in cells : Near(v("G", x), Add(v("F", x), PVt(x)), Eps(12), sc(x, "F")))
           /\ IF short
              THEN /\ Say(i, "short-list-zero", \A n \in {"alphaV", "Cp", "Cp-Cv", "gruneisen"} : zero(n))
                   /\ Say(i, "short-list-KS=KT", r.KS = r.KT)
                   /\ Say(i, "short-list-warning", e.warned)
              ELSE /\ Say(i, "alpha", \A t \in 1..nt, p \in 1..np :
                        Le(Abs(Sub(r.alphaV[t][p], al(t, p))), Add(aerr(t), Mul(Eps(9), Abs(al(t, p))))))
                   /\ Say(i, "Cp-Cv", \A x \in cells : 
                        Near(v("Cp-Cv", x), cpcv(x), Eps(9), Add(Abs(cpcv(x)), perK(x))))
                   /\ Say(i, "Cp=Cv+(Cp-Cv)", \A x \in cells :
                        Near(v("Cp", x), Add(v("Cv", x), v("Cp-Cv", x)), Eps(12), Add(Abs(v("Cv", x)), Abs(v("Cp-Cv", x)))))
                   /\ Say(i, "KS", \A x \in cells :
                        IF cold(x) THEN Close(v("KS", x), v("KT", x), Eps(12))
                        ELSE LET d == Mul(v("KT", x), Div(cpcv(x), v("Cv", x)))
                             IN  Near(v("KS", x), Add(v("KT", x), d), Eps(9), Add(Abs(v("KT", x)), Abs(d))))
                   /\ Say(i, "gruneisen", \A x \in cells :
                        IF v("Cv", x) = Zero THEN v("gruneisen", x) = Zero
                        ELSE Close(v("gruneisen", x),
                                   Div(Mul(I(1000), Mul(v("alphaV", x), KV(x))), v("Cv", x)), Eps(9)))

Unit(e, n) == CASE n = "T" -> e.tu [] n = "P" -> e.pu [] n = "VT" -> e.vu
                [] n \in {"S", "Cv", "Cp", "Cp-Cv"} -> "m" \o e.eu
                [] n \in {"KT", "KS"} -> e.pu [] n \in {"Kp", "gruneisen"} -> ""
                [] n = "alphaV" -> "K^-1" [] OTHER -> e.eu
File(i, e) ==
    LET f == e.file
        SameRow(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k] = y[k]
        names == Primary \cup {"T", "P"}
    IN  /\ Say(i, "file-datasets", names \subseteq DOMAIN f)
        /\ names \subseteq DOMAIN f =>
           /\ Say(i, "file-value-T", SameRow(f["T"].value, e.T))
           /\ Say(i, "file-value-P", SameRow(f["P"].value, e.P))
           /\ \A n \in Primary : Say(i, "file-value-" \o n,
                 /\ Len(f[n].value) = Len(e.res[n])
                 /\ \A t \in 1..Len(e.res[n]) : SameRow(f[n].value[t], e.res[n][t]))
           /\ \A n \in names : Say(i, "file-unit-" \o n, f[n].unit = Unit(e, n))
           /\ Say(i, "file-job-title", e.jobinfile)
Judge(i) == LET e == Trace[i] IN IF e.ev = "run" THEN Run(i, e) ELSE File(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
