--------------------------- MODULE HarmonicTrace ---------------------------
(***************************************************************************)
(* One line per harmonic run: the input as stated (eu, fu, tu units) and   *)
(* the seven result arrays in the energy unit eu (S and Cv in thousandths).*)
(***************************************************************************)
EXTENDS Harmonic, Verdict
VARIABLE l

Props == <<"Uzp", "Uth", "S", "Fvib", "Cv">>
\* J/mol -> output unit of property p
OutFactor(e, p) == LET f == Div(Div(One, AVOGADRO), ScaleT["energy"][e.eu])
                   IN  IF p \in {ENT, CV} THEN Mul(I(1000), f) ELSE f
Run(i, e) ==
    LET nt == Len(e.T)
        nv == Len(e.U0)
        nq == Len(e.w)
        TK == TLCEval([t \in 1..nt |-> Convert("temperature", e.tu, "k", e.T[t])])
        fz == ScaleT["frequency"][e.fu]
        nb == Len(e.nu[1])
        fr == TLCEval([v \in 1..nv |-> TLCEval([q \in 1..nq |-> TLCEval([b \in 1..nb |-> Mul(fz, e.nu[q][b][v])])])])
        ref == TLCEval([t \in 1..nt |-> TLCEval([v \in 1..nv |-> Osums(fr[v], e.w, TK[t])])])
        res == e.res
        Val(p, t, v) == LET a == res[Props[p]] IN IF p = UZP THEN a[1][v] ELSE a[t][v]
        \* rounding of the implementation is relative to R (per band) near zero
        Floor(p, t) == Mul(OutFactor(e, p),
                          Mul(Mul(Mul(RGAS, I(nb)), Eps(4)),
                              IF p \in {ENT, CV} THEN One ELSE Max(TK[t], Eps(3))))
        Shape(a, n) == Len(a) = n /\ \A t \in 1..n : Len(a[t]) = nv
        shapes == /\ Shape(res.Uzp, 1)
                  /\ \A p \in {"Uth", "Utot", "S", "F", "Fvib", "Cv"} : Shape(res[p], nt)
        Good(p) == \A t \in 1..nt : \A v \in 1..nv :
                      LET r == Mul(OutFactor(e, p), ref[t][v][p])
                      IN  Near(Val(p, t, v), r, Eps(9), Add(Abs(r), Floor(p, t)))
        Total(t, v) == Add(e.U0[v], Add(res.Uzp[1][v], res.Uth[t][v]))
        Sc(t, v) == Add(Add(Abs(e.U0[v]), Abs(res.Uzp[1][v])), Abs(res.Uth[t][v]))
    IN  /\ Say(i, "shapes", shapes)
        /\ shapes =>
           /\ Say(i, "zero-point-energy", Good(UZP))
           /\ Say(i, "thermal-energy", Good(UTH))
           /\ Say(i, "entropy", Good(ENT))
           /\ Say(i, "vibrational-free-energy", Good(FVIB))
           /\ Say(i, "heat-capacity", Good(CV))
           /\ Say(i, "U=U0+Uzp+Uth", \A t \in 1..nt : \A v \in 1..nv :
                  Near(res.Utot[t][v], Total(t, v), Eps(13), Sc(t, v)))
           /\ Say(i, "F=U0+Fvib", \A t \in 1..nt : \A v \in 1..nv :
                  Near(res.F[t][v], Add(e.U0[v], res.Fvib[t][v]), Eps(13), Add(Sc(t, v), Abs(res.Fvib[t][v]))))
           /\ Say(i, "F=U-TS", \A t \in 1..nt : \A v \in 1..nv :
                  LET TS == Mul(TK[t], Div(res.S[t][v], I(1000)))
                  IN  Le(Abs(Sub(res.F[t][v], Sub(res.Utot[t][v], TS))),
                         Add(Mul(Eps(13), Abs(e.U0[v])),
                             Mul(Eps(9), Add(Add(Abs(res.Uzp[1][v]), Abs(TS)),
                                             Add(Abs(res.Uth[t][v]), Floor(FVIB, t)))))))
           /\ Say(i, "T=0-limits", \A t \in 1..nt : \A v \in 1..nv :
                  TK[t][1] = 0 => /\ res.Uth[t][v] = Zero /\ res.S[t][v] = Zero
                                  /\ res.Cv[t][v] = Zero
                                  /\ Close(res.Fvib[t][v], res.Uzp[1][v], Eps(12)))

\* ---- H02: a restated input (e.alt) against the reference run (e.base) ----
\* vm[v] is the base volume the alternative volume v stands for
RProps == <<"Uzp", "Uth", "Utot", "S", "Fvib", "F", "Cv">>
Restated(i, e) ==
    LET a == e.base
        b == e.alt
        sa == Scale("energy", a.eu)
        sb == Scale("energy", b.eu)
        va == ScaleT["volume"][a.vu]
        vb == ScaleT["volume"][b.vu]
        nt == Len(a.T)
        nv == Len(e.vm)
        ea(x) == Mul(sa, x)
        eb(x) == Mul(sb, x)
        rows(p) == IF p = "Uzp" THEN 1 ELSE nt
        \* scale of the comparison: vibrational quantities are not drowned by U0
        amp(p) == LET m == TLCEval([t \in 1..rows(p) |-> TLCEval(MaxAbs(a.res[p][t]))]) IN MaxAbs(m)
        Same(p) == /\ Len(b.res[p]) = rows(p)
                   /\ \A t \in 1..rows(p) : Len(b.res[p][t]) = nv
                   /\ LET sc == ea(amp(p)) IN
                      \A t \in 1..rows(p) : \A v \in 1..nv :
                        LET x == ea(a.res[p][t][e.vm[v]])
                            y == eb(b.res[p][t][v])
                        IN  Le(Abs(Sub(x, y)), Mul(Eps(9), Add(Abs(x), Mul(Eps(3), sc))))
    IN  \* the driver's restatement is the same physics (machinery sanity)
        /\ Say(i, "MACHINERY-inputs-equivalent",
               /\ \A v \in 1..nv : /\ Close(Mul(va, a.V[e.vm[v]]), Mul(vb, b.V[v]), Eps(12))
                                   /\ Close(ea(a.U0[e.vm[v]]), eb(b.U0[v]), Eps(12))
               /\ \A t \in 1..nt : Near(Convert("temperature", a.tu, "k", a.T[t]),
                                        Convert("temperature", b.tu, "k", b.T[t]), Eps(11), I(300)))
        /\ \A k \in 1..Len(RProps) : Say(i, "restatement-" \o RProps[k], Same(RProps[k]))

\* ---- the result file ----
FileLine(i, e) ==
    LET f == e.file
        names == {"V", "T", "U0", "Uzp", "Uth", "Utot", "S", "Fvib", "F", "Cv"}
        nt == Len(e.T)
        nv == Len(e.V)
        Unit(n) == CASE n = "V" -> e.vu [] n = "T" -> e.tu [] n \in {"S", "Cv"} -> "m" \o e.eu
                     [] OTHER -> e.eu
        Want(n) == CASE n = "V" -> e.V [] n = "T" -> e.T [] n = "U0" -> e.U0 [] OTHER -> e.res[n]
        SameRow(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Close(x[k], y[k], Eps(14))
    IN  /\ Say(i, "file-datasets", names \subseteq DOMAIN f)
        /\ names \subseteq DOMAIN f =>
           /\ \A n \in {"V", "T", "U0"} : Say(i, "file-value-" \o n, SameRow(f[n].value, Want(n)))
           /\ \A n \in names \ {"V", "T", "U0"} :
                /\ Say(i, "file-value-" \o n, /\ Len(f[n].value) = Len(Want(n))
                              /\ \A k \in 1..Len(Want(n)) : SameRow(f[n].value[k], Want(n)[k]))
                /\ Say(i, "file-grid-" \o n, /\ Len(f[n].value) = (IF n = "Uzp" THEN 1 ELSE nt)
                              /\ \A k \in 1..Len(f[n].value) : Len(f[n].value[k]) = nv)
           /\ \A n \in names : Say(i, "file-unit-" \o n, f[n].unit = Unit(n))
Judge(i) ==
    LET e == Trace[i]
    IN  CASE e.ev = "run" -> Run(i, e)
          [] e.ev = "restated" -> Restated(i, e)
          [] e.ev = "file" -> FileLine(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
