---------------------------- MODULE ReportTrace ----------------------------
(***************************************************************************)
(* P01: one line per report: what was asked for, what the input holds,     *)
(* what the result file holds, and every figure the report shows.          *)
(***************************************************************************)
EXTENDS Report, EosLsq, Qha, Verdict
VARIABLE l

Slack == Q(1000001, 1000000)
HalfUnit(n) == Mul(Slack, Div(Half, Pow(I(10), n)))
\* p: the figure shown for x, with n decimals / n significant decimals
Fixed(p, x, n) == p = x \/ (p[1] # 2 /\ x[1] # 2 /\ Le(Abs(Sub(p, x)), Add(HalfUnit(n), Mul(Eps(14), Abs(x)))))
Sci(p, x, n) == p = x \/ (p[1] # 2 /\ x[1] # 2 /\ Le(Abs(Sub(p, x)), Mul(Mul(HalfUnit(n), Abs(x)), Add(One, Eps(9)))))
\* all digits
Full(p, x) == p = x \/ Le(Abs(Sub(p, x)), Mul(Eps(11), Abs(x)))
AllFixed(ps, xs, n) == Len(ps) = Len(xs) /\ \A k \in 1..Len(xs) : Fixed(ps[k], xs[k], n)

-----------------------------------------------------------------------------
JudgeOutline(i, e) ==
    /\ Say(i, "no-crash", e.crash = "")
    /\ Say(i, "outline",
         \* the velocities of an unstable crystal need not exist, and static
         \* energies without a minimum may have no fit (then it is said)
         LET Free == CASE e.c.cmd = "soec" /\ e.c.fail = "run" -> {"velocities"}
                       [] e.c.cmd = "qha" /\ e.c.fail = "volume" -> {"eos-parameters", "eos-warning"}
                       [] OTHER -> {}
             Rest(s) == SelectSeq(s, LAMBDA p : p \notin Free)
             seen == Rest(e.outline)
             due == Rest(Outline(e.c))
             \* a fitted equation of state of concave energies may have a minimum
             \* far away; that it has one is left to Q01
             other == IF e.c.cmd = "qha" /\ e.c.fail = "volume" /\ e.c.eos THEN Rest(Outline([e.c EXCEPT !.fail = "none"])) ELSE due
         IN  seen = due \/ seen = other)
    /\ Say(i, "log-and-screen", e.logged)
    /\ Say(i, "reason-given", (\A k \in 1..Len(e.outline) : e.outline[k] # "error") \/ e.reason)

FormName == [M |-> "Murnaghan", BM |-> "3rd-order Birch-Murnaghan", PT |-> "3rd-order Poirier-Tarantola", V |-> "3rd-order Vinet"]
FormTag == [M |-> "M", BM |-> "BM", PT |-> "NS", V |-> "V"]
\* units as they are spelled on the command line
EU(e) == e.as_given[1]
VU(e) == e.as_given[2]
TU(e) == e.as_given[4]
PU(e) == e.as_given[5]
JudgeOptions(i, e) ==
    /\ Say(i, "temperatures-asked", AllFixed(e.tset, e.T3, 2) /\ e.tsetu = <<TU(e), TU(e), TU(e)>>)
    /\ Say(i, "units-asked", e.units = (IF e.c.cmd = "ha" THEN SubSeq(e.as_given, 1, 4) ELSE e.as_given))
    /\ e.c.cmd = "qha" =>
         /\ Say(i, "pressures-asked", AllFixed(e.pset, e.P3, 2) /\ e.psetu = <<PU(e), PU(e), PU(e)>>)
         /\ Say(i, "degrees-asked", e.poly = <<e.edeg, e.fdeg>>)
         /\ Say(i, "approach-asked", e.approach =
              <<IF e.c.scheme = "freq" THEN "frequency interpolation" ELSE "thermodynamics interpolation">>
              \o (IF e.c.eos THEN <<"Equation of State (EoS)", FormName[e.c.form]>> ELSE <<"polynomial functions">>) \o <<"No">>)

Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
           + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
AbsI(n) == IF n < 0 THEN -n ELSE n
JudgeSystem(i, e) ==
    /\ Say(i, "job", e.jobshown = e.job)
    /\ Say(i, "counts", /\ e.counts[1] = I(Len(e.V)) /\ e.counts[2] = I(e.natom)
                        /\ e.counts[3] = I(AbsI(Det3(e.sup)))
                        /\ Le(e.counts[4], Mul(I(3 * e.natom), Mul(Sum(e.w), Slack)))
                        /\ Gt(Add(e.counts[4], One), Mul(I(3 * e.natom), Sum(e.w))))
    /\ Say(i, "table-labels", e.vhead = (IF e.c.cmd = "qha" THEN <<"Pressure (" \o PU(e) \o ")">> ELSE <<>>)
                                \o <<"Volume (" \o VU(e) \o "^3)", "Energy (" \o EU(e) \o ")">>)
    /\ LET w == IF e.c.cmd = "qha" THEN 3 ELSE 2
       IN  Say(i, "volumes-and-energies", Len(e.vtab) = Len(e.V) /\ \A k \in 1..Len(e.V) :
                  Len(e.vtab[k]) = w /\ Fixed(e.vtab[k][w - 1], e.V[k], 6) /\ Sci(e.vtab[k][w], e.U0[k], 12))

\* static pressures from three neighbouring volumes
Slope3(V, U, a, b, d, x) ==
    LET t(p, q, r) == Mul(U[p], Div(Sub(Mul(Two, V[x]), Add(V[q], V[r])), Mul(Sub(V[p], V[q]), Sub(V[p], V[r]))))
    IN  Add(t(a, b, d), Add(t(b, a, d), t(d, a, b)))
StaticGradient(e, k) ==
    LET n == Len(e.V) IN
    IF k = 1 THEN {Div(Sub(e.U0[2], e.U0[1]), Sub(e.V[2], e.V[1])), Slope3(e.V, e.U0, 1, 2, 3, 1)}
    ELSE IF k = n THEN {Div(Sub(e.U0[n], e.U0[n - 1]), Sub(e.V[n], e.V[n - 1])), Slope3(e.V, e.U0, n - 2, n - 1, n, n)}
    ELSE {Slope3(e.V, e.U0, k - 1, k, k + 1, k)}
JudgeStatic(i, e) ==
    LET ev2p == DensityFactor(e.eu, e.vu, e.pu)
        noise == Div(Mul(Eps(14), MaxAbs(e.U0)), Sub(e.V[2], e.V[1]))
    IN  IF ~e.c.eos
        THEN Say(i, "static-pressures", \A k \in 1..Len(e.V) : \E s \in StaticGradient(e, k) :
                   Near(e.vtab[k][1], Neg(Mul(ev2p, s)), Add(HalfUnit(3), Mul(ev2p, Abs(noise))), One))
        ELSE LET fit == Lsq(FormTag[e.c.form], e.V, e.U0, e.start)
                 sc == <<One, ev2p, One, One>>
                 tru(k) == Mul(sc[k], fit.p[k])
                 sd(k) == Mul(sc[k], fit.s[k])
                 K3 == Mul(ev2p, fit.p[2])
                 kpp == ImpliedKpp(FormTag[e.c.form], K3, fit.p[3])
                 \* rounding of the energies limits what an exact fit can show
                 floor(k) == Mul(Mul(Eps(7), Add(One, Mul(Eps(6), Ratio(e, Mul(fit.p[2], fit.p[4]))))), IF k = 1 THEN Mul(fit.p[2], fit.p[4]) ELSE Abs(tru(k)))
                 v(k) == e.pars[k]
             IN  /\ Say(i, "fit-found", fit.ok)
                 /\ fit.ok =>
                    /\ Say(i, "parameter-names", e.parnames = <<"E0", "K0", "K'", "V0">>)
                    /\ Len(e.pars) = 4 =>
                       /\ \A k \in 1..4 : Say(i, "fitted-parameter",
                             Near(v(k).v, tru(k), Add(Mul(Q(6, 10), v(k).unit), Add(Mul(Eps(2), sd(k)), floor(k))), One))
                       /\ e.noisy => \A k \in 1..4 : Say(i, "fitted-error",
                             v(k).s[1] # 2 /\ Near(v(k).s, sd(k), Add(Mul(Q(6, 10), v(k).unit), Mul(Q(3, 100), sd(k))), One)
                             /\ Pos(v(k).s))
                    /\ Say(i, "static-pressures", \A k \in 1..Len(e.V) :
                          Near(e.vtab[k][1], PV(FormTag[e.c.form], <<K3, fit.p[3], kpp, fit.p[4]>>, e.V[k]),
                               Add(HalfUnit(3), Add(Mul(Eps(2), sd(2)), Mul(Eps(6), K3))), One))

JudgeFrequencyFit(i, e) ==
    LET fm == Frame(e.V, e.fdeg)
        r2(q, b) == LET y == e.nu[q][b]
                        cs == TLCEval(Coefs(fm, y))
                        m == Div(Sum(y), I(Len(y)))
                    IN  Sub(One, Div(Sum([v \in 1..Len(y) |-> Sq(Sub(y[v], EvalFit(fm, cs, e.V[v])))]),
                                     Sum([v \in 1..Len(y) |-> Sq(Sub(y[v], m))])))
        flat(q, b) == \A v \in 1..Len(e.V) : e.nu[q][b][v] = e.nu[q][b][1]
        tru == TLCEval([q \in 1..Len(e.w) |-> TLCEval([b \in 1..(3 * e.natom) |-> IF flat(q, b) THEN One ELSE r2(q, b)])])
        word(x) == IF Le(Q(9, 10), x) THEN "OK" ELSE IF Le(Q(8, 10), x) THEN "Low" ELSE "BAD!"
        edge(x) == Le(Abs(Sub(x, Q(9, 10))), Eps(9)) \/ Le(Abs(Sub(x, Q(8, 10))), Eps(9))
        \* rows: band, frequency, R2, word
        N == Len(e.w) * 3 * e.natom
    IN  /\ Say(i, "every-frequency-fit", Len(e.r2) = N /\ \A q \in 1..Len(e.w), b \in 1..(3 * e.natom) :
               LET row == e.r2[(q - 1) * 3 * e.natom + b] IN row.band = q - 1 /\ row.freq = b)
        /\ Len(e.r2) = N => Say(i, "quality-of-fit", \A q \in 1..Len(e.w), b \in 1..(3 * e.natom) :
               LET row == e.r2[(q - 1) * 3 * e.natom + b] IN
               flat(q, b) \/ (Near(row.r2, tru[q][b], Add(HalfUnit(6), Eps(8)), One) /\ (edge(tru[q][b]) \/ row.word = word(tru[q][b]))))
        /\ Say(i, "mean-quality", Len(e.r2mean) = Len(e.w) /\ \A q \in 1..Len(e.w) :
               (\E b \in 1..(3 * e.natom) : flat(q, b)) \/
               Near(e.r2mean[q], Div(Sum(tru[q]), I(3 * e.natom)), Add(HalfUnit(6), Eps(8)), One))

Heads(e) == <<"T (" \o TU(e) \o ")", "V(T) (" \o VU(e) \o "^3)", "a_V (K^-1)", "KT (" \o PU(e) \o ")", "KS (" \o PU(e) \o ")",
              "Cp-Cv (J/mol K)">>
JudgeResults(i, e) ==
    \* the heat capacity difference is stored in thousandths of the energy unit
    LET jmol == Div(Div(One, I(1000)), EMol(e))
    IN  /\ Say(i, "every-pressure", Len(e.res) = Len(e.P) /\ \A p \in 1..Len(e.P) :
                 Full(e.res[p].p, e.P[p]) /\ e.res[p].unit = PU(e))
        /\ Len(e.res) = Len(e.P) => \A p \in 1..Len(e.P) :
             LET r == e.res[p] IN
             /\ Say(i, "result-labels", r.heads = Heads(e))
             /\ Say(i, "result-rows", Len(r.rows) = Len(e.T) /\ \A t \in 1..Len(e.T) : Len(r.rows[t]) = 6)
             /\ (Len(r.rows) = Len(e.T) /\ \A t \in 1..Len(e.T) : Len(r.rows[t]) = 6) => \A t \in 1..Len(e.T) :
                  LET x == r.rows[t] IN
                  /\ Say(i, "shown-temperature", Fixed(x[1], e.T[t], 1))
                  /\ Say(i, "shown-volume", Fixed(x[2], e.VT[t][p], 6))
                  /\ Say(i, "shown-expansion", Sci(x[3], e.alphaV[t][p], 8))
                  /\ Say(i, "shown-isothermal-modulus", Fixed(x[4], e.KT[t][p], 3))
                  /\ Say(i, "shown-adiabatic-modulus", Fixed(x[5], e.KS[t][p], 3))
                  /\ Say(i, "shown-heat-capacity-difference", LET y == Mul(jmol, e.CpCv[t][p])
                        IN x[6] = y \/ Le(Abs(Sub(x[6], y)), Add(HalfUnit(6), Mul(Eps(8), Abs(y)))))

JudgePhonon(i, e) ==
    /\ JudgeOutline(i, e)
    /\ JudgeOptions(i, e)
    /\ e.c.fail # "read" => JudgeSystem(i, e)
    /\ (e.c.fail # "read" /\ e.c.cmd = "qha" /\ e.sane /\ Len(e.vtab) = Len(e.V) /\ \A k \in 1..Len(e.V) : Len(e.vtab[k]) = 3) => JudgeStatic(i, e)
    /\ (e.c.fail = "none" /\ e.c.cmd = "qha" /\ Has(e, "VT")) => (e.c.scheme = "freq" => JudgeFrequencyFit(i, e)) /\ JudgeResults(i, e)

-----------------------------------------------------------------------------
JudgeMatrices(i, e) ==
    /\ Say(i, "job", e.jobshown = e.job)
    /\ Say(i, "density", IF e.rho = <<>> THEN e.rhoshown = <<>> ELSE e.rhoshown # <<>> /\ Full(e.rhoshown[1], e.rho[1]) /\ e.rhounit = "kg m^-3")
    /\ Say(i, "stiffness", Len(e.Cs) = 6 /\ \A a \in 1..6 : AllFixed(e.Cs[a], e.C[a], 4))
    \* rows of the compliance: S C = 1000 (TPa^-1 and GPa)
    /\ Say(i, "compliance", Len(e.Ss) = 6 /\ \A a \in 1..6 : Len(e.Ss[a]) = 6 /\ \A b \in 1..6 :
           Near(Sum([k \in 1..6 |-> Mul(e.Ss[a][k], e.C[k][b])]), IF a = b THEN I(1000) ELSE Zero,
                Add(Mul(HalfUnit(6), Sum([k \in 1..6 |-> Abs(e.C[k][b])])), Eps(6)), One))
JudgeSoec(i, e) ==
    /\ JudgeOutline(i, e)
    /\ Say(i, "units-asked", e.units = <<"GPa">>)
    /\ e.c.fail # "read" => JudgeMatrices(i, e)
    /\ Say(i, "figures", {e.figures[k] : k \in 1..Len(e.figures)} = {e.pngs[k] : k \in 1..Len(e.pngs)}
                         /\ Len(e.figures) = (IF e.c.fail = "none" /\ e.c.polar /\ e.c.plots THEN (IF e.c.dens THEN 5 ELSE 4) ELSE 0))

-----------------------------------------------------------------------------
(* data of an equation-of-state session *)
JudgeEos(i, e) ==
    /\ Say(i, "job", e.jobshown = e.job)
    /\ Say(i, "table-labels", e.heads = <<"P (GPa)", "V (A^3)", "a (A)", "b (A)", "c (A)">>)
    /\ Say(i, "data-shown", Len(e.rows) = Len(e.data) /\ \A k \in 1..Len(e.data) : Len(e.rows[k]) = 5 /\ \A j \in 1..5 :
           IF e.data[k][j] = <<>> THEN e.rows[k][j] = <<>>
           ELSE e.rows[k][j] # <<>> /\ Fixed(e.rows[k][j][1], e.data[k][j][1], IF j = 1 THEN 3 ELSE 5))
    /\ Say(i, "weights-shown", e.weights = e.sigmas)

Judge(i) ==
    LET e == Trace[i] IN
    CASE e.kind = "phonon" -> JudgePhonon(i, e)
      [] e.kind = "soec" -> JudgeSoec(i, e)
      [] e.kind = "seismic" -> JudgeMatrices(i, e)
      [] e.kind = "eos" -> JudgeEos(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
