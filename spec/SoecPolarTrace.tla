--------------------------- MODULE SoecPolarTrace ---------------------------
(***************************************************************************)
(* S04: polar sections.  A line holds a stretch of the section of a        *)
(* property along a plane: row numbers k (from 0), of n, and the rows.     *)
(***************************************************************************)
EXTENDS Elastic, Verdict
VARIABLE l
rel == Eps(8)
\* spherical angles of the k-th of n equally spaced directions of a plane
Angle(k, n) == Div(Mul(Mul(Two, Pi), I(k)), I(n - 1))
Half2 == Div(Pi, Two)
Vec(plane, a) == CASE plane = "xy" -> <<Cos(a), Sin(a), Zero>>
                   [] plane = "xz" -> <<Sin(a), Zero, Cos(a)>>
                   [] plane = "yz" -> <<Zero, Sin(a), Cos(a)>>
\* an orthonormal pair across the direction: in the plane, and its normal
InPlane(plane, a) == CASE plane = "xy" -> <<Neg(Sin(a)), Cos(a), Zero>>
                       [] plane = "xz" -> <<Cos(a), Zero, Neg(Sin(a))>>
                       [] plane = "yz" -> <<Zero, Cos(a), Neg(Sin(a))>>
Normal(plane) == CASE plane = "xy" -> <<Zero, Zero, One>> [] plane = "xz" -> <<Zero, One, Zero>> [] plane = "yz" -> <<One, Zero, Zero>>
Unitof(q) == CASE q \in {"E", "G"} -> "GPa" [] q = "LC" -> "TPa^-1" [] q = "waves" -> "km s^-1" [] q = "Nu" -> ""
JudgeRows(i, e) ==
    LET S == TLCEval(Inverse(e.C))
        sc == MaxAbsM(S)
        row(j) == e.rows[j]
        a(j) == Angle(e.k[j], e.n)
        A == TLCEval([j \in 1..Len(e.rows) |-> a(j)])
        N == TLCEval([j \in 1..Len(e.rows) |-> Vec(e.plane, A[j])])
        P == TLCEval([j \in 1..Len(e.rows) |-> InPlane(e.plane, A[j])])
        Q0 == Normal(e.plane)
        all(T(_)) == \A j \in 1..Len(e.rows) : T(j)
        angle(j) == Near(row(j)[1], Div(Mul(A[j], I(180)), Pi), Eps(9), I(360))
        len(w) == LET f(j) == Len(row(j)) = w IN all(f)
    IN  /\ Say(i, "angle", all(angle))
        /\ CASE e.q = "E" -> LET f(j) == Near(Div(One, row(j)[2]), InvYoung(S, N[j]), rel, sc)
                             IN  Say(i, "young", len(2) /\ all(f))
             [] e.q = "LC" -> LET f(j) == LET b == TLCEval(LinComp(S, N[j])) t == Mul(I(1000), sc) IN
                                    /\ Near(row(j)[2], Max(Zero, b), rel, t) /\ Near(row(j)[3], Max(Zero, Neg(b)), rel, t)
                              IN  Say(i, "compressibility", len(3) /\ all(f))
             [] e.q = "G" -> LET f(j) == LET g == TLCEval(ShearRange(S, N[j], P[j], Q0)) IN
                                    /\ Near(Div(One, row(j)[2]), Div(One, g[1]), rel, sc) /\ Near(Div(One, row(j)[3]), Div(One, g[2]), rel, sc)
                             IN  Say(i, "shear", len(3) /\ all(f))
             [] e.q = "Nu" -> LET f(j) == LET g == TLCEval(PoissonRange(S, N[j], P[j], Q0))
                                              t == Max(One, Div(sc, InvYoung(S, N[j]))) IN
                                    /\ Near(row(j)[2], Min(Zero, g[1]), rel, t) /\ Near(row(j)[3], Max(Zero, g[1]), rel, t)
                                    /\ Near(row(j)[4], g[2], rel, t)
                              IN  Say(i, "poisson", len(4) /\ all(f))
             [] e.q = "waves" -> LET f(j) == LET g == TLCEval(Christoffel(e.C, N[j])) IN
                                      Spectrum(g, [x \in 1..3 |-> Div(Mul(e.rho, Sq(row(j)[x + 1])), I(1000))], Mul(rel, MaxAbsM(g)))
                                 IN  Say(i, "waves", len(4) /\ all(f))
\* which sections a run stores
JudgeFile(i, e) ==
    LET planes == {"xy", "xz", "yz"}
        props == {"E", "LC", "G", "Nu"} \cup (IF e.density THEN {"waves"} ELSE {})
        want == IF e.polar THEN {"polar_" \o q \o "_" \o p : q \in props, p \in planes} ELSE {}
        got == {e.names[k] : k \in 1..Len(e.names)}
    IN  /\ Say(i, "sections-stored", got = want)
        /\ Say(i, "units", \A q \in props, p \in planes : ("polar_" \o q \o "_" \o p) \in got =>
                  e.units["polar_" \o q \o "_" \o p] = Unitof(q))
        /\ Say(i, "equally-spaced", \A k \in 1..Len(e.size) : e.size[k] = 360)
Judge(i) == LET e == Trace[i] IN IF e.kind = "file" THEN JudgeFile(i, e) ELSE JudgeRows(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
