----------------------------- MODULE SeismicTrace -----------------------------
(***************************************************************************)
(* S05.  A line "history" holds what was done to a set of analyses (each   *)
(* with its own crystal) and the answers; each answer is judged against    *)
(* the direction the history gives that analysis.  A line "rows" holds     *)
(* rows of the table of a full analysis.                                   *)
(***************************************************************************)
EXTENDS Seismic, Verdict
VARIABLE l
rel == Eps(9)
Distinct(ev) == LET t == Mul(Eps(3), ev[3]) IN Gt(Sub(ev[2], ev[1]), t) /\ Gt(Sub(ev[3], ev[2]), t)
VNear(a, b, t, sc) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], t, sc)
SameLine(a, b, t) == VNear(a, b, t, One) \/ VNear(a, [j \in 1..3 |-> Neg(b[j])], t, One)
Iso(C, rho) == LET h == Averages(C, Inverse(C))[3] s == VShear(h[3], rho) IN <<s, s, VPress(h[1], h[3], rho)>>
\* orthonormal rows that diagonalise g, in ascending order
Polarised(g, r) ==
    /\ \A j, k \in 1..3 : Near(DotV(r[j], r[k]), IF j = k THEN One ELSE Zero, rel, One)
    /\ LET x == TLCEval([k \in 1..3 |-> DotV(r[k], MatVec(g, r[k]))]) IN
       /\ Spectrum(g, x, Mul(rel, MaxAbsM(g)))
       /\ \A k \in 1..3 : VNear(MatVec(g, r[k]), VScale(x[k], r[k]), rel, MaxAbsM(g))
\* tolerance of eigenvector dependent quantities
GT == Eps(7)
EnhOk(C, rho, n, w, r) ==
    \A k \in 1..3 :
      LET a == RayGrad(HessEig(C, rho, n, w, k), w.grad[k])
          s == Spreading(a, n)
          big == Max(Sq(MaxAbsM(a)), s)
      IN  Near(Div(One, r[k]), s, Eps(6), big)
AngleOf(v, t, p) == VNear(Dir(t, p), v, Eps(8), One)
QuietDir(w) == \A k \in 1..3 : Le(w.abs[k], Mul(I(1000), w.v[3]))
\* answer r to query x for direction d = [n, how, t, p]
Answer(x, C, rho, d, r) ==
    LET n == d.n
        g == Matrix(C, rho, n)
        ev == Roots(g)
    IN  CASE x = "q" -> VNear(r, n, rel, One)
          [] x = "angles" -> AngleOf(n, r[1], r[2]) /\ (d.how = "cartesian" \/ (r[1] = d.t /\ r[2] = d.p))
          [] x = "christoffel" -> \A j \in 1..3 : VNear(r[j], g[j], rel, MaxAbsM(g))
          [] x = "isotropic" -> VNear(r, Iso(C, rho), rel, Iso(C, rho)[3])
          [] x = "eigenval" -> Spectrum(g, r, Mul(rel, MaxAbsM(g)))
          [] x = "eigenvec" -> Polarised(g, r)
          [] x = "phase_velocity" -> (\A k \in 1..3 : NonNeg(r[k])) /\ Spectrum(g, [k \in 1..3 |-> Sq(r[k])], Mul(rel, MaxAbsM(g)))
          [] x = "rel_phase_velocity" -> LET s == Iso(C, rho) IN Spectrum(g, [k \in 1..3 |-> Sq(Mul(r[k], s[k]))], Mul(rel, MaxAbsM(g)))
          [] x = "grad_M" -> \* [j][i][l]: contracted with the direction it is twice the matrix; symmetric; exact entries from unit vectors
                LET e == <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>
                    f == Div(I(1000), rho)
                IN  \A i, k \in 1..3 :
                      LET want == VScale(f, VAdd(Apply(C, n, e[k], e[i]), Apply(C, n, e[i], e[k])))
                      IN  VNear([j \in 1..3 |-> r[j][i][k]], want, rel, MaxAbsM(g))
          [] OTHER ->
             ~Distinct(ev) \/
             LET w == Waves(C, rho, n) IN
             CASE x = "group_velocity" -> \A k \in 1..3 : VNear(r[k], w.vg[k], GT, w.abs[k])
               [] x = "grad_eigenval" -> \A k \in 1..3 : VNear(r[k], w.grad[k], GT, Norm(w.grad[k]))
               [] x = "group_abs" -> \A k \in 1..3 : Near(r[k], w.abs[k], GT, w.abs[k])
               [] x = "rel_group_velocity" -> LET s == Iso(C, rho) IN \A k \in 1..3 : Near(Mul(r[k], s[k]), w.abs[k], GT, w.abs[k])
               [] x = "group_dir" -> \A k \in 1..3 : VNear(r[k], Unit(w.vg[k]), GT, One)
               [] x = "group_angles" -> \A k \in 1..3 : VNear(Dir(r[k][1], r[k][2]), Unit(w.vg[k]), GT, One)
               [] x = "powerflow_angle" -> \A k \in 1..3 : NonNeg(r[k]) /\ Near(Cos(r[k]), DotV(Unit(w.vg[k]), n), Eps(7), One)
               [] x = "hessian_eigenval" -> \A k \in 1..3 : LET h == HessEig(C, rho, n, w, k) IN
                                               \A j \in 1..3 : VNear(r[k][j], h[j], Eps(6), MaxAbsM(h))
               [] x = "enhancement" -> EnhOk(C, rho, n, w, r)
DirOf(s) == IF s.op = "spherical" THEN [n |-> TLCEval(Dir(s.t, s.p)), how |-> "spherical", t |-> s.t, p |-> s.p]
            ELSE [n |-> TLCEval(Unit(s.v)), how |-> "cartesian", t |-> Zero, p |-> Zero]
NoDir == [n |-> <<>>, how |-> "none", t |-> Zero, p |-> Zero]
RECURSIVE Walk(_, _, _, _)
\* cur: direction of each analysis after the first k-1 steps
Walk(i, e, k, cur) ==
    k > Len(e.steps) \/
    LET s == e.steps[k] IN
    IF s.op \in {"spherical", "cartesian"} THEN Walk(i, e, k + 1, [cur EXCEPT ![s.obj] = DirOf(s)])
    ELSE IF s.op = "clear" THEN Walk(i, e, k + 1, [cur EXCEPT ![s.obj] = NoDir])
    ELSE /\ IF s.op = "isotropic" THEN Say(i, "isotropic", s.ok /\ Answer(s.op, e.C[s.obj], e.rho[s.obj], cur[s.obj], s.r))
            ELSE IF cur[s.obj].how = "none" THEN Say(i, s.op \o "-without-direction", ~s.ok)
            ELSE IF s.op \in {"solve", "solve_group"} THEN Say(i, s.op, s.ok)
            ELSE Say(i, s.op, s.ok /\ Answer(s.op, e.C[s.obj], e.rho[s.obj], cur[s.obj], s.r))
         /\ Walk(i, e, k + 1, cur)
\* a row: theta, phi, v, v%, polarisation, |vg|, |vg|%, vg, power flow (deg), enhancement
JudgeRow(i, e, j) ==
    LET t == e.rows[1][j][1]  p == e.rows[1][j][2]
        k0 == e.first + j - 2
        wantT == Div(Mul(Div(Pi, Two), I(k0 \div e.nphi)), I(e.ntheta - 1))
        wantP == Div(Mul(Mul(Two, Pi), I(k0 % e.nphi)), I(e.nphi - 1))
        n == TLCEval(Dir(wantT, wantP))
        d == [n |-> n, how |-> "spherical", t |-> t, p |-> p]
        C == e.C[1]  rho == e.rho[1]
        s == Iso(C, rho)
        g == Matrix(C, rho, n)
        col(c) == [k \in 1..3 |-> e.rows[k][j][c]]
        vecs == [k \in 1..3 |-> SubSeq(e.rows[k][j], 5, 7)]
        perc(c, v) == \A k \in 1..3 : Near(e.rows[k][j][c], Mul(I(100), Sub(Div(v[k], s[k]), One)), Eps(7), I(100))
        rad == [k \in 1..3 |-> Div(Mul(e.rows[k][j][13], Pi), I(180))]
    IN  /\ Say(i, "row-direction", \A k \in 1..3 : Near(e.rows[k][j][1], wantT, rel, Pi) /\ Near(e.rows[k][j][2], wantP, rel, Pi))
        /\ Say(i, "row-phase-velocity", Answer("phase_velocity", C, rho, d, col(3)) /\ perc(4, col(3)))
        /\ Say(i, "row-polarisation", Polarised(g, vecs))
        /\ Say(i, "row-group", Answer("group_abs", C, rho, d, col(8)) /\ perc(9, col(8))
                 /\ Answer("group_velocity", C, rho, d, [k \in 1..3 |-> SubSeq(e.rows[k][j], 10, 12)]))
        /\ Say(i, "row-powerflow", Answer("powerflow_angle", C, rho, d, rad))
        /\ Say(i, "row-enhancement", Answer("enhancement", C, rho, d, col(14)))
Judge(i) ==
    LET e == Trace[i] IN
    IF e.kind = "history" THEN Walk(i, e, 1, [o \in 1..Len(e.C) |-> NoDir])
    ELSE /\ Say(i, "row-count", e.total = e.ntheta * e.nphi)
         /\ \A j \in 1..Len(e.rows[1]) : JudgeRow(i, e, j)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
