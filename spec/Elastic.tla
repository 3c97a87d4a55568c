------------------------------- MODULE Elastic -------------------------------
(***************************************************************************)
(* Linear elasticity of a crystal from its 6x6 stiffness matrix in Voigt's *)
(* notation (rows are strictly ordered 11,22,33,23,13,12).                 *)
(***************************************************************************)
EXTENDS Linalg
Pair == <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 2>>>>
VoigtOf == <<<<1, 6, 5>>, <<6, 2, 4>>, <<5, 4, 3>>>>
Compliance(C) == Inverse(C)

\* --- polycrystal averages <<K, E, G, nu>>
Tr3(A) == Sum(<<A[1][1], A[2][2], A[3][3]>>)
Off3(A) == Sum(<<A[1][2], A[1][3], A[2][3]>>)
Tr6(A) == Sum(<<A[4][4], A[5][5], A[6][6]>>)
KVoigt(C) == Div(Add(Tr3(C), Mul(Two, Off3(C))), I(9))
GVoigt(C) == Div(Add(Sub(Tr3(C), Off3(C)), Mul(I(3), Tr6(C))), I(15))
InvKReuss(S) == Add(Tr3(S), Mul(Two, Off3(S)))
InvGReuss(S) == Div(Add(Mul(I(4), Sub(Tr3(S), Off3(S))), Mul(I(3), Tr6(S))), I(15))
EofKG(K, G) == Div(Mul(I(9), Mul(K, G)), Add(Mul(I(3), K), G))
NuOfKG(K, G) == Div(Sub(Mul(I(3), K), Mul(Two, G)), Mul(Two, Add(Mul(I(3), K), G)))
Row(K, G) == <<K, EofKG(K, G), G, NuOfKG(K, G)>>
Averages(C, S) ==
    LET kv == KVoigt(C)  gv == GVoigt(C)
        kr == Div(One, InvKReuss(S))  gr == Div(One, InvGReuss(S))
    IN  <<Row(kv, gv), Row(kr, gr), Row(Mul(Half, Add(kv, kr)), Mul(Half, Add(gv, gr)))>>
\* velocities (km/s) of the isotropic aggregate: GPa and kg/m3
VShear(G, rho) == Sqrt(Div(Mul(I(1000), G), rho))
VPress(K, G, rho) == Sqrt(Div(Mul(I(1000), Add(K, Div(Mul(I(4), G), I(3)))), rho))

\* --- directions
Dir(t, p) == LET s == Sin(t) IN <<Mul(s, Cos(p)), Mul(s, Sin(p)), Cos(t)>>
\* the measurement direction, perpendicular to Dir(t, p)
Dir2(t, p, x) ==
    LET ct == Cos(t)  cp == Cos(p)  sp == Sin(p)  cx == Cos(x)  sx == Sin(x)
    IN  <<Sub(Mul(ct, Mul(cp, cx)), Mul(sp, sx)), Add(Mul(ct, Mul(sp, cx)), Mul(cp, sx)), Neg(Mul(Sin(t), cx))>>
DotV(a, b) == Sum(<<Mul(a[1], b[1]), Mul(a[2], b[2]), Mul(a[3], b[3])>>)
Unit(v) == LET r == Sqrt(DotV(v, v)) IN <<Div(v[1], r), Div(v[2], r), Div(v[3], r)>>
\* strain-like Voigt vector of n (x) m, symmetrised
Sym(n, m) == <<Mul(n[1], m[1]), Mul(n[2], m[2]), Mul(n[3], m[3]),
               Mul(Half, Add(Mul(n[2], m[3]), Mul(n[3], m[2]))),
               Mul(Half, Add(Mul(n[1], m[3]), Mul(n[3], m[1]))),
               Mul(Half, Add(Mul(n[1], m[2]), Mul(n[2], m[1])))>>
\* stress-like Voigt vector n (x) n
Stress(n) == <<Sq(n[1]), Sq(n[2]), Sq(n[3]), Mul(n[2], n[3]), Mul(n[1], n[3]), Mul(n[1], n[2])>>
Quad(A, a, b) == Dot(a, MatVec(A, b))

\* --- directional properties (S: compliance)
InvYoung(S, n) == LET v == Stress(n) IN Quad(S, v, v)
Young(S, n) == Div(One, InvYoung(S, n))
LinComp(S, n) == Mul(I(1000), Quad(S, Stress(n), <<One, One, One, Zero, Zero, Zero>>))
InvShear(S, n, m) == LET u == Sym(n, m) IN Mul(I(4), Quad(S, u, u))
Shear(S, n, m) == Div(One, InvShear(S, n, m))
Lateral(S, n, m) == Quad(S, Stress(n), Stress(m))
Poisson(S, n, m) == Neg(Div(Lateral(S, n, m), InvYoung(S, n)))

\* --- waves: the Christoffel matrix (GPa)
DivOp(n) == <<<<n[1], Zero, Zero, Zero, n[3], n[2]>>,
              <<Zero, n[2], Zero, n[3], Zero, n[1]>>,
              <<Zero, Zero, n[3], n[2], n[1], Zero>>>>
Christoffel(C, n) == LET d == DivOp(n) IN MatMulT(MatMulT(d, C), d)

\* --- extremes over the direction perpendicular to n of  a + b cos 2x + c sin 2x,
\*     from its values at x = 0, 45 and 90 degrees
Perp(f0, f45, f90) ==
    LET a == Mul(Half, Add(f0, f90))
        r == Sqrt(Add(Sq(Mul(Half, Sub(f0, f90))), Sq(Sub(f45, a))))
    IN  <<Sub(a, r), Add(a, r)>>
R45 == Div(One, Sqrt(Two))
Mid(a, b) == [i \in 1..3 |-> Mul(R45, Add(a[i], b[i]))]
ShearRange(S, n, m0, m90) ==
    LET p == Perp(InvShear(S, n, m0), InvShear(S, n, Mid(m0, m90)), InvShear(S, n, m90))
    IN  <<Div(One, p[2]), Div(One, p[1])>>
PoissonRange(S, n, m0, m90) ==
    LET p == Perp(Lateral(S, n, m0), Lateral(S, n, Mid(m0, m90)), Lateral(S, n, m90))
        e == InvYoung(S, n)
    IN  <<Neg(Div(p[2], e)), Neg(Div(p[1], e))>>

\* --- number of negative eigenvalues of a symmetric matrix (inertia by elimination)
RECURSIVE Inertia(_, _)
Inertia(A, scale) ==
    IF Len(A) = 0 THEN 0
    ELSE LET p0 == A[1][1]
             p == IF p0 = Zero THEN Mul(scale, Eps(30)) ELSE p0
             n == Len(A)
             B == TLCEval([i \in 1..(n - 1) |-> TLCEval([j \in 1..(n - 1) |->
                      Sub(A[i + 1][j + 1], Div(Mul(A[i + 1][1], A[1][j + 1]), p))])])
         IN  (IF Lt(p, Zero) THEN 1 ELSE 0) + Inertia(B, scale)
Shifted(A, x) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN Sub(A[i][j], x) ELSE A[i][j]]])
Below(A, x) == Inertia(Shifted(A, x), MaxAbsM(A))
\* the ascending sequence ev is the spectrum of A to within t
Spectrum(A, ev, t) ==
    /\ Len(ev) = Len(A)
    /\ \A k \in 1..(Len(ev) - 1) : Le(ev[k], Add(ev[k + 1], t))
    /\ \A k \in 1..Len(ev) : Below(A, Add(ev[k], t)) >= k /\ Below(A, Sub(ev[k], t)) <= k - 1
Stable(C) == Inertia(C, MaxAbsM(C)) = 0

\* --- rotation of the crystal: R has the new axes as rows
Bond(R) == TLCEval([a \in 1..6 |-> TLCEval([b \in 1..6 |->
              LET i == Pair[a][1]  j == Pair[a][2]  k == Pair[b][1]  m == Pair[b][2]
              IN  IF b <= 3 THEN Mul(R[i][k], R[j][k])
                  ELSE Add(Mul(R[i][k], R[j][m]), Mul(R[i][m], R[j][k]))])])
Rotated(C, R) == LET M == Bond(R) IN MatMulT(MatMulT(M, C), M)
=============================================================================
