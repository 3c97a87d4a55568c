------------------------------- MODULE Seismic -------------------------------
(***************************************************************************)
(* Waves in a crystal: Christoffel's equation and what derives from it.    *)
(* Velocities in km/s for C in GPa and rho in kg/m3.                       *)
(***************************************************************************)
EXTENDS Elastic
Matrix(C, rho, n) == LET g == Christoffel(C, n) f == Div(I(1000), rho) IN TLCEval([i \in 1..3 |-> VScale(f, g[i])])
Det3(b) == Add(Sub(Mul(b[1][1], Sub(Mul(b[2][2], b[3][3]), Mul(b[2][3], b[3][2]))),
                   Mul(b[1][2], Sub(Mul(b[2][1], b[3][3]), Mul(b[2][3], b[3][1])))),
               Mul(b[1][3], Sub(Mul(b[2][1], b[3][2]), Mul(b[2][2], b[3][1]))))
\* the three roots of the characteristic polynomial, ascending
Roots(g) ==
    LET q0 == Div(Sum(<<g[1][1], g[2][2], g[3][3]>>), I(3))
        b == TLCEval(Shifted(g, q0))
        r == Sqrt(Div(Sum([i \in 1..3 |-> DotV(b[i], b[i])]), I(6)))
        cs == IF Le(r, Mul(Eps(14), Abs(q0))) THEN One
              ELSE Max(Neg(One), Min(One, Div(Det3(b), Mul(Two, Mul(r, Sq(r))))))
        a == IF Le(One, cs) THEN Zero ELSE IF Le(cs, Neg(One)) THEN Pi ELSE Sub(Div(Pi, Two), Asin(cs))
        at(turn) == Add(q0, Mul(Two, Mul(r, Cos(Add(Div(a, I(3)), Div(Mul(turn, Pi), I(3)))))))
    IN  TLCEval(<<at(Two), at(I(4)), at(Zero)>>)
Cross(a, b) == <<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])), Sub(Mul(a[3], b[1]), Mul(a[1], b[3])), Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
Norm(v) == Sqrt(DotV(v, v))
\* unit eigenvector of a simple eigenvalue x
EigVec(g, x) ==
    LET b == TLCEval(Shifted(g, x))
        c == TLCEval(<<Cross(b[1], b[2]), Cross(b[1], b[3]), Cross(b[2], b[3])>>)
        w == [k \in 1..3 |-> DotV(c[k], c[k])]
        best == IF Le(w[2], w[1]) /\ Le(w[3], w[1]) THEN c[1] ELSE IF Le(w[3], w[2]) THEN c[2] ELSE c[3]
    IN  TLCEval(Unit(best))
\* traction-like tensor  C : (q (x) e), applied to p
Engineering(q, e) == <<Mul(q[1], e[1]), Mul(q[2], e[2]), Mul(q[3], e[3]), Add(Mul(q[2], e[3]), Mul(q[3], e[2])),
                       Add(Mul(q[1], e[3]), Mul(q[3], e[1])), Add(Mul(q[1], e[2]), Mul(q[2], e[1]))>>
Apply(C, q, e, p) == LET s == TLCEval(MatVec(C, Engineering(q, e)))
                     IN  TLCEval([i \in 1..3 |-> Sum([j \in 1..3 |-> Mul(s[VoigtOf[i][j]], p[j])])])
\* gradient of the eigenvalue of eigenvector e; group velocity
GradEig(C, rho, q, e) == VScale(Div(I(2000), rho), Apply(C, q, e, e))
\* all that belongs to one direction with three distinct velocities
Waves(C, rho, n) ==
    LET g == Matrix(C, rho, n)
        ev == Roots(g)
        vec == TLCEval([k \in 1..3 |-> EigVec(g, ev[k])])
        grad == TLCEval([k \in 1..3 |-> GradEig(C, rho, n, vec[k])])
        v == TLCEval([k \in 1..3 |-> Sqrt(ev[k])])
        vg == TLCEval([k \in 1..3 |-> TLCEval(VScale(Div(Half, v[k]), grad[k]))])
    IN  [g |-> g, ev |-> ev, vec |-> vec, grad |-> grad, v |-> v, vg |-> vg, abs |-> TLCEval([k \in 1..3 |-> Norm(vg[k])])]
\* second derivatives of eigenvalue k with respect to the wave vector
HessEig(C, rho, n, w, k) ==
    LET f == Div(I(1000), rho)
        a == Christoffel(C, w.vec[k])
        cross(m) == TLCEval(LET x == Apply(C, n, w.vec[k], w.vec[m]) y == Apply(C, n, w.vec[m], w.vec[k])
                            IN  VScale(f, VAdd(x, y)))
        others == {1, 2, 3} \ {k}
        m1 == CHOOSE m \in others : TRUE
        m2 == CHOOSE m \in others : m # m1
        c1 == cross(m1)  c2 == cross(m2)
        d1 == Sub(w.ev[k], w.ev[m1])  d2 == Sub(w.ev[k], w.ev[m2])
    IN  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |->
            Mul(Two, Sum(<<Mul(f, a[i][j]), Div(Mul(c1[i], c1[j]), d1), Div(Mul(c2[i], c2[j]), d2)>>))])])
\* derivative of the ray direction with respect to the wave vector
RayGrad(h, grad) ==
    LET r == Norm(grad)
        hg == TLCEval(MatVec(h, grad))
    IN  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> Sub(Div(h[i][j], r), Div(Mul(grad[i], hg[j]), Mul(r, Sq(r))))])])
CofRow(A, i) == LET r == <<Cross(A[2], A[3]), Cross(A[3], A[1]), Cross(A[1], A[2])>> IN r[i]
\* reciprocal of the enhancement factor: ratio of solid angles of rays and wave vectors
Spreading(A, n) == Norm([i \in 1..3 |-> DotV(CofRow(A, i), n)])
=============================================================================
