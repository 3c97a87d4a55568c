-------------------------- MODULE SoecAveragesTrace --------------------------
(***************************************************************************)
(* S01: averages, compliance, eigenvalues and stability.                   *)
(*  kind "object": what the tensor object returns for a matrix             *)
(*  kind "run": what a full analysis reports and stores                    *)
(***************************************************************************)
EXTENDS Elastic, Verdict
VARIABLE l
rel == Eps(9)
MClose(A, B, t, sc) == /\ Len(A) = Len(B)
                       /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : Near(A[i][j], B[i][j], t, sc)
\* a row of averages is well determined by the matrix
Determined(r, inv, sc) == /\ Gt(Abs(inv[1]), Mul(Eps(3), sc)) /\ Gt(Abs(inv[2]), Mul(Eps(3), sc))
                          /\ Gt(Abs(Add(Mul(I(3), r[1]), r[3])), Mul(Eps(3), Add(Abs(r[1]), Abs(r[3]))))
RowClose(a, b, t, abs) == \A j \in 1..4 : Le(Abs(Sub(a[j], b[j])), Add(abs, Mul(t, Max(Abs(b[j]), IF j = 4 THEN One ELSE Zero))))
AvgOk(rec, want, C, S, t, abs) ==
    /\ Len(rec) = 3
    /\ \A k \in 1..3 :
          LET inv == IF k = 1 THEN <<KVoigt(C), GVoigt(C)>> ELSE <<InvKReuss(S), InvGReuss(S)>>
              sc == IF k = 1 THEN MaxAbsM(C) ELSE MaxAbsM(S)
          IN  ~Determined(want[k], inv, sc) \/ RowClose(rec[k], want[k], t, abs)
VelOk(v, hill, rho, t, abs) ==
    LET s == VShear(hill[3], rho)  p == VPress(hill[1], hill[3], rho)
    IN  Near(v[1], s, One, Add(abs, Mul(t, s))) /\ Near(v[2], p, One, Add(abs, Mul(t, p)))
Judge(i) ==
    LET e == Trace[i]
        C == e.C
        S == TLCEval(Inverse(C))
        want == TLCEval(Averages(C, S))
        stable == Stable(C)
        half5 == Mul(Q(6, 10), Eps(5))
    IN  IF e.kind = "object" THEN
          /\ Say(i, "compliance", MClose(e.S, S, rel, MaxAbsM(S)))
          /\ Say(i, "averages", AvgOk(e.avg, want, C, S, rel, Zero))
          /\ Say(i, "stiffness-kept", e.C2 = C)
          /\ Say(i, "velocities", e.vel = <<>> \/ (e.vel[1] = e.vel[2] /\ VelOk(<<e.vel[1], e.vel[3]>>, want[3], e.rho, rel, Zero)))
          /\ Say(i, "voigt-reuss-hill-order", ~stable \/ \A j \in 1..3 :
                   LET t == Mul(rel, e.avg[1][j])
                   IN  Le(e.avg[2][j], Add(e.avg[3][j], t)) /\ Le(e.avg[3][j], Add(e.avg[1][j], t)))
        ELSE
          /\ Say(i, "report-averages", AvgOk(e.avg, want, C, S, rel, half5))
          /\ Say(i, "report-compliance", MClose(e.S, [a \in 1..6 |-> VScale(I(1000), S[a])], Add(Mul(Q(6, 10), Eps(6)), Mul(rel, Mul(I(1000), MaxAbsM(S)))), One))
          /\ Say(i, "report-stiffness", MClose(e.C2, C, Mul(Q(6, 10), Eps(4)), One))
          /\ Say(i, "report-eigenvalues", Spectrum(C, e.eig, Add(half5, Mul(rel, MaxAbsM(C)))))
          /\ Say(i, "report-velocities",
                   IF e.rho = Zero \/ ~(Pos(want[3][3]) /\ Pos(Add(want[3][1], want[3][3]))) THEN e.rho # Zero \/ e.vel = <<>>
                   ELSE Len(e.vel) = 2 /\ VelOk(e.vel, want[3], e.rho, rel, half5))
          /\ Say(i, "unstable-recognised", stable = e.completed)
          /\ Say(i, "unstable-error", stable \/ (e.unstable /\ ~e.completed))
          /\ Say(i, "unstable-not-analysed", stable = e.analysed)
          /\ e.completed =>
              /\ Say(i, "stored-stiffness", e.h5.stiffness = C)
              /\ Say(i, "stored-compliance", MClose(e.h5.compliance, [a \in 1..6 |-> VScale(I(1000), S[a])], rel, Mul(I(1000), MaxAbsM(S))))
              /\ Say(i, "stored-averages", AvgOk(e.h5.averages, want, C, S, rel, Zero))
              /\ Say(i, "stored-eigenvalues", Spectrum(C, e.h5.eigenvals, Mul(rel, MaxAbsM(C))))
              /\ Say(i, "stored-units", e.units.stiffness = "GPa" /\ e.units.compliance = "TPa^-1" /\ e.units.averages = "GPa"
                                        /\ e.units.eigenvals = "GPa")
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
