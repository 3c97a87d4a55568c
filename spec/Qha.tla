-------------------------------- MODULE Qha --------------------------------
(***************************************************************************)
(* The quasi-harmonic model of a phonon data set e:                        *)
(*   e.V, e.U0 input volumes and static energies, e.w, e.nu weights and    *)
(*   frequencies nu[q][b][v]; e.eu e.vu e.fu e.tu e.pu units; e.T, e.P     *)
(*   conditions; e.edeg, e.fdeg polynomial degrees; e.scheme, e.mini,      *)
(*   e.form the selected model.                                            *)
(***************************************************************************)
EXTENDS Kieffer, EosForms

\* J/mol -> energy unit
EMol(e) == Div(Div(One, AVOGADRO), ScaleT["energy"][e.eu])
\* pressure unit -> energy unit per volume unit
PDens(e, p) == Div(p, DensityFactor(e.eu, e.vu, e.pu))
TKelvin(e) == TLCEval([t \in 1..Len(e.T) |-> Convert("temperature", e.tu, "k", e.T[t])])
HzAt(e, v) == LET fz == ScaleT["frequency"][e.fu]
              IN  TLCEval([q \in 1..Len(e.w) |-> TLCEval([b \in 1..Len(e.nu[1]) |-> Mul(fz, e.nu[q][b][v])])])
\* harmonic values H[t][v][p], J/mol
Harm(e, TK) ==
    LET fr == TLCEval([v \in 1..Len(e.V) |-> HzAt(e, v)])
        fz == ScaleT["frequency"][e.fu]
        \* acoustic branches (Kieffer): e.aco[branch][v], thermal part only
        Aco(t, v, o) ==
            LET k == KSum([b \in 1..Len(e.aco) |-> Mul(fz, e.aco[b][v])], TK[t])
            IN  <<o[1], Add(o[2], Add(k[1], Mul(TK[t], k[2]))), Add(o[3], k[2]), Add(o[4], k[1]), Add(o[5], k[3])>>
    IN  TLCEval([t \in 1..Len(TK) |-> TLCEval([v \in 1..Len(e.V) |->
            LET o == Osums(fr[v], e.w, TK[t])
            IN  IF "aco" \in DOMAIN e THEN TLCEval(Aco(t, v, o)) ELSE o])])
\* free energy rows in energy units
FRow(e, H, t) == LET f == EMol(e) IN TLCEval([v \in 1..Len(e.V) |-> Add(e.U0[v], Mul(f, H[t][v][FVIB]))])

\* frequency interpolation: coefficients per q-point and band
FreqFit(e, fmf) == TLCEval([q \in 1..Len(e.w) |-> TLCEval([b \in 1..Len(e.nu[1]) |-> Coefs(fmf, e.nu[q][b])])])
\* (a frequency that is zero at every volume stays zero)
HzInterp(e, fmf, ff, V) ==
    LET fz == ScaleT["frequency"][e.fu]
    IN  TLCEval([q \in 1..Len(e.w) |-> TLCEval([b \in 1..Len(e.nu[1]) |-> Mul(fz, EvalFit(fmf, ff[q][b], V))])])
\* free energy of the frequency scheme at an arbitrary volume
FFreq(e, fme, ue, fmf, ff, V, TK) ==
    Add(EvalFit(fme, ue, V), Mul(EMol(e), Osums(HzInterp(e, fmf, ff, V), e.w, TK)[FVIB]))

\* noise of the implementation's arithmetic: energies of size |E0| carry a
\* relative error 2^-53 while the physics lives on the scale K*V
Ratio(e, KV) == Add(One, Div(MaxAbs(e.U0), Abs(KV)))
=============================================================================
