------------------------------ MODULE Restate ------------------------------
(***************************************************************************)
(* Ways of stating one physical data set.  The data set has NQ q-points    *)
(* with weights W0 and NB bands at NV volumes; a frequency is identified    *)
(* by the triple <<q, b, v>>.  A representation is the order of q-points,  *)
(* of the bands of each q-point and of the volumes, a common factor of the *)
(* weights, and a choice of units.  Meaning is what a harmonic calculation *)
(* may depend on; no restatement changes it (for the volumes kept).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NQ, NB, NV
VARIABLES qs, bs, vs, wf, eu, fu, vu, tu, steps
vars == <<qs, bs, vs, wf, eu, fu, vu, tu, steps>>
W0(q) == q * q + 1
Ids(n) == [k \in 1..n |-> k]
Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Init == /\ qs = Ids(NQ) /\ bs = [q \in 1..NQ |-> Ids(NB)] /\ vs = Ids(NV) /\ wf = 4
        /\ eu = "Ha" /\ fu = "cm^-1" /\ vu = "A" /\ tu = "K" /\ steps = 0
SwapQ == \E a, b \in 1..NQ : a < b /\ qs' = Swap(qs, a, b) /\ UNCHANGED <<bs, vs, wf, eu, fu, vu, tu>>
SwapB == \E q \in 1..NQ : \E a, b \in 1..NB : a < b /\ bs' = [bs EXCEPT ![q] = Swap(@, a, b)]
                 /\ UNCHANGED <<qs, vs, wf, eu, fu, vu, tu>>
SwapV == \E a, b \in 1..Len(vs) : a < b /\ vs' = Swap(vs, a, b) /\ UNCHANGED <<qs, bs, wf, eu, fu, vu, tu>>
Single == Len(vs) > 1 /\ \E v \in 1..Len(vs) : vs' = <<vs[v]>> /\ UNCHANGED <<qs, bs, wf, eu, fu, vu, tu>>
ScaleW == wf' \in {1, 4, 12} \ {wf} /\ UNCHANGED <<qs, bs, vs, eu, fu, vu, tu>>
SetE == eu' \in {"Ha", "eV", "Ry"} \ {eu} /\ UNCHANGED <<qs, bs, vs, wf, fu, vu, tu>>
SetF == fu' \in {"cm^-1", "THz", "Hz"} \ {fu} /\ UNCHANGED <<qs, bs, vs, wf, eu, vu, tu>>
SetV == vu' \in {"A", "bohr"} \ {vu} /\ UNCHANGED <<qs, bs, vs, wf, eu, fu, tu>>
SetT == tu' \in {"K", "C"} \ {tu} /\ UNCHANGED <<qs, bs, vs, wf, eu, fu, vu>>
CONSTANT MaxSteps
Next == steps < MaxSteps /\ steps' = steps + 1 /\
        (SwapQ \/ SwapB \/ SwapV \/ Single \/ ScaleW \/ SetE \/ SetF \/ SetV \/ SetT)
Spec == Init /\ [][Next]_vars

RECURSIVE SumW(_)
SumW(n) == IF n = 0 THEN 0 ELSE SumW(n - 1) + W0(n) * wf
\* normalised weight of a mode as a fraction <<num, den>> in lowest terms is
\* avoided by comparing cross products
WNum(q) == W0(q) * wf
WDen == SumW(NQ)
Meaning(v) == {<<WNum(qs[k]) * SumW(NQ), WDen * SumW(NQ), qs[k], {bs[qs[k]][b] : b \in 1..NB}, v>> : k \in 1..NQ}
\* the normalised weights do not depend on wf, every mode appears exactly once
WellFormed ==
    /\ \A q \in 1..NQ : WNum(q) * (WDen \div wf) = W0(q) * WDen
    /\ {qs[k] : k \in 1..NQ} = 1..NQ
    /\ \A q \in 1..NQ : {bs[q][b] : b \in 1..NB} = 1..NB
    /\ Cardinality({vs[k] : k \in 1..Len(vs)}) = Len(vs)
    /\ \A k \in 1..Len(vs) : Cardinality(Meaning(vs[k])) = NQ
Emit == PrintT("VQSC " \o ToJson([qs |-> qs, bs |-> bs, vs |-> vs, wf |-> wf,
            eu |-> eu, fu |-> fu, vu |-> vu, tu |-> tu, n |-> steps]))
=============================================================================
