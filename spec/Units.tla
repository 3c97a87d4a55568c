------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* The unit system of Quantas.  A unit u of a kind k denotes the affine    *)
(* map  SI = A(k,u) * x + B(k,u).  Constants are CODATA 2018.  All names   *)
(* are the documented spellings, in lower case ("degc" stands for the      *)
(* degree-sign spelling of Celsius).                                       *)
(***************************************************************************)
EXTENDS Real, TLC

\* hi * 10^9 + lo, times 10^k
Big(hi, lo, k) == Mul(Add(Mul(I(hi), Dec(1, 9)), I(lo)), Dec(1, k))

EVJ     == Dec(1602176634, -28)
HARTREE == Big(43597, 447222071, -31)      \* 4.3597447222071e-18 J
RYDBERG == Big(21798, 723611035, -31)      \* 2.1798723611035e-18 J
AVOGADRO == Dec(602214076, 15)
PLANCK  == Dec(662607015, -42)
KBOLTZ  == Dec(1380649, -29)
LIGHT   == I(299792458)
BOHR    == Big(529, 177210903, -22)        \* 5.29177210903e-11 m
ANGSTROM == Dec(100001495, -18)            \* the "Angstrom star" of CODATA, as documented
ZEROC   == Q(27315, 100)

Kinds == {"temperature", "energy", "pressure", "frequency", "length", "volume"}

Names ==
 [temperature |-> {"celsius", "degc", "c", "kelvin", "k", "fahrenheit", "f", "rankine", "r"},
  energy      |-> {"hartree", "ha", "electron volt", "ev", "rydberg", "ry", "kj/mol", "kjmol"},
  pressure    |-> {"pa", "kpa", "mpa", "gpa", "bar", "kbar", "mbar", "gbar"},
  frequency   |-> {"cm^-1", "hz", "thz"},
  length      |-> {"metre", "m", "angstrom", "a", "bohr"},
  volume      |-> {"metre", "m", "angstrom", "a", "bohr"}]

LenSI(u) == CASE u \in {"metre", "m"} -> One
              [] u \in {"angstrom", "a"} -> ANGSTROM
              [] u = "bohr" -> BOHR

Scale(k, u) ==
  CASE k = "temperature" -> (IF u \in {"fahrenheit", "f", "rankine", "r"} THEN Q(5, 9) ELSE One)
    [] k = "energy" -> (CASE u \in {"hartree", "ha"} -> HARTREE
                          [] u \in {"electron volt", "ev"} -> EVJ
                          [] u \in {"rydberg", "ry"} -> RYDBERG
                          [] u \in {"kj/mol", "kjmol"} -> Div(I(1000), AVOGADRO))
    [] k = "pressure" -> (CASE u = "pa" -> One [] u = "kpa" -> Dec(1, 3) [] u = "mpa" -> Dec(1, 6)
                            [] u = "gpa" -> Dec(1, 9) [] u = "bar" -> Dec(1, 5)
                            [] u = "kbar" -> Dec(1, 8) [] u = "mbar" -> Dec(1, 11)
                            [] u = "gbar" -> Dec(1, 14))
    [] k = "frequency" -> (CASE u = "cm^-1" -> Mul(I(100), LIGHT) [] u = "hz" -> One
                             [] u = "thz" -> Dec(1, 12))
    [] k = "length" -> LenSI(u)
    [] k = "volume" -> Pow(LenSI(u), 3)

Shift(k, u) ==
  IF k # "temperature" THEN Zero
  ELSE CASE u \in {"celsius", "degc", "c"} -> ZEROC
         [] u \in {"fahrenheit", "f"} -> Sub(ZEROC, Mul(I(32), Q(5, 9)))
         [] OTHER -> Zero

ScaleT == TLCEval([k \in Kinds |-> TLCEval([u \in Names[k] |-> Scale(k, u)])])
ShiftT == TLCEval([k \in Kinds |-> TLCEval([u \in Names[k] |-> Shift(k, u)])])

\* affine maps x |-> m[1] * x + m[2]
Apply(m, x) == Add(Mul(m[1], x), m[2])
Compose(m, n) == <<Mul(m[1], n[1]), Add(Mul(m[1], n[2]), m[2])>>    \* m after n
Direct(k, u, v) ==
    LET a == Div(ScaleT[k][u], ScaleT[k][v])
    IN  <<a, Div(Sub(ShiftT[k][u], ShiftT[k][v]), ScaleT[k][v])>>
Convert(k, u, v, x) == Apply(Direct(k, u, v), x)

\* energy per volume <-> pressure
DensityUnits == {"hartree", "ha", "electron volt", "ev", "rydberg", "ry"}
DensityVols == {"angstrom", "a", "bohr"}
DensityFactor(e, v, p) ==
    Div(Div(ScaleT["energy"][e], ScaleT["volume"][v]), ScaleT["pressure"][p])
=============================================================================
