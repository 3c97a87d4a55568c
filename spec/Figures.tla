------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* The figures of the elastic analysis: for each property one figure with  *)
(* a panel for each plane, in each panel a curve for each column of the    *)
(* section stored for that property and plane, within the visible radius.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Planes == <<"xy", "xz", "yz">>
PropsOf(dens) == <<"E", "LC", "G", "Nu">> \o (IF dens THEN <<"waves">> ELSE <<>>)
\* the curves of a property, in the order of the stored columns
Curves(q) ==
    CASE q = "E" -> <<"">>
      [] q = "LC" -> <<"Positive", "Negative">>
      [] q = "G" -> <<"Minimum", "Maximum">>
      [] q = "Nu" -> <<"Negative", "Minimum", "Maximum">>
      [] q = "waves" -> <<"$v_{s1}$", "$v_{s2}$", "$v_{p}$">>
Title(q) ==
    CASE q = "E" -> "Young's modulus" [] q = "LC" -> "Linear compressibility" [] q = "G" -> "Shear modulus"
      [] q = "Nu" -> "Poisson's ratio" [] q = "waves" -> "Seismic waves"
\* figures of a run
Due(c) == IF c.polar /\ c.plots /\ c.crystal # "unstable" THEN PropsOf(c.dens) ELSE <<>>
Configs == [dens : BOOLEAN, polar : BOOLEAN, plots : BOOLEAN, crystal : {"ordinary", "shrinking", "auxetic", "unstable"}]
=============================================================================
