----------------------------- MODULE ExportTrace -----------------------------
(***************************************************************************)
(* X01: exports.  A line holds an export session (the kind of result file, *)
(* its datasets, the answers, the files found afterwards with the table    *)
(* each of them holds), or a file given to an export command which is no   *)
(* result of that kind.                                                    *)
(***************************************************************************)
EXTENDS ExportSession, Real, Verdict
VARIABLE l
Fixed(n) == [style |-> "fixed", n |-> n]
Sci(n) == [style |-> "sci", n |-> n]
Thermal == [Uzp |-> "Zero-point energy", Uth |-> "Thermal energy", Utot |-> "Internal energy", S |-> "Entropy",
            Cv |-> "Isochoric heat capacity", Fvib |-> "Vibrational Helmholtz free energy", F |-> "Helmholtz free energy"]
HaOnly == [U0 |-> "Static energy"]
QhaOnly == ("VT" :> "Unit cell volume" @@ "Cp" :> "Isobaric heat capacity" @@ "Cp-Cv" :> "Correction for isobaric heat capacity"
            @@ "KT" :> "Isothermal bulk modulus" @@ "KS" :> "Adiabatic bulk modulus" @@ "Kp" :> "First-derivative of bulk modulus"
            @@ "alphaV" :> "Volumetric coefficient of thermal expansion" @@ "H" :> "Enthalpy" @@ "G" :> "Gibbs free energy"
            @@ "gruneisen" :> "Gruneisen parameters")
Polar == [E |-> "Young's modulus", LC |-> "Linear compressibility", G |-> "Shear modulus", Nu |-> "Poisson's ratio", waves |-> "Seismic wave velocities"]
Named(kind) == CASE kind = "ha" -> Thermal @@ HaOnly [] kind = "qha" -> Thermal @@ QhaOnly [] kind = "soec" -> Polar
StyleOf(kind, k) == CASE kind = "soec" -> Fixed(4) [] k \in {"VT", "KT", "KS", "Kp"} -> Fixed(8) [] OTHER -> Sci(12)
XStyle(kind) == IF kind = "soec" THEN Fixed(1) ELSE Fixed(2)
YStyle == Fixed(8)
XLabel(kind, unit) == IF kind = "soec" THEN "Degrees" ELSE "T (" \o unit \o ")"
YLabel(kind, unit) == IF kind = "ha" THEN "V (" \o unit \o "^3)" ELSE "P (" \o unit \o ")"
UnitLine(unit) == IF unit = "" THEN "Adimensional data" ELSE "Data in " \o unit \o " units"
Slack == Q(1000001, 1000000)
\* p: the number printed for x
Printed(p, x, st) ==
    \/ p = x
    \/ /\ x[1] # 2 /\ p[1] # 2
       /\ LET half == Mul(Slack, Div(Half, Pow(I(10), st.n)))
              room == IF st.style = "fixed" THEN half ELSE Mul(half, Abs(x))
          IN  Le(Abs(Sub(p, x)), Add(room, Mul(Eps(15), Abs(x))))
AllPrinted(ps, xs, st) == Len(ps) = Len(xs) /\ \A j \in 1..Len(xs) : Printed(ps[j], xs[j], st)
\* table t against dataset k of the line e
JudgeTable(i, e, k, t) ==
    LET d == e.data[k]
        st == StyleOf(e.kind, k)
    IN  /\ Say(i, "heading", t.title = Named(e.kind)[k] /\ t.unit = UnitLine(d.unit))
        /\ Say(i, "axes", t.xlabel = XLabel(e.kind, e.xunit)
                          /\ IF e.kind = "soec" THEN t.ylabel = Named(e.kind)[k] /\ t.planes = <<"(xy)", "(xz)", "(yz)">>
                             ELSE t.ylabel = YLabel(e.kind, e.yunit) /\ AllPrinted(t.y, e.y, YStyle))
        /\ IF d.flat
           \* one value for every volume, whatever the temperature
           THEN Say(i, "values", Len(t.rows) = 1 /\ t.x = <<<<>>>> /\ AllPrinted(t.rows[1], d.values, st))
           ELSE /\ Say(i, "abscissae", Len(t.x) = Len(d.x) /\ \A j \in 1..Len(d.x) : t.x[j] # <<>> /\ Printed(t.x[j], d.x[j], XStyle(e.kind)))
                /\ Say(i, "values", Len(t.rows) = Len(d.values) /\ \A j \in 1..Len(d.values) : AllPrinted(t.rows[j], d.values[j], st))
\* a dataset of the wave analysis: 14 columns, and the heading names this dataset only
Decimals == <<6, 6, 5, 3, 4, 4, 4, 5, 3, 5, 5, 5, 4, 4>>
JudgeWaves(i, e, k, t) ==
    LET d == e.data[k]
    IN  /\ Say(i, "heading", t.title = k)
        /\ Say(i, "values", Len(t.rows) = Len(d.values)
                            /\ \A j \in 1..Len(d.values) : Len(t.rows[j]) = 14 /\ \A c \in 1..14 : Printed(t.rows[j][c], d.values[j][c], Fixed(Decimals[c])))
JudgeSession(i, e) ==
    LET end == TLCEval(Play(Open(e.pre, {e.offered[j] : j \in 1..Len(e.offered)}), e.answers, 1))
    IN  /\ Say(i, "no-crash", e.crash = "")
        /\ Say(i, "offered", {e.shown[j] : j \in 1..Len(e.shown)} = {e.offered[j] : j \in 1..Len(e.offered)})
        /\ Say(i, "nothing-else", e.others = <<>>)
        /\ \A n \in DOMAIN end.files :
              LET got == e.files[n] IN
              /\ Say(i, "files", (end.files[n] = "") = (got.content = "") /\ (end.files[n] = "old") = (got.content = "old"))
              /\ (end.files[n] \notin {"", "old"} /\ got.content \notin {"", "old"}) =>
                    IF got.content # "table" THEN Say(i, "is-table", FALSE)
                    ELSE IF e.kind = "seismic" THEN JudgeWaves(i, e, end.files[n], got) ELSE JudgeTable(i, e, end.files[n], got)
JudgeRefusal(i, e) ==
    IF Accepted(e.command, e.shape) THEN Say(i, "accepted", ~e.error /\ e.crash = "")
    ELSE /\ Say(i, "no-crash", e.crash = "")
         /\ Say(i, "refused", e.error)
         /\ Say(i, "nothing-else", ~e.changed)
Judge(i) == LET e == Trace[i] IN IF e.what = "session" THEN JudgeSession(i, e) ELSE JudgeRefusal(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
