---------------------------- MODULE ReportDesign ----------------------------
(* The report grows part by part while the run learns things. *)
EXTENDS Report, TLC, Json
CONSTANTS NP
VARIABLES c, shown, know
vars == <<c, shown, know>>
Init == /\ c \in Configs(NP)
        /\ (c.cmd = "qha" /\ ~c.eos) => c.form = "BM"
        /\ (c.cmd = "qha" /\ c.many) => c.np < 3
        /\ (c.cmd = "qha" /\ c.fail # "none") => c.np = 1 /\ ~c.many
        /\ shown = <<>> /\ know = {"options"}
Next == /\ Len(shown) < Len(Outline(c))
        /\ LET p == Outline(c)[Len(shown) + 1]
           IN  /\ shown' = Append(shown, p)
               /\ know' = know \cup Gives(p, c)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == Len(shown) = Len(Outline(c))
Last == shown[Len(shown)]
Count(p) == Cardinality({k \in 1..Len(shown) : shown[k] = p})
\* nothing is shown before it is known
Grounded == [][Needs(shown'[Len(shown')]) \in know]_vars
\* an error is the last word, and nothing is said to be saved
ErrorLast == \A k \in 1..Len(shown) : shown[k] = "error" => k = Len(shown)
NothingSaved == c.fail # "none" => "results" \notin know /\ Count("saved") = 0 /\ Count("results") = 0
Whole == Over => IF c.fail = "none" THEN Last = "finish" /\ Count("saved") = 1 ELSE Last = "error"
EachPressure == (Over /\ c.fail = "none" /\ c.cmd = "qha") => Count("results") = c.np
NoWavesWithoutDensity == (c.cmd = "soec" /\ ~c.dens) => Count("velocities") = 0 /\ Count("waves") = 0
Ends == <>[]Over
Emit == Over => PrintT("VQSC " \o ToJson(c))
=============================================================================
