----------------------------- MODULE QhaDesign -----------------------------
(***************************************************************************)
(* Phases of a quasi-harmonic run over the table of conditions.  In every  *)
(* cell the model either has a minimum or not; a run that finds none ends  *)
(* with an error and leaves the result file as it was.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NT, NP, Schemes, Minis, Degs
VARIABLES scheme, mini, deg, nomin, phase, done, file, err, prior
vars == <<scheme, mini, deg, nomin, phase, done, file, err, prior>>
Cells == (1..NT) \X (1..NP)
Init == /\ scheme \in Schemes /\ mini \in Minis /\ deg \in Degs
        /\ (mini # "poly" => deg = 3)
        /\ nomin \in {{}, Cells} \cup {{<<1, 1>>}, {<<NT, NP>>}}
        /\ prior \in {"none", "old"} /\ file = prior
        /\ phase = "read" /\ done = {} /\ err = ""
Read == phase = "read" /\ phase' = "minimise" /\ UNCHANGED <<scheme, mini, deg, nomin, done, file, err, prior>>
Minimise == /\ phase = "minimise"
            /\ \E c \in Cells \ done :
                 /\ \A d \in Cells \ done : c[1] < d[1] \/ (c[1] = d[1] /\ c[2] <= d[2])
                 /\ IF c \in nomin THEN err' = "no minimum" /\ phase' = "failed" /\ UNCHANGED done
                    ELSE /\ done' = done \cup {c} /\ UNCHANGED err
                         /\ phase' = IF done' = Cells THEN "properties" ELSE "minimise"
            /\ UNCHANGED <<scheme, mini, deg, nomin, file, prior>>
Properties == phase = "properties" /\ phase' = "export"
              /\ UNCHANGED <<scheme, mini, deg, nomin, done, file, err, prior>>
Export == /\ phase = "export" /\ phase' = "end"
          /\ \E yes \in BOOLEAN : file' = IF prior = "none" \/ yes THEN "new" ELSE prior
          /\ UNCHANGED <<scheme, mini, deg, nomin, done, err, prior>>
Next == Read \/ Minimise \/ Properties \/ Export
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoFileOnError == err # "" => file = prior
FileComplete == file = "new" => done = Cells /\ nomin = {}
ErrorIffNoMin == /\ (phase = "failed" => nomin # {})
                 /\ (phase = "end" => nomin = {})
Ends == <>(phase \in {"failed", "end"})
Emit == phase \in {"failed", "end"} =>
          PrintT("VQSC " \o ToJson([scheme |-> scheme, mini |-> mini, deg |-> deg,
                                    nomin |-> (nomin # {}), prior |-> prior]))
=============================================================================
