------------------------- MODULE ExportSessionDesign -------------------------
(***************************************************************************)
(* All export dialogues.  Checked: a file that was there is never replaced *)
(* without being asked about, files that nobody chose never change, a file *)
(* always holds a dataset that was selected, and the dialogue can always   *)
(* be ended.                                                               *)
(***************************************************************************)
EXTENDS ExportSession, TLC, Json, FiniteSets
CONSTANTS MaxAnswers, Deep
VARIABLES s, pre, answers
vars == <<s, pre, answers>>
Keys == {"k1", "k2"}
Names == {"d_k1", "d_k2", "n1", "n2", "src"}
Offer == CASE s.phase = "select" -> IF Deep THEN Keys \cup {"bad", "enter"} ELSE Keys \cup {"bad"}
           [] s.phase = "overwrite" -> {"y", "n", "enter", "bad"}
           [] s.phase = "name" -> {"n1", "n2", "src", "d_k1", "d_k2", "enter"}
           [] s.phase = "more" -> {"y", "n", "enter", "bad"}
           [] OTHER -> {}
Init == /\ answers = <<>>
        /\ pre \in [Names -> {"", "old"}] /\ pre["src"] = "old" /\ pre["n2"] = ""
        /\ s = Open(pre, Keys)
Next == /\ Len(answers) < MaxAnswers
        /\ \E a \in Offer : s' = Step(s, a) /\ answers' = Append(answers, a)
        /\ UNCHANGED pre
Spec == Init /\ [][Next]_vars
Kept == \A n \in Names : pre[n] = "old" /\ s.files[n] # "old" => n \in s.asked
Chosen == \A n \in Names : s.files[n] # pre[n] => s.files[n] \in Keys
Replayable == Play(Open(pre, Keys), answers, 1) = s
\* one answer never changes two files, and only the last name given
OneFile == [][Cardinality({n \in Names : s'.files[n] # s.files[n]}) <= 1 /\ \A n \in Names : s'.files[n] # s.files[n] => n = s'.target]_vars
\* yes was the answer whenever a file that was there changed
Affirmed == [][\A n \in Names : s.files[n] # "" /\ s'.files[n] # s.files[n] => answers'[Len(answers')] = "y" /\ s.phase = "overwrite"]_vars
Emit == PrintT("VQSC " \o ToJson([pre |-> pre, answers |-> answers, phase |-> s.phase, written |-> {n \in Names : s.files[n] \in Keys}]))
View == <<s, pre, Len(answers)>>
=============================================================================
