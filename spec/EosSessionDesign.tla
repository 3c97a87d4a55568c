--------------------------- MODULE EosSessionDesign ---------------------------
(***************************************************************************)
(* All sessions: every answer at every question.  Checked: every report    *)
(* concerns what was chosen, starting values never come from other data,   *)
(* declining keeps them, a fit always has a free parameter, and a session  *)
(* can always be ended.  Random walks of this model are the sessions       *)
(* replayed against the program.                                           *)
(***************************************************************************)
EXTENDS EosSession, TLC, Json
CONSTANTS MaxReports, MaxAnswers, Files, Plain
VARIABLES s, answers, since
vars == <<s, answers, since>>
File(n) == CASE n = 1 -> [avail |-> {"v"}, sig |-> {}]
             [] n = 2 -> [avail |-> {"v", "a"}, sig |-> {"p", "v"}]
             [] n = 3 -> [avail |-> {"a", "b", "c"}, sig |-> {"b"}]
             [] n = 4 -> [avail |-> {"v", "a", "b", "c"}, sig |-> {"p", "v", "a", "b", "c"}]
             [] n = 5 -> [avail |-> {"v", "c"}, sig |-> {"p"}]
Numbers == <<"num1", "num2", "num3", "num4">>
PlainOffer == CASE s.phase = "data" -> s.avail
                [] s.phase = "eos" -> {"enter", "2"}
                [] s.phase = "order" -> {"enter", "3"}
                [] s.phase = "value" -> IF s.pos = 1 THEN {"enter", Numbers[s.pos]} ELSE {"enter"}
                [] s.phase = "fixj" -> IF s.pos = 2 THEN {"y", "n"} ELSE {"n"}
                [] s.phase \in {"wp", "wv"} -> {"y"}
                [] s.phase = "end" -> {}
                [] OTHER -> {"y", "n"}
Offer == IF Plain THEN PlainOffer ELSE
         CASE s.phase = "data" -> s.avail \cup {"bad", "7"}
           [] s.phase = "eos" -> {"enter", "1", "2", "3", "4", "5", "bad", "7"}
           [] s.phase = "order" -> {"enter", "2", "3", "4", "bad", "7"}
           [] s.phase = "value" -> {"enter", "bad", Numbers[s.pos]}
           [] s.phase = "end" -> {}
           [] OTHER -> {"enter", "y", "n", "bad"}
Init == \E n \in Files : s = Open(File(n).avail, File(n).sig) /\ answers = <<>> /\ since = 0
\* close to the bounds only the answers that lead to the end
Closing == Len(s.reports) >= MaxReports \/ Len(answers) >= MaxAnswers
Next == \E a \in Offer :
          /\ (Closing /\ s.phase \in {"update", "continue", "other", "change"}) => a \in {"n", "enter"}
          /\ Len(answers) >= MaxAnswers => ~(a \in {"bad", "7"} \/ (s.phase \in {"fix", "modify"} /\ a = "y"))
          /\ s' = Step(s, a, Len(answers) + 1)
          /\ answers' = Append(answers, a)
          \* number of reports made before the data now fitted was selected
          /\ since' = IF s.phase = "data" /\ s'.phase = "eos" THEN Len(s.reports) ELSE since
Spec == Init /\ [][Next]_vars
Last == s.reports[Len(s.reports)]
NoLeak == /\ s.start # <<>> => \A j \in 1..4 : s.start[j].src = "fit" => s.start[j].n > since
          /\ s.phase = "update" => Last.sel = s.sel /\ Last.start = s.start
Sound == \A k \in 1..Len(s.reports) :
            LET r == s.reports[k] IN
            /\ r.sel \in s.avail
            /\ \E j \in 1..4 : r.fix[j] = 1
            /\ r.wp => "p" \in s.sig
            /\ r.wv => r.sel \in s.sig
            /\ (\E f \in {"1", "2", "3", "4", "5"} : r.f = Formulation(f) /\ r.o \in Orders(f))
Replayable == Play(Open(s.avail, s.sig), answers, 1) = s
\* declining an update leaves the starting values of the report in force
Declined == [][(s.phase = "update" /\ s'.phase = "continue" /\ answers'[Len(answers')] # "y") => s'.start = s.reports[Len(s.reports)].start]_vars
\* sessions that differ only in which answer number typed a value are the same
Mask(st) == [j \in DOMAIN st |-> IF st[j].src = "typed" THEN [st[j] EXCEPT !.n = 0] ELSE st[j]]
View == <<[s EXCEPT !.start = Mask(@), !.reports = [k \in DOMAIN @ |-> [@[k] EXCEPT !.start = Mask(@)]]], since>>
Emit == s.phase = "end" => PrintT("VQSC " \o ToJson([avail |-> s.avail, sig |-> s.sig, answers |-> answers, shown |-> Shown(Open(s.avail, s.sig), answers, 1), reports |-> s.reports]))
=============================================================================
