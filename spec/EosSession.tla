------------------------------ MODULE EosSession ------------------------------
(***************************************************************************)
(* The interactive equation-of-state session as a machine that consumes    *)
(* the user's answers.  An answer is one of the symbols                    *)
(*   enter y n bad 7   v a b c   1 2 3 4 5   num1 num2 num3 num4           *)
(* (numK: a number typed for parameter K).  A starting value is symbolic:  *)
(* [src, n, round]: src "guess" (the program's guess for the selected      *)
(* data), "fit" (parameters of report n), "typed" (number in answer n);    *)
(* round: rounded to five decimals by accepting the proposed value.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Orders(f) == CASE f = "1" -> {3} [] f = "4" -> {2, 3} [] OTHER -> {2, 3, 4}
Formulation(f) == CASE f = "1" -> "M" [] f = "2" -> "BM" [] f = "3" -> "NS" [] f = "4" -> "V" [] f = "5" -> "T"
OrderDefault(f, o) == IF o \in Orders(f) THEN o ELSE CHOOSE x \in Orders(f) : \A y \in Orders(f) : x <= y
Num(a) == CASE a = "1" -> 1 [] a = "2" -> 2 [] a = "3" -> 3 [] a = "4" -> 4 [] a = "5" -> 5 [] a = "7" -> 7 [] OTHER -> 0
Guess == [j \in 1..4 |-> [src |-> "guess", n |-> 0, round |-> FALSE]]
Open(avail, sig) == [phase |-> "data", pos |-> 0, avail |-> avail, sig |-> sig, sel |-> "", f |-> "1", o |-> 2,
                     start |-> <<>>, fix |-> <<1, 1, 1, 1>>, wp |-> FALSE, wv |-> FALSE, reports |-> <<>>]
Report(s) == [s EXCEPT !.phase = "update",
                       !.reports = Append(@, [sel |-> s.sel, f |-> Formulation(s.f), o |-> s.o, start |-> s.start,
                                              fix |-> s.fix, wp |-> s.wp, wv |-> s.wv])]
Weights(s) == LET t == [s EXCEPT !.wp = FALSE, !.wv = FALSE]
              IN  IF {"p", s.sel} \cap s.sig = {} THEN Report(t) ELSE [t EXCEPT !.phase = "weight"]
WeightV(s) == IF s.sel \in s.sig THEN [s EXCEPT !.phase = "wv"] ELSE Report(s)
Yes(a) == a = "y"
No(a) == a \in {"n"}
Typed(a) == a \in {"num1", "num2", "num3", "num4"}
NextValue(s) == IF s.pos = 4 THEN [s EXCEPT !.phase = "fix"] ELSE [s EXCEPT !.pos = @ + 1]
Fixed(s, b) == LET t == [s EXCEPT !.fix[s.pos] = b]
               IN  IF s.pos < 4 THEN [t EXCEPT !.pos = @ + 1]
                   ELSE IF \A j \in 1..4 : t.fix[j] = 0 THEN [t EXCEPT !.phase = "fix"]
                   ELSE Weights(t)
\* the session after answer number k, which is a
Step(s, a, k) ==
    CASE s.phase = "data" -> IF a \in s.avail THEN [s EXCEPT !.sel = a, !.start = <<>>, !.phase = "eos"] ELSE s
      [] s.phase = "eos" -> IF a = "enter" THEN [s EXCEPT !.phase = "order"]
                            ELSE IF Num(a) \in 1..5 THEN [s EXCEPT !.f = a, !.phase = "order"] ELSE s
      [] s.phase = "order" ->
           LET o == IF a = "enter" THEN OrderDefault(s.f, s.o) ELSE Num(a)
           IN  IF o \in Orders(s.f)
               THEN [s EXCEPT !.o = o, !.phase = "modify", !.start = IF @ = <<>> THEN Guess ELSE @] ELSE s
      [] s.phase = "modify" -> IF Yes(a) THEN [s EXCEPT !.phase = "value", !.pos = 1]
                               ELSE IF a = "enter" \/ No(a) THEN [s EXCEPT !.phase = "fix"] ELSE s
      [] s.phase = "value" -> IF a = "enter" THEN NextValue([s EXCEPT !.start[s.pos].round = TRUE])
                              ELSE IF Typed(a) THEN NextValue([s EXCEPT !.start[s.pos] = [src |-> "typed", n |-> k, round |-> FALSE]])
                              ELSE s
      [] s.phase = "fix" -> IF Yes(a) THEN [s EXCEPT !.phase = "fixj", !.pos = 1]
                            ELSE IF a = "enter" \/ No(a) THEN Weights([s EXCEPT !.fix = <<1, 1, 1, 1>>]) ELSE s
      [] s.phase = "fixj" -> IF Yes(a) THEN Fixed(s, 0) ELSE IF a = "enter" \/ No(a) THEN Fixed(s, 1) ELSE s
      [] s.phase = "weight" -> IF a = "enter" \/ Yes(a) THEN (IF "p" \in s.sig THEN [s EXCEPT !.phase = "wp"] ELSE WeightV(s))
                               ELSE IF No(a) THEN Report(s) ELSE s
      [] s.phase = "wp" -> IF a = "enter" \/ Yes(a) THEN WeightV([s EXCEPT !.wp = TRUE])
                           ELSE IF No(a) THEN WeightV(s) ELSE s
      [] s.phase = "wv" -> IF a = "enter" \/ Yes(a) THEN Report([s EXCEPT !.wv = TRUE])
                           ELSE IF No(a) THEN Report(s) ELSE s
      [] s.phase = "update" -> LET n == Len(s.reports) IN
                               IF Yes(a) THEN [s EXCEPT !.phase = "continue",
                                                        !.start = [j \in 1..4 |-> [src |-> "fit", n |-> n, round |-> FALSE]]]
                               ELSE IF a = "enter" \/ No(a) THEN [s EXCEPT !.phase = "continue"] ELSE s
      [] s.phase = "continue" -> IF Yes(a) THEN [s EXCEPT !.phase = "change"]
                                 ELSE IF a = "enter" \/ No(a) THEN [s EXCEPT !.phase = "other"] ELSE s
      [] s.phase = "change" -> IF Yes(a) THEN [s EXCEPT !.phase = "eos"]
                               ELSE IF a = "enter" \/ No(a) THEN [s EXCEPT !.phase = "modify"] ELSE s
      [] s.phase = "other" -> IF Yes(a) THEN [s EXCEPT !.phase = "data"]
                              ELSE IF a = "enter" \/ No(a) THEN [s EXCEPT !.phase = "end"] ELSE s
      [] OTHER -> s
\* starting values shown whenever the session asks whether to modify them
Shows(s, t) == IF t.phase = "modify" /\ s.phase # "modify" THEN <<[start |-> t.start, sel |-> t.sel]>> ELSE <<>>
RECURSIVE Shown(_, _, _)
Shown(s, as, k) == IF k > Len(as) THEN <<>> ELSE LET t == Step(s, as[k], k) IN Shows(s, t) \o Shown(t, as, k + 1)
RECURSIVE Play(_, _, _)
Play(s, as, k) == IF k > Len(as) THEN s ELSE Play(Step(s, as[k], k), as, k + 1)
=============================================================================
