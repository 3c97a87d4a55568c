------------------------ MODULE CommandSessionDesign ------------------------
(***************************************************************************)
(* Sequences of runs in one directory.  Checked: the input of a run never  *)
(* changes in it, only its own log and result do, a result that was there  *)
(* changes only after a question and an affirmative answer, and a run that *)
(* ends in an error changes no result.                                     *)
(***************************************************************************)
EXTENDS CommandSession, TLC, Json, FiniteSets
CONSTANTS MaxRuns, Random, Cmds, Few
VARIABLES disk, runs
vars == <<disk, runs>>
Disk0 == ("h.yaml" :> "phonons" @@ "f.yaml" :> "few" @@ "e.dat" :> "elastic" @@ "u.dat" :> "unstable" @@ "s.dat" :> "singular"
          @@ "b.dat" :> "binary" @@ "z.dat" :> "empty" @@ "w.dat" :> "words" @@ "p.dat" :> "pv" @@ "d" :> "dir"
          @@ "y.txt" :> "elastic" @@ "y.hdf5" :> "elastic" @@ "v.txt" :> "phonons" @@ "v.hdf5" :> "phonons" @@ "q.log" :> "pv"
          @@ "k.txt" :> "dir" @@ "m.hdf5" :> "dir" @@ "m.log" :> "dir" @@ "sub" :> "dir" @@ "old.hdf5" :> "words" @@ "sub/e.dat" :> "elastic" @@ "sub/h.x.yaml" :> "phonons")
In(s, e) == [stem |-> s, ext |-> e]
Good == [ha |-> {In("h", ".yaml"), In("f", ".yaml"), In("v", ".txt"), In("v", ".hdf5"), In("sub/h.x", ".yaml")},
         qha |-> {In("h", ".yaml"), In("f", ".yaml"), In("v", ".txt"), In("v", ".hdf5"), In("sub/h.x", ".yaml")},
         soec |-> {In("e", ".dat"), In("u", ".dat"), In("s", ".dat"), In("y", ".txt"), In("y", ".hdf5"), In("sub/e", ".dat")},
         eosfit |-> {In("p", ".dat"), In("q", ".log")}]
Bad == {In("b", ".dat"), In("z", ".dat"), In("w", ".dat"), In("d", ""), In("gone", ".dat")}
Short == [ha |-> {In("h", ".yaml"), In("v", ".txt")}, qha |-> {In("h", ".yaml"), In("f", ".yaml")}, soec |-> {In("e", ".dat"), In("u", ".dat")}, eosfit |-> {In("p", ".dat"), In("q", ".log")}]
Places == {[out |-> "", place |-> "here"], [out |-> "n", place |-> "here"], [out |-> "sub/a.b", place |-> "here"], [out |-> "old", place |-> "here"],
           [out |-> "h_HA", place |-> "here"], [out |-> "y", place |-> "here"], [out |-> "v", place |-> "here"], [out |-> "q", place |-> "here"],
           [out |-> "k", place |-> "here"], [out |-> "m", place |-> "here"], [out |-> "none/n", place |-> "missing"]}
ShortPlaces == {x \in Places : x.out \in {"", "n", "v", "q", "old", "m"}}
Usages == {"", "choice", "degree", "option", "command", "number", "missing"}
\* the analysis fails for these (few volumes: only the quasi-harmonic one)
Able(r) == ~(disk[Input(r)] \in {"unstable", "singular"} \/ (r.cmd = "qha" /\ disk[Input(r)] = "few"))
Replies == {<<>>, <<"y">>, <<"n">>, <<"enter">>, <<"bad", "y">>, <<"bad">>}
Run(c, i, o, u, g, a, qu) == [cmd |-> c, stem |-> i.stem, ext |-> i.ext, out |-> o.out, place |-> o.place, usage |-> u, ranges |-> g,
                              answers |-> a, quiet |-> qu, polar |-> FALSE, plot |-> FALSE, able |-> TRUE]
Inputs(c) == IF Few THEN Short[c] \cup {In("b", ".dat")} ELSE Good[c] \cup Bad
Options(c) == IF Random
    THEN {Run(c, IF RandomElement(1..3) = 1 THEN RandomElement(Bad) ELSE RandomElement(Good[c]), IF RandomElement(1..2) = 1 THEN RandomElement(ShortPlaces) ELSE RandomElement(Places),
              IF RandomElement(1..12) = 1 THEN RandomElement(Usages) ELSE "", IF c \in {"ha", "qha"} /\ RandomElement(1..9) = 1 THEN "bad" ELSE "ok",
              RandomElement({<<"y">>, <<"n">>, RandomElement(Replies)}), RandomElement({TRUE, FALSE}))}
    ELSE {Run(c, i, o, u, g, a, FALSE) : i \in Inputs(c), o \in IF Few THEN ShortPlaces ELSE Places, u \in {"", "choice"}, g \in IF c \in {"ha", "qha"} THEN {"ok", "bad"} ELSE {"ok"},
                                   a \in IF Few THEN {<<"y">>, <<"n">>} ELSE Replies}
\* the base that makes the output of a command its own input is interesting
Init == disk = Disk0 /\ runs = <<>>
Fixed(r) == IF Has1(disk, Input(r)) THEN [r EXCEPT !.able = Able(r)] ELSE r
Next == /\ Len(runs) < MaxRuns
        /\ \E c \in Cmds : \E r0 \in Options(c) :
              LET r == Fixed(r0) IN runs' = Append(runs, r @@ [outcome |-> Outcome(disk, r)]) /\ disk' = After(disk, r)
Spec == Init /\ [][Next]_vars
Last == runs'[Len(runs')]
At(d, n) == IF n \in DOMAIN d THEN d[n] ELSE "none"
OwnInput == [][Has1(disk, Input(Last)) => At(disk', Input(Last)) = disk[Input(Last)]]_vars
OnlyTargets == [][\A n \in DOMAIN disk' : At(disk, n) # At(disk', n) => n \in Targets(Last)]_vars
Affirmed == [][Asks(disk, Last) /\ Answer(Last.answers, 1) # "y" => At(disk', ResultName(Last)) = disk[ResultName(Last)]]_vars
NoLoss == [][\A n \in DOMAIN disk : n \in DOMAIN disk']_vars
Safe == [][Last.outcome \in Errors => \A n \in DOMAIN disk : disk[n] # disk'[n] => n = LogName(Last)]_vars
Emit == Len(runs) = MaxRuns => PrintT("VQSC " \o ToJson([runs |-> runs, disk |-> Disk0]))
View == <<disk, Len(runs)>>
=============================================================================
