----------------------- MODULE GeneratorSessionDesign -----------------------
(***************************************************************************)
(* Sequences of input generations in one directory.  Checked: nothing but  *)
(* the target of a run changes in it, what it was made from never does,    *)
(* a run that ends in an error or without a title changes nothing, and     *)
(* what was possible stays possible: a generation that succeeded succeeds  *)
(* again, whatever ran in between, unless its sources were replaced.       *)
(***************************************************************************)
EXTENDS GeneratorSession, TLC, Json, FiniteSets
CONSTANTS MaxRuns, Random
VARIABLES disk, runs
vars == <<disk, runs>>
Disk0 == ("f1.out" :> "freq" @@ "f2.out" :> "freq" @@ "f3.dat" :> "freq" @@ "o.out" :> "otherfreq" @@ "cut.out" :> "cut" @@ "q.out" :> "qhaout"
          @@ "p1.yaml" :> "phonopy" @@ "p2.yaml" :> "phonopy" @@ "p1_disp.yaml" :> "disp" @@ "p2_disp.yaml" :> "disp" @@ "quantas_ha.yaml" :> "phonopy" @@ "quantas_ha_disp.yaml" :> "disp"
          @@ "t.out" :> "tensor" @@ "t2.dat" :> "tensor" @@ "v.out" :> "vasptensor" @@ "OUTCAR" :> "vasptensor" @@ "b.out" :> "binary" @@ "w.out" :> "words" @@ "z.out" :> "empty"
          @@ "l.yaml" :> "list" @@ "l1" :> "list" @@ "lo" :> "list" @@ "lm" :> "list" @@ "lc" :> "list" @@ "lp" :> "list" @@ "le" :> "list" @@ "ld" :> "list" @@ "lb" :> "list"
          @@ "lq.txt" :> "list" @@ "ls" :> "list"
          @@ "sub" :> "dir" @@ "d.yaml" :> "dir" @@ "d.dat" :> "dir" @@ "old.yaml" :> "words" @@ "old.dat" :> "words" @@ "sub/t.x.out" :> "tensor" @@ "sub/f4.out" :> "freq")

MyLists == ("l.yaml" :> <<"f2.out", "f1.out", "sub/f4.out">> @@ "l1" :> <<"f1.out">> @@ "lo" :> <<"f1.out", "o.out">> @@ "lm" :> <<"f1.out", "gone.out">> @@ "lc" :> <<"cut.out", "f1.out">>
            @@ "lp" :> <<"p2.yaml", "p1.yaml">> @@ "le" :> <<>> @@ "ld" :> <<"f1.out", "sub">> @@ "lb" :> <<"f1.out", "b.out">> @@ "lq.txt" :> <<"quantas_ha.yaml">> @@ "ls" :> <<"f1.out", "f3.dat", "f2.out">>)
P == ("p1.yaml" :> "p1_disp.yaml" @@ "p2.yaml" :> "p2_disp.yaml" @@ "quantas_ha.yaml" :> "quantas_ha_disp.yaml")
In(s, e) == [stem |-> s, ext |-> e]
Alone == {In("f1", ".out"), In("o", ".out"), In("cut", ".out"), In("q", ".out"), In("p1", ".yaml"), In("quantas_ha", ".yaml"), In("t", ".out"), In("t2", ".dat"), In("v", ".out"), In("OUTCAR", ""),
          In("b", ".out"), In("w", ".out"), In("z", ".out"), In("sub", ""), In("d", ".yaml"), In("gone", ".out"), In("l1", ""), In("sub/t.x", ".out"), In("sub/f4", ".out")}
InLists == {In("l", ".yaml"), In("l1", ""), In("lo", ""), In("lm", ""), In("lc", ""), In("lp", ""), In("le", ""), In("ld", ""), In("lb", ""), In("lq", ".txt"), In("ls", ""),
            In("f1", ".out"), In("b", ".out"), In("sub", "")}
Outs == {[out |-> o, place |-> "here"] : o \in {"", "n", "old", "d", "sub/a.b", "p1", "p1_disp", "p2", "quantas_ha_disp", "l", "t2", "t", "f3", "quantas_ha"}} \cup {[out |-> "none/n", place |-> "missing"]}
Faces(c) == IF c = "ha" THEN {"crystal", "crystal-qha", "phonopy"} ELSE {"crystal", "vasp"}
Named(n, l) == IF l /\ n \in DOMAIN MyLists THEN MyLists[n] ELSE <<n>>
RECURSIVE Disps(_)
Disps(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in DOMAIN P THEN <<P[s[1]]>> ELSE <<>>) \o Disps(Tail(s))
Run(c, i, l, f, r, o, u, t) == [names |-> Named(i.stem \o i.ext, l), second |-> Disps(Named(i.stem \o i.ext, l)), cmd |-> c, stem |-> i.stem, ext |-> i.ext, list |-> l, interface |-> f, ref |-> r, out |-> o.out, place |-> o.place, usage |-> u, title |-> t]
Usages == {"", "choice", "option", "command", "number", "missing"}
Natural(n) == CASE Kind(Disk0, n) \in {"freq", "otherfreq", "cut"} -> {"crystal"} [] Kind(Disk0, n) = "qhaout" -> {"crystal-qha"} [] Kind(Disk0, n) = "phonopy" -> {"phonopy"}
                [] Kind(Disk0, n) = "tensor" -> {"crystal"} [] Kind(Disk0, n) = "vasptensor" -> {"vasp"} [] n \in {"lp", "lq.txt"} -> {"phonopy"} [] Kind(Disk0, n) = "list" -> {"crystal"} [] OTHER -> {}
\* a directed draw: usually the code the file comes from
Mine(c, n) == IF c = "soec" THEN Kind(Disk0, n) \in {"tensor", "vasptensor"} ELSE Kind(Disk0, n) \in {"freq", "qhaout", "phonopy", "list"}
Draw(c) ==
    LET l == IF c = "soec" THEN FALSE ELSE RandomElement({TRUE, FALSE})
        all == IF l THEN InLists ELSE Alone
        good == {x \in all : Mine(c, x.stem \o x.ext)}
        i == IF RandomElement(1..4) = 1 THEN RandomElement(all) ELSE RandomElement(good)
        nat == Natural(i.stem \o i.ext) \cap Faces(c)
        f == IF nat = {} \/ RandomElement(1..8) = 1 THEN RandomElement(Faces(c)) ELSE RandomElement(nat)
    IN  Run(c, i, l, f, IF c = "soec" \/ RandomElement(1..3) > 1 THEN 0 ELSE RandomElement({1, 2, 3, -9}), RandomElement(Outs),
            IF RandomElement(1..12) = 1 THEN RandomElement(Usages) ELSE "", RandomElement({"text", "text", "enter", "eof"}))
Options(c) == IF Random THEN {Draw(c)}
    ELSE {Run(c, i, FALSE, f, 0, o, u, t) : i \in Alone, f \in Faces(c), o \in Outs, u \in {"", "choice"}, t \in {"text", "enter", "eof"}}
         \cup (IF c = "soec" THEN {} ELSE {Run(c, i, TRUE, f, r, o, "", t) : i \in InLists, f \in Faces(c), r \in {0, 1, 2, 3, -9}, o \in Outs, t \in {"text", "eof"}})
Init == disk = Disk0 /\ runs = <<>>
Next == /\ Len(runs) < MaxRuns
        /\ \E c \in Generators : \E r \in Options(c) : runs' = Append(runs, r @@ [outcome |-> Outcome(disk, r)]) /\ disk' = After(disk, r)
Spec == Init /\ [][Next]_vars
Last == runs'[Len(runs')]
OnlyTarget == [][\A n \in DOMAIN disk \cup DOMAIN disk' : Kind(disk, n) # Kind(disk', n) => n = Target(Last) /\ Last.outcome = "written"]_vars
SourcesKept == [][Last.outcome = "written" => \A n \in Sources(Last) : Kind(disk', n) = Kind(disk, n)]_vars
NoLoss == [][\A n \in DOMAIN disk : n \in DOMAIN disk']_vars
\* the same run once more, at the end, is possible again unless what it is made from was replaced
Again == \A k \in 1..Len(runs) :
            (runs[k].outcome = "written" /\ \A n \in Sources(runs[k]) : Kind(disk, n) = Kind(Disk0, n))
            => Outcome(disk, runs[k]) = "written"
Emit == Len(runs) = MaxRuns => PrintT("VQSC " \o ToJson([runs |-> runs, disk |-> Disk0]))
View == <<disk, Len(runs), IF runs = <<>> THEN <<>> ELSE <<runs[Len(runs)]>>>>
=============================================================================
