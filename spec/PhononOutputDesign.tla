--------------------------- MODULE PhononOutputDesign ---------------------------
(***************************************************************************)
(* A generator reading listed outputs one after the other: it stops at the *)
(* first that is missing or incomplete, compares each with the reference   *)
(* and only then writes.  It writes exactly when the declarative reading   *)
(* Generate does, and then the volumes are in the order of the list.       *)
(***************************************************************************)
EXTENDS PhononOutput, TLC, Json
CONSTANTS MaxFiles
VARIABLES interface, files, ref, read, result
vars == <<interface, files, ref, read, result>>
Kinds == [x \in {"crystal", "crystal-qha", "phonopy"} |->
            CASE x = "crystal" -> {"gamma", "super", "disp", "hess"} [] x = "crystal-qha" -> {"qha", "qhasuper"} [] OTHER -> {"phonopy"}]
\* the printed sections of each kind, for a small crystal; v distinguishes the volumes
Exp2 == [s |-> "expansion", m |-> <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>]
Rows(n, v, q) == [r \in 1..n |-> [a |-> 3 * r - 2, b |-> 3 * r, f |-> <<v, q, r>>]]
Lat(v) == <<<<v>>, <<v>>, <<v>>>>
Mesh(s, n) == [s |-> s, n |-> n, q |-> [i \in 1..n |-> [c |-> <<i, 0, 0>>, w |-> i]], shrink |-> <<2, 2, 2>>]
Cells == <<2, 4, 1, 3>>                                  \* order in which the volumes are optimised
Sections(kind, v) ==
    CASE kind = "gamma" -> <<[s |-> "wf", natom |-> 2, lattice |-> Lat(v)], [s |-> "central", e |-> v], [s |-> "eigv"], [s |-> "modes", rows |-> Rows(2, v, 1)]>>
      [] kind = "super" -> <<[s |-> "unit", natom |-> 1], Exp2, [s |-> "wf", natom |-> 2, lattice |-> Lat(v)], [s |-> "central", e |-> v], [s |-> "eigv"],
                             [s |-> "modes", rows |-> Rows(2, v, 1)]>>
      [] kind = "disp" -> <<[s |-> "unit", natom |-> 2], Exp2, Mesh("scelphono", 2), [s |-> "wf", natom |-> 4, lattice |-> Lat(v)], [s |-> "central", e |-> v],
                            [s |-> "eigv"], [s |-> "modes", rows |-> Rows(2, v, 1)], [s |-> "modes", rows |-> Rows(2, v, 2)]>>
      [] kind = "hess" -> <<[s |-> "unit", natom |-> 2], Exp2, Mesh("scelphono", 2), [s |-> "wf", natom |-> 4, lattice |-> Lat(v)], [s |-> "central", e |-> v],
                            Mesh("hess", 3), [s |-> "eigv"], [s |-> "modes", rows |-> Rows(2, v, 1)], [s |-> "modes", rows |-> Rows(2, v, 2)],
                            [s |-> "modes", rows |-> Rows(2, v, 3)]>>
      [] kind \in {"qha", "qhasuper"} ->
            LET natom == IF kind = "qha" THEN 1 ELSE 2 IN
            <<[s |-> "qha"]>> \o (IF kind = "qha" THEN <<>> ELSE <<Exp2>>)
            \o [i \in 1..4 |-> [s |-> "cell", natom |-> natom, lattice |-> Lat(Cells[i]), tag |-> Cells[i]]]
            \o <<[s |-> "sorted", rows |-> [i \in 1..4 |-> [tag |-> i, e |-> 10 + i]]]>>
            \o [m \in 1..(3 * natom) |-> [s |-> "freq", vals |-> [i \in 1..4 |-> <<m, i>>]]]
      [] kind = "phonopy" -> <<[s |-> "phonopy", natom |-> 2, lattice |-> Lat(v), disp |-> TRUE, m |-> Unity, energy |-> v, n |-> 2,
                                q |-> [i \in 1..2 |-> [c |-> <<i, 0, 0>>, w |-> i, f |-> [m \in 1..6 |-> <<v, i, m>>]]]]>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* a section of which the last printed line is lost
Part(b) == CASE b.s = "wf" \/ b.s = "cell" -> [b EXCEPT !.lattice = Front(@)]
             [] b.s = "expansion" -> [b EXCEPT !.m = Front(@)]
             [] b.s \in {"scelphono", "hess"} -> [b EXCEPT !.shrink = <<>>]
             [] b.s = "modes" -> [b EXCEPT !.rows = Front(@)]
             [] b.s = "freq" -> [b EXCEPT !.vals = Front(@)]
             [] OTHER -> b
Parts == {"wf", "cell", "expansion", "scelphono", "hess", "modes", "freq"}
N(kind) == Len(Sections(kind, 1))
\* what can happen to a file: fate, number of sections kept, last of them cut
Whole1(kind) == [kind |-> kind, fate |-> "whole", keep |-> N(kind), cut |-> FALSE]
Broken(kind) ==
    {[kind |-> kind, fate |-> f, keep |-> 0, cut |-> FALSE] : f \in {"missing", "foreign", "binary"}}
    \cup (IF kind = "phonopy" THEN {[kind |-> kind, fate |-> f, keep |-> 1, cut |-> FALSE] : f \in {"nodisp", "syntax", "dispsyntax", "nokey", "fewq", "fewbands", "xmlsyntax"}}
          ELSE {x \in [kind : {kind}, fate : {"killed"}, keep : 1..N(kind), cut : BOOLEAN] :
                  /\ x.cut => Sections(kind, 1)[x.keep].s \in Parts
                  /\ (~x.cut) => x.keep < N(kind)})
    \cup (IF kind \in {"qha", "qhasuper"} THEN {[kind |-> kind, fate |-> f, keep |-> N(kind), cut |-> FALSE] : f \in {"few", "restart"}} ELSE {})
Other(kind) == [kind |-> kind, fate |-> "other", keep |-> N(kind), cut |-> FALSE]     \* another crystal
Doc(x, v) ==
    LET s == Sections(x.kind, v) IN
    CASE x.fate = "whole" -> s
      [] x.fate \in {"missing", "foreign", "binary", "syntax", "dispsyntax", "nokey", "xmlsyntax"} -> <<>>
      [] x.fate = "nodisp" -> <<[s[1] EXCEPT !.disp = FALSE]>>
      [] x.fate = "fewq" -> <<[s[1] EXCEPT !.q = Front(@)]>>
      [] x.fate = "fewbands" -> <<[s[1] EXCEPT !.q[1].f = Front(@)]>>
      [] x.fate = "killed" -> LET k == SubSeq(s, 1, x.keep) IN IF x.cut THEN Append(Front(k), Part(k[Len(k)])) ELSE k
      [] x.fate = "few" -> SelectSeq([i \in 1..Len(s) |-> IF s[i].s = "sorted" THEN [s[i] EXCEPT !.rows = Front(@)] ELSE s[i]],
                                     LAMBDA b : ~(b.s = "cell" /\ b.tag = 4))
      [] x.fate = "restart" -> <<s[1], [s |-> "restart"]>> \o SubSeq(s, 2, Len(s))
      [] x.fate = "other" -> CASE x.kind = "gamma" -> <<[s[1] EXCEPT !.natom = 1], s[2], s[3], [s[4] EXCEPT !.rows = SubSeq(@, 1, 1)]>>
                               [] x.kind = "super" -> <<s[1], s[2], [s[3] EXCEPT !.natom = 1], s[4], s[5], [s[6] EXCEPT !.rows = SubSeq(@, 1, 1)]>>
                               [] x.kind \in {"disp", "hess"} -> <<s[1], [s[2] EXCEPT !.m[2][2] = 2]>> \o SubSeq(s, 3, Len(s))
                               [] x.kind = "phonopy" -> <<[s[1] EXCEPT !.n = 1, !.q = SubSeq(@, 1, 1)]>>
Docs == [i \in 1..Len(files) |-> Doc(files[i], i)]
Init == /\ interface \in DOMAIN Kinds
        /\ files \in UNION {LET W == [i \in 1..n |-> Whole1(kind)]
                            IN  {W} \cup {[W EXCEPT ![p] = b] : p \in 1..n, b \in Broken(kind) \cup (IF n > 1 /\ interface # "crystal-qha" THEN {Other(kind)} ELSE {})}
                            : kind \in Kinds[interface], n \in 1..(IF interface = "crystal-qha" THEN 1 ELSE MaxFiles)}
        /\ ref \in (-Len(files) - 1)..(Len(files) + 1)
        /\ (ref < 0 => ref < -Len(files))                                    \* negative indices that could be valid are not considered
        /\ (interface = "crystal-qha" => ref = 0)
        /\ read = <<>> /\ result = "none"
Open == /\ result = "none" /\ Len(read) < Len(files)
        /\ LET r == ReadFile(interface, Docs[Len(read) + 1])
           IN  IF r.ok THEN read' = Append(read, r) /\ result' = result ELSE read' = read /\ result' = "error"
        /\ UNCHANGED <<interface, files, ref>>
Write == /\ result = "none" /\ Len(read) = Len(files)
         /\ result' = IF ref \in 0..(Len(read) - 1) /\ \A i \in 1..Len(read) : Same(read[i], read[ref + 1]) THEN "file" ELSE "error"
         /\ UNCHANGED <<interface, files, ref, read>>
Next == Open \/ Write
Spec == Init /\ [][Next]_vars
Usable == ref \in 0..(Len(files) - 1) /\ \A i \in 1..Len(files) : files[i].fate = "whole"
Meaning ==
    result # "none" =>
        LET g == Generate(interface, Docs, ref) IN
        /\ g.ok = (result = "file") /\ g.ok = Usable
        /\ g.ok => /\ Len(g.cells) = Len(g.energies)
                   /\ \A i \in 1..Len(g.cells) : g.cells[i].lattice = Lat(i) /\ g.energies[i].k = g.cells[i].k
                   /\ Len(g.q) = g.nq /\ Len(g.freq) = g.nq
                   /\ \A k \in 1..g.nq : Len(g.freq[k]) = 3 * g.natom /\ \A m \in 1..(3 * g.natom) : Len(g.freq[k][m]) = Len(g.cells)
                   /\ interface = "crystal" => \A k \in 1..g.nq, i \in 1..Len(files) : \A m \in 1..(3 * g.natom) :
                         g.freq[k][m][i] = <<i, k, (m + 2) \div 3>>
                   /\ interface = "crystal-qha" => \A k \in 1..g.nq, i \in 1..4 : \A m \in 1..3 :
                         g.freq[k][m][i] = <<3 * (k - 1) + m, i>> /\ g.energies[i].e = 10 + i
Emit == result # "none" => PrintT("VQSC " \o ToJson([interface |-> interface, files |-> files, ref |-> ref, ok |-> result = "file"]))
=============================================================================
