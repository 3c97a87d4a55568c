----------------------------- MODULE PhononOutput -----------------------------
(***************************************************************************)
(* Outputs of lattice dynamics codes, as sequences of printed sections,    *)
(* and what an input file generated from them must hold.                   *)
(*                                                                         *)
(* Sections of a CRYSTAL frequency run (field s is the name):              *)
(*  unit       natom                   the cell before any supercell       *)
(*  expansion  m                       rows of the expansion matrix        *)
(*  scelphono, hess  n, q, shrink      q-points: q[k] = [c, w] in units of *)
(*                                     1/shrink (<<>>: cut)                *)
(*  wf         natom, lattice          the cell of the wave function       *)
(*  central    e                       energy of that cell                 *)
(*  eigv                               frequencies were calculated         *)
(*  modes      rows                    [a, b, f]: modes a..b have f        *)
(* of a CRYSTAL QHA run:                                                   *)
(*  qha, restart, expansion,                                               *)
(*  cell       natom, lattice, tag     tag: the printed volume it has      *)
(*  sorted     rows                    [tag, e] by increasing volume       *)
(*  freq       vals                    one mode at every sorted volume     *)
(* of phonopy: one section                                                 *)
(*  phonopy    natom, lattice, disp, m, energy, q (field f: frequencies)   *)
(* A section cut short holds less than it says.                            *)
(*                                                                         *)
(* A reading is [ok |-> FALSE] or the data; volumes stay the lattice they  *)
(* are computed from with the number of cells k in it, energies likewise;  *)
(* given: the q-points are printed in the output.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Bad == [ok |-> FALSE]
At(doc, name) == SelectSeq([k \in 1..Len(doc) |-> k], LAMBDA k : doc[k].s = name)
Is(doc, name) == At(doc, name) # <<>>
First(doc, name) == doc[At(doc, name)[1]]
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
           - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
           + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Unity == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
GammaMesh == [n |-> 1, q |-> <<[c |-> <<0, 0, 0>>, w |-> 1]>>, shrink |-> <<1, 1, 1>>]

Modes(rows, n) == [m \in 1..n |-> rows[CHOOSE r \in 1..Len(rows) : rows[r].a <= m /\ m <= rows[r].b].f]
Whole(rows, n) == Len(rows) > 0 /\ rows[Len(rows)].b = n
ReadFrequencies(doc) ==
    LET super == Is(doc, "expansion")
        disp == super /\ Is(doc, "scelphono")
        dim == IF super THEN First(doc, "expansion").m ELSE Unity
        mesh == IF ~disp THEN GammaMesh ELSE IF Is(doc, "hess") THEN First(doc, "hess") ELSE First(doc, "scelphono")
        tables == At(doc, "modes")
    IN  IF \/ ~Is(doc, "eigv") \/ ~Is(doc, "wf") \/ ~Is(doc, "central")
           \/ super /\ (~Is(doc, "unit") \/ Len(dim) < 3)
           \/ Len(First(doc, "wf").lattice) < 3
           \/ Len(mesh.q) # mesh.n \/ mesh.shrink = <<>>
           \/ Len(tables) < mesh.n THEN Bad
        ELSE LET natom == IF disp THEN First(doc, "unit").natom ELSE First(doc, "wf").natom
                 k == IF disp THEN Det3(dim) ELSE 1
             IN  IF \E i \in 1..mesh.n : ~Whole(doc[tables[i]].rows, 3 * natom) THEN Bad
                 ELSE [ok |-> TRUE, natom |-> natom, dim |-> dim, nq |-> mesh.n, given |-> disp, shrink |-> mesh.shrink, q |-> mesh.q,
                       cells |-> <<[lattice |-> First(doc, "wf").lattice, k |-> k]>>,
                       energies |-> <<[e |-> First(doc, "central").e, k |-> k]>>,
                       freq |-> [i \in 1..mesh.n |-> LET f == Modes(doc[tables[i]].rows, 3 * natom)
                                                     IN  [m \in 1..(3 * natom) |-> <<f[m]>>]]]

ReadQha(doc) ==
    LET super == Is(doc, "expansion")
        dim == IF super THEN First(doc, "expansion").m ELSE Unity
        cells == At(doc, "cell")
        tables == At(doc, "freq")
    IN  IF \/ ~Is(doc, "qha") \/ Is(doc, "restart") \/ ~Is(doc, "sorted") \/ Len(dim) < 3 THEN Bad
        ELSE LET rows == First(doc, "sorted").rows
                 n == Len(rows)
                 k == Det3(dim)
                 With(t) == SelectSeq(cells, LAMBDA i : doc[i].tag = t)
             IN  IF \/ n < 4 \/ Len(cells) # n
                    \/ \E i \in 1..n : With(rows[i].tag) = <<>> \/ Len(doc[cells[i]].lattice) < 3 THEN Bad
                 ELSE LET natom == doc[cells[1]].natom \div k
                          nf == 3 * natom
                      IN  IF Len(tables) # nf * k \/ \E i \in 1..Len(tables) : Len(doc[tables[i]].vals) # n THEN Bad
                          ELSE [ok |-> TRUE, natom |-> natom, dim |-> dim, nq |-> k, given |-> FALSE, shrink |-> <<1, 1, 1>>,
                                q |-> [i \in 1..k |-> [c |-> <<0, 0, 0>>, w |-> 1]],
                                cells |-> [i \in 1..n |-> [lattice |-> doc[With(rows[i].tag)[1]].lattice, k |-> k]],
                                energies |-> [i \in 1..n |-> [e |-> rows[i].e, k |-> k]],
                                freq |-> [i \in 1..k |-> [m \in 1..nf |-> doc[tables[(i - 1) * nf + m]].vals]]]

ReadPhonopy(doc) ==
    IF ~Is(doc, "phonopy") THEN Bad
    ELSE LET p == First(doc, "phonopy") IN
         IF ~p.disp \/ Len(p.lattice) < 3 \/ Len(p.m) < 3 \/ Len(p.q) # p.n
            \/ \E i \in 1..p.n : Len(p.q[i].f) # 3 * p.natom THEN Bad
         ELSE [ok |-> TRUE, natom |-> p.natom, dim |-> p.m, nq |-> p.n, given |-> TRUE, shrink |-> <<1, 1, 1>>, q |-> p.q,
               cells |-> <<[lattice |-> p.lattice, k |-> 1]>>, energies |-> <<[e |-> p.energy, k |-> 1]>>,
               freq |-> [i \in 1..p.n |-> [m \in 1..(3 * p.natom) |-> <<p.q[i].f[m]>>]]]

ReadFile(interface, doc) ==
    CASE interface = "crystal" -> ReadFrequencies(doc)
      [] interface = "crystal-qha" -> ReadQha(doc)
      [] interface = "phonopy" -> ReadPhonopy(doc)
Same(a, b) == a.natom = b.natom /\ a.dim = b.dim /\ a.nq = b.nq
(* docs: the listed outputs in order (<<>>: nothing readable), ref: index  *)
(* of the reference, from 0                                                *)
Generate(interface, docs, ref) ==
    LET n == Len(docs)
        r == [i \in 1..n |-> ReadFile(interface, docs[i])]
    IN  IF n = 0 \/ ref < 0 \/ ref >= n \/ \E i \in 1..n : ~r[i].ok THEN Bad
        ELSE LET f == r[ref + 1] IN
             IF \E i \in 1..n : ~Same(r[i], f) THEN Bad
             ELSE IF interface = "crystal-qha" THEN f
             ELSE [f EXCEPT !.cells = [i \in 1..n |-> r[i].cells[1]],
                            !.energies = [i \in 1..n |-> r[i].energies[1]],
                            !.freq = [q \in 1..f.nq |-> [m \in 1..(3 * f.natom) |-> [i \in 1..n |-> r[i].freq[q][m][1]]]]]
=============================================================================
