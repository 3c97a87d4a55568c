--------------------------- MODULE PhononReaderTrace ---------------------------
(***************************************************************************)
(* R03: what a reader of a phonon input exposes, also after others.        *)
(***************************************************************************)
EXTENDS PhononReader, Real, Verdict
VARIABLE l
Set(q) == {q[j] : j \in DOMAIN q}
Judge(i) ==
    LET e == Trace[i]
        d == [e.doc EXCEPT !.keys = Set(@)]
    IN  IF Accept(d)
        THEN /\ Say(i, "accepted", e.completed /\ e.error = "" /\ e.calc = "")
             /\ e.completed =>
                  LET r == TLCEval(Expose(d))
                      o == e.seen IN
                  /\ Say(i, "title", o.title = r.title)
                  /\ Say(i, "counts", o.natoms = r.natoms /\ o.qpoints = r.qpoints /\ o.size = r.size /\ o.nvol = r.nvol)
                  /\ Say(i, "volumes", o.volume = r.volume)
                  /\ Say(i, "energies", o.energy = r.energy)
                  /\ Say(i, "weights", Len(o.weights) = r.qpoints /\ \A q \in 1..r.qpoints : o.weights[q] = I(r.weights[q]))
                  /\ Say(i, "frequencies", /\ \A q \in DOMAIN r.freq : o.freq[q] = r.freq[q]
                                           /\ Len(o.freq) = r.qpoints)
        ELSE Say(i, "rejected", ~e.completed /\ e.error # "" /\ e.calc # "")
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
