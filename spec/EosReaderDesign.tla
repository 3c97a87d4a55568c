---------------------------- MODULE EosReaderDesign ----------------------------
(***************************************************************************)
(* A writer of input files: the sections in every admissible order (title  *)
(* before, between or absent; FORMAT before DATA, absent, or without       *)
(* pressure), with blank and comment lines anywhere.  What the machine of  *)
(* EosReader reads is what was meant.                                      *)
(***************************************************************************)
EXTENDS EosReader, TLC, Json
CONSTANTS MaxSkips, MaxRows
VARIABLES file, lay, todo, meant, skips
vars == <<file, lay, todo, meant, skips>>
Line(w, t, n) == [kind |-> "line", words |-> w, text |-> t, nums |-> n]
Skip == [kind |-> "skip", words |-> <<>>, text |-> "", nums |-> <<>>]
Titles == {"quartz", "data of quartz", "format of quartz", "job"}
Cols == {<<"p", "v">>, <<"v", "sigv", "p">>, <<"v", "sigmav">>, <<"c", "x", "p", "sigp", "siga", "a">>}
Orders == {<<"job", "format", "data">>, <<"format", "job", "data">>, <<"format", "data">>, <<"data">>, <<"job", "data">>,
           <<"job", "data", "format">>}
Init == /\ file = <<>> /\ lay = <<>> /\ skips = 0 /\ todo \in Orders
        /\ meant \in {[title |-> t, cols |-> c, rows |-> n] : t \in Titles, c \in Cols, n \in 1..MaxRows}
Put(x, tag) == file' = file \o x /\ lay' = Append(lay, tag)
AddSkip == skips < MaxSkips /\ todo # <<>> /\ skips' = skips + 1 /\ Put(<<Skip>>, "skip") /\ UNCHANGED <<todo, meant>>
Row(r) == Line([k \in 1..Len(meant.cols) |-> "#"], "", [k \in 1..Len(meant.cols) |-> 10 * r + k])
Write == /\ todo # <<>>
         /\ UNCHANGED <<meant, skips>>
         /\ todo' = Tail(todo)
         /\ CASE Head(todo) = "job" -> Put(<<Line(<<"job">>, "JOB", <<>>)>>, "job")
              [] Head(todo) = "format" -> Put(<<Line(<<"format">>, "FORMAT", <<>>)>>, "format")
              [] Head(todo) = "data" -> Put(<<Line(<<"data">>, "DATA", <<>>)>>, "data")
              [] Head(todo) = "title" -> Put(<<Line(<<meant.title>>, meant.title, <<>>)>>, "title")
              [] Head(todo) = "cols" -> Put(<<Line(meant.cols, "", <<>>)>>, "cols")
              [] OTHER -> Put(<<Row(Len(SelectSeq(lay, LAMBDA t : t = "row")) + 1)>>, "row")
\* sections are followed by their content
Pending == Len(lay) > 0 /\ (\/ lay[Len(lay)] = "job" /\ Head(todo \o <<"end">>) # "title"
                            \/ lay[Len(lay)] = "format" /\ Head(todo \o <<"end">>) # "cols")
Content == /\ Pending
           /\ todo' = <<IF lay[Len(lay)] = "job" THEN "title" ELSE "cols">> \o todo
           /\ UNCHANGED <<file, lay, meant, skips>>
RowsLeft == "data" \in {lay[k] : k \in 1..Len(lay)} /\ todo = <<>>
            /\ Len(SelectSeq(lay, LAMBDA t : t = "row")) < meant.rows
MoreRows == RowsLeft /\ ~Pending /\ todo' = <<"row">> /\ UNCHANGED <<file, lay, meant, skips>>
Next == Content \/ (~Pending /\ (Write \/ AddSkip)) \/ MoreRows
Spec == Init /\ [][Next]_vars
Finished == todo = <<>> /\ ~Pending /\ ~RowsLeft
Has(t) == t \in {lay[k] : k \in 1..Len(lay)}
Faithful == Finished =>
    LET s == Read(file)
        early == ~Has("format") \/ (Has("data") /\ \E j, k \in 1..Len(lay) : lay[j] = "data" /\ lay[k] = "format" /\ j < k)
        nop == ~\E k \in 1..Len(meant.cols) : Canon(meant.cols[k]) = "p"
    IN  IF early THEN s.error = "format"
        ELSE IF nop THEN s.error = "pressure"
        ELSE /\ s.error = "" /\ s.job = (IF Has("title") THEN meant.title ELSE "Unknown")
             /\ Declared(s) = {Canon(meant.cols[k]) : k \in 1..Len(meant.cols)} \ {""}
             /\ \A k \in {j \in 1..Len(meant.cols) : Canon(meant.cols[j]) # ""} : Column(s, Canon(meant.cols[k])) = [r \in 1..meant.rows |-> 10 * r + k]
Emit == Finished => PrintT("VQSC " \o ToJson([lay |-> lay]))
=============================================================================
