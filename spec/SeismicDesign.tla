---------------------------- MODULE SeismicDesign ----------------------------
(***************************************************************************)
(* History of a set of wave analyses: the direction of propagation is set  *)
(* (in either kind of coordinates) or cleared, and derived quantities are  *)
(* queried.  Quantities are computed when first needed and remembered in   *)
(* cells; a cell must never outlive the direction it was computed for.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objects, Directions, Depth
VARIABLES dir, cell, hist
vars == <<dir, cell, hist>>
None == 0
Cells == {"M", "gradM", "eig", "group"}
\* the cells each query fills when they are empty
Fills == [ q |-> {}, angles |-> {}, christoffel |-> {}, isotropic |-> {},
           grad_M |-> {"gradM"}, eigenval |-> {"eig"}, eigenvec |-> {"eig"},
           phase_velocity |-> {"eig"}, rel_phase_velocity |-> {"eig"},
           hessian_eigenval |-> {"eig", "gradM"},
           group_velocity |-> {"eig", "gradM", "group"}, grad_eigenval |-> {"eig", "gradM", "group"},
           group_abs |-> {"eig", "gradM", "group"}, rel_group_velocity |-> {"eig", "gradM", "group"},
           group_dir |-> {"eig", "gradM", "group"}, group_angles |-> {"eig", "gradM", "group"},
           powerflow_angle |-> {"eig", "gradM", "group"}, enhancement |-> {"eig", "gradM", "group"},
           solve |-> {"eig"}, solve_group |-> {"eig", "gradM", "group"} ]
Queries == DOMAIN Fills
Init == /\ dir = [o \in Objects |-> None]
        /\ cell = [o \in Objects |-> [c \in Cells |-> None]]
        /\ hist = <<>>
Empty == [c \in Cells |-> None]
Step(o, what, d) == hist' = Append(hist, [obj |-> o, op |-> what, dir |-> d])
Turn(o, d, how) == /\ dir' = [dir EXCEPT ![o] = d]
                   /\ cell' = [cell EXCEPT ![o] = [Empty EXCEPT !["M"] = d]]
                   /\ Step(o, how, d)
Clear(o) == /\ dir' = [dir EXCEPT ![o] = None]
            /\ cell' = [cell EXCEPT ![o] = Empty]
            /\ Step(o, "clear", None)
Query(o, x) == /\ UNCHANGED dir
               /\ cell' = IF dir[o] = None THEN cell
                          ELSE [cell EXCEPT ![o] = [c \in Cells |-> IF c \in Fills[x] /\ cell[o][c] = None THEN dir[o] ELSE cell[o][c]]]
               /\ Step(o, x, None)
Next == /\ Len(hist) < Depth
        /\ \E o \in Objects :
             \/ \E d \in Directions : Turn(o, d, "spherical") \/ Turn(o, d, "cartesian")
             \/ Clear(o)
             \/ \E x \in Queries : Query(o, x)
Spec == Init /\ [][Next]_vars
\* no stale cell; a query is answered from cells of the current direction
Fresh == \A o \in Objects, c \in Cells : cell[o][c] \in {None, dir[o]}
Answered == hist = <<>> \/ LET s == hist[Len(hist)] IN
              (s.op \in Queries /\ dir[s.obj] # None) => \A c \in Fills[s.op] : cell[s.obj][c] = dir[s.obj]
\* distinguishes orders of operations only up to depth for the scenarios; the cells are a function of few facts
Last == hist[Len(hist)].op
Emit == (Len(hist) = Depth /\ Last \in Queries) => PrintT("VQSC " \o ToJson(hist))
Turns == {"spherical", "cartesian"}
\* scenarios that alternate a change of direction and a query
Alternating == \A k \in 1..Len(hist) : (k % 2 = 1) <=> hist[k].op \in Turns
EmitPairs == (Len(hist) = Depth /\ Alternating) => PrintT("VQSC " \o ToJson(hist))
View == <<dir, cell, Len(hist)>>
=============================================================================
