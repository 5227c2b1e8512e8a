-------------------------------- MODULE Show ---------------------------------
(* Showing a sampling scheme: points are asked for by number.  Schemes that
   take any number get that number; those on a grid get the smallest grid of
   their shape that holds as many, found here by adding a row (and the
   columns that belong to it) at a time. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRows
VARIABLES req, rows, phase
vars == <<req, rows, phase>>

Rnd(S) == RandomElement(S)
Free == {"golden-square", "recurrence-square", "golden-sphere", "spherical-polar-improved",
         "random-sphere", "recurrence-cube"}
Square == {"regular-square"}
Double == {"spherical-polar-grid", "sphere-from-square-grid"}
Names == Free \cup Square \cup Double
(* schemes whose points can be moved at random *)
Movable == {"golden-square", "regular-square", "golden-sphere", "spherical-polar-grid",
            "sphere-from-square-grid", "spherical-polar-improved"}
Flat == {"golden-square", "regular-square", "recurrence-square"}
Cols == rows*(IF req.name \in Double THEN 2 ELSE 1)
Size == IF req.name \in Free THEN req.npts ELSE rows*Cols
-----------------------------------------------------------------------------
Init == req = <<>> /\ rows = 1 /\ phase = "new"
New == /\ phase = "new" /\ phase' = "size" /\ UNCHANGED rows
       /\ \E k \in {Rnd(1..MaxRows)} : \E d \in {Rnd(-1..1)} : \E w \in {Rnd(1..3)} :
           \E n \in {IF w = 3 THEN Rnd(1..(MaxRows*MaxRows)) ELSE IF w*k*k + d < 1 THEN 1 ELSE w*k*k + d} : \E s \in {Rnd(Names)} :
           req' = [npts |-> n, name |-> s,
                  jitter |-> Rnd({TRUE, FALSE}), save |-> Rnd({TRUE, FALSE})]
(* rings around the poles need at least six points *)
TooFew == /\ phase = "size" /\ req.name = "spherical-polar-improved" /\ req.npts < 6
          /\ phase' = "error" /\ UNCHANGED <<req, rows>>
Grow == /\ phase = "size" /\ Size < req.npts /\ rows' = rows + 1 /\ UNCHANGED <<req, phase>>
Draw == /\ phase = "size" /\ Size >= req.npts /\ ~ENABLED TooFew /\ phase' = "done" /\ UNCHANGED <<req, rows>>
Next == New \/ TooFew \/ Grow \/ Draw
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"
Enough == Done => Size >= req.npts
Smallest == Done /\ req.name \notin Free /\ rows > 1 =>
              (rows - 1)*(rows - 1)*(IF req.name \in Double THEN 2 ELSE 1) < req.npts
(* a grid needs no more than a row and its columns beyond what was asked for *)
Exact == Done /\ req.name \in Free => Size = req.npts
Emit == phase \in {"done", "error"} => PrintT("@@" \o ToJson([req |-> req, rows |-> rows, cols |-> Cols, size |-> Size, err |-> phase = "error",
                  told |-> Size # req.npts, flat |-> req.name \in Flat,
                  moved |-> req.jitter /\ req.name \in Movable]))
=============================================================================
