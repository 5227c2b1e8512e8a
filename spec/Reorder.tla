------------------------------- MODULE Reorder -------------------------------
(* Reordering of modes along a path of q-points.

   A case gives q-points (integers over m) and, at each, an orthonormal basis
   of n eigenvectors as Gaussian integers over a common denominator, so that
   overlaps are compared exactly.  One step of the path assigns the modes of a
   q-point to those of the previous one: pairs are matched one at a time, each
   time one with the largest overlap of what is left (any, if there are
   several).  Where the path has just changed direction, or next to gamma
   points if those are not to be reordered, indices are kept. *)
EXTENDS Num, Json, IOUtils

CONSTANT ZeroUsed     \* TRUE: the defect that was repaired (see Fill)
Cases == JsonDeserialize(IOEnv.VF_IN)

VARIABLES c, i, asg, ov     \* ov: overlaps squared (does not change)
vars == <<c, i, asg, ov>>
C == Cases[c]
NM == Len(C.e[1])

Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Dlt(k) == [x \in 1..3 |-> C.qs[k + 1][x] - C.qs[k][x]]
(* the path turns at point k: steps k-1 -> k and k -> k+1 are not parallel *)
Turns(k) == LET a == Dlt(k - 1) b == Dlt(k)
            IN Dot3(a, b)*Dot3(a, b) # Dot3(a, a)*Dot3(b, b)
Gamma(k) == \A x \in 1..3 : (C.qs[k][x] % C.m) = 0
(* step to point k reorders *)
Reorders(k) == /\ k = 2 \/ ~Turns(k - 1)
               /\ C.rg \/ (~Gamma(k) /\ ~Gamma(k - 1))

RECURSIVE OvRe(_, _, _), OvIm(_, _, _)
OvRe(u, v, n) == IF n = 0 THEN 0
                 ELSE u[n][1]*v[n][1] + u[n][2]*v[n][2] + OvRe(u, v, n - 1)
OvIm(u, v, n) == IF n = 0 THEN 0
                 ELSE u[n][1]*v[n][2] - u[n][2]*v[n][1] + OvIm(u, v, n - 1)
OvOf(k) == [p \in 1..NM |-> [q \in 1..NM |->
         LET u == C.e[k - 1][p] v == C.e[k][q]
             re == OvRe(u, v, NM) im == OvIm(u, v, NM)
         IN re*re + im*im]]

(* asg: previous mode -> mode of this q-point (0: not assigned yet) *)
Init == /\ c \in 1..Len(Cases) /\ i \in 2..Len(Cases[c].qs)
        /\ asg = [p \in 1..Len(Cases[c].e[1]) |->
                    IF Reorders(i) THEN 0 ELSE p]
        /\ ov = OvOf(i)
FreeP == {p \in 1..NM : asg[p] = 0}
FreeM == {q \in 1..NM : \A p \in 1..NM : asg[p] # q}
Match == /\ FreeP # {}
         /\ LET o == ov
                best == CHOOSE b \in {o[p][q] : p \in FreeP, q \in FreeM} :
                          \A p \in FreeP : \A q \in FreeM : o[p][q] <= b
            IN \E p \in FreeP : \E q \in FreeM :
                 /\ o[p][q] = best
                 /\ ~(ZeroUsed /\ best = 0)
                 /\ asg' = [asg EXCEPT ![p] = q]
         /\ UNCHANGED <<c, i, ov>>
(* the repaired defect: once only zero overlaps are left, the first pair was
   taken again, whether it was free or not *)
Fill == /\ ZeroUsed /\ FreeP # {}
        /\ \A p \in FreeP : \A q \in FreeM : ov[p][q] = 0
        /\ asg' = [asg EXCEPT ![CHOOSE p \in FreeP : TRUE] = 1]
        /\ UNCHANGED <<c, i, ov>>
Next == Match \/ Fill
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == FreeP = {}
(* no mode is lost or used twice *)
Permutes == Done => {asg[p] : p \in 1..NM} = 1..NM
OneToOne == \A p, q \in 1..NM : p # q /\ asg[p] # 0 => asg[p] # asg[q]
(* a mode that is mostly (more than half) one of the previous ones follows it *)
RECURSIVE NormSq(_, _)
NormSq(u, n) == IF n = 0 THEN 0
                ELSE u[n][1]*u[n][1] + u[n][2]*u[n][2] + NormSq(u, n - 1)
Follows == Done /\ Reorders(i) =>
   \A p, q \in 1..NM :
      ov[p][q] > (NormSq(C.e[i - 1][p], NM)*NormSq(C.e[i][q], NM)) \div 2
         => asg[p] = q
Orthonormal == \A k \in {i - 1, i} : \A p, q \in 1..NM :
   LET u == C.e[k][p] v == C.e[k][q] IN
   /\ p # q => OvRe(u, v, NM) = 0 /\ OvIm(u, v, NM) = 0
   /\ NormSq(u, NM) = NormSq(v, NM)
Emit == Done => PrintT("@@" \o ToJson([id |-> C.id, i |-> i, asg |-> asg,
                                      re |-> Reorders(i)]))
=============================================================================
