--------------------------------- MODULE Asr ---------------------------------
(* Acoustic sum rule correction of a supercell force-constants matrix.

   fc[l][3i+a][3j+b] couples atom i of the home cell to atom j of cell l.  One
   action per cell accumulates the force on atom i for a rigid translation,
        Lam_i = sum over l, j of fc[l][i][j]       (a 3x3 matrix per atom).
   If Lam_i is the same symmetric matrix Lam for every atom (translation
   covariant breaking), rigid translations are eigenvectors of the supercell
   matrix, so projecting out the acoustic modes subtracts Lam/N from every
   pair block, N being the number of atoms in the supercell (realspace) or in
   the unit cell, at gamma (reciprocal).  The corrected force constants are
   handed on, times N, for interpolation (module Interp).

   If every atom is bound to its own site only, no mode carries more than
   half of the total mass for more than two atoms: `found` is FALSE and the
   data must be left alone. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, pc, l, lam, out
vars == <<c, pc, l, lam, out>>

C == Cases[c]
NA == Len(C.r)
NB == 3 * NA
NC == Len(C.orig)
NT == NA * NC
Ix(i, a) == 3 * (i - 1) + a
AtomOf(x) == ((x - 1) \div 3) + 1
AxisOf(x) == ((x - 1) % 3) + 1

Init == /\ c \in 1..Len(Cases)
        /\ pc = "sum" /\ l = 1 /\ out = <<>>
        /\ lam = [i \in 1..NA |-> [a \in 1..3 |-> [b \in 1..3 |-> 0]]]

Sum == /\ pc = "sum"
       /\ lam' = [i \in 1..NA |-> [a \in 1..3 |-> [b \in 1..3 |->
              lam[i][a][b] + LET f(j) == C.fc[l][Ix(i, a)][Ix(j, b)]
                             IN SumInt(f, 1, NA)]]]
       /\ l' = l + 1
       /\ pc' = IF l = NC THEN "project" ELSE "sum"
       /\ UNCHANGED <<c, out>>

Covariant == /\ \A i \in 1..NA : lam[i] = lam[1]
             /\ \A a, b \in 1..3 : lam[1][a][b] = lam[1][b][a]
Onsite == \A k \in 1..NC : \A x, y \in 1..NB :
            (k # 1 \/ AtomOf(x) # AtomOf(y)) => C.fc[k][x][y] = 0

Project == /\ pc = "project"
           /\ out' = IF ~Covariant THEN <<>> ELSE
                [k \in 1..NC |-> [x \in 1..NB |-> [y \in 1..NB |->
                   NT * C.fc[k][x][y] - lam[1][AxisOf(x)][AxisOf(y)]]]]
           /\ pc' = "done"
           /\ UNCHANGED <<c, l, lam>>

Next == Sum \/ Project
Spec == Init /\ [][Next]_vars

Found == Covariant
NotFound == ~Covariant /\ Onsite /\ NA > 2
-----------------------------------------------------------------------------
Done == pc = "done"
(* rigid translations cost nothing after the correction *)
SumRule == Done /\ Found => \A i \in 1..NA : \A a, b \in 1..3 :
    LET f(k) == LET g(j) == out[k][Ix(i, a)][Ix(j, b)] IN SumInt(g, 1, NA)
    IN SumInt(f, 1, NC) = 0
(* already obeying data is left unchanged *)
Identity == Done /\ Found /\ (\A a, b \in 1..3 : lam[1][a][b] = 0) =>
    \A k \in 1..NC : \A x, y \in 1..NB : out[k][x][y] = NT * C.fc[k][x][y]
(* the projection only touches what translations can see: differences between
   blocks are kept *)
OnlyTranslations == Done /\ Found => \A k \in 1..NC : \A x, y \in 1..NB :
    (out[k][x][y] - NT * C.fc[k][x][y]) =
        (out[1][AxisOf(x)][AxisOf(y)] - NT * C.fc[1][AxisOf(x)][AxisOf(y)])
Emit == Done => PrintT("@@" \o ToJson([id |-> C.id, found |-> Found,
                  notfound |-> NotFound, lam |-> lam[1], n |-> NT, fc |-> out]))
=============================================================================
