-------------------------------- MODULE Fold --------------------------------
(* Splitting total force constants into a long range and a short range part.

   `lr` is a long range interaction extending beyond the supercell (integer
   values on lattice vectors, scalar: one component of one atom pair), `tot` the
   total force constants of the supercell, one value per cell.
     FoldStep   folds the long range part into the supercell, cell by cell, and
                subtracts it from the total.
     Restore    interpolates the short range part and adds the long range part
                back at each commensurate wave vector.
   The result is the interpolation of the total force constants, exactly, at
   every wave vector commensurate with the supercell.  (q = qn/m, phases are
   powers of an m-th root of unity, kept as m integer coefficients.)  Values
   are compared as values of the character sum: two coefficient vectors agree
   if they do. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, pc, k, sr, ok, qs
vars == <<c, pc, k, sr, ok, qs>>
C == Cases[c]
NC == Len(C.orig)
m == Abs(IDet(C.sc))
Range1 == {<<x, y, z>> : x \in -2..2, y \in -2..2, z \in -2..2}
Lr(R) == ((R[1]*R[1]*3 + R[2]*R[3]*5 + R[1]*2 - R[3]*7 + C.salt) % 11) - 5
(* adjugate: R is a supercell lattice vector iff R.adj(sc) = 0 mod det *)
Adj == ITrans(<<ICross(C.sc[2], C.sc[3]), ICross(C.sc[3], C.sc[1]),
                ICross(C.sc[1], C.sc[2])>>)
InSuper(R) == \A a \in 1..3 : IVMat(R, Adj)[a] % m = 0
CellOf(R) == CHOOSE i \in 1..NC : InSuper(IVSub(R, C.orig[i]))
Less3(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Commensurate == {q \in {<<x, y, z>> : x \in 0..m-1, y \in 0..m-1, z \in 0..m-1} :
                   \A a \in 1..3 : IDot(q, C.sc[a]) % m = 0}

Init == /\ c \in 1..Len(Cases) /\ pc = "fold" /\ k = 1
        /\ sr = <<>> /\ ok = TRUE /\ qs = <<>>

FoldStep == /\ pc = "fold"
            /\ LET S == {R \in Range1 : CellOf(R) = k}
                   RECURSIVE Sm(_)
                   Sm(T) == IF T = {} THEN 0
                            ELSE LET x == CHOOSE y \in T : TRUE
                                 IN Lr(x) + Sm(T \ {x})
               IN sr' = Append(sr, C.tot[k] - Sm(S))
            /\ IF k = NC THEN pc' = "restore" /\ k' = 1
               ELSE k' = k + 1 /\ UNCHANGED pc
            /\ UNCHANGED <<c, ok, qs>>

Co(q, n, val(_), S, vec(_)) ==
    LET T == {x \in S : IDot(q, vec(x)) % m = n}
        RECURSIVE Sm(_)
        Sm(U) == IF U = {} THEN 0 ELSE LET x == CHOOSE y \in U : TRUE
                                       IN val(x) + Sm(U \ {x})
    IN Sm(T)
Restore == /\ pc = "restore"
           /\ LET Q == Commensurate
                  cell(i) == C.orig[i]
                  tot(i) == C.tot[i]
                  short(i) == sr[i]
                  id(R) == R
              IN /\ ok' = \A q \in Q : \A n \in 0..m-1 :
                       Co(q, n, tot, 1..NC, cell) =
                         Co(q, n, short, 1..NC, cell) + Co(q, n, Lr, Range1, id)
                 /\ qs' = IF Cardinality(Q) = NC
                          THEN [i \in 1..NC |-> CHOOSE q \in Q :
                                 Cardinality({p \in Q : Less3(p, q)}) = i - 1]
                          ELSE <<>>
           /\ pc' = "done" /\ UNCHANGED <<c, k, sr>>
Next == FoldStep \/ Restore
Spec == Init /\ [][Next]_vars

Restored == ok
(* there are exactly as many commensurate wave vectors as cells *)
Count == pc = "done" => Len(qs) = NC
Emit == pc = "done" => PrintT("@@" \o ToJson([id |-> C.id, m |-> m, qs |-> qs]))
=============================================================================
