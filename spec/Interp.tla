------------------------------- MODULE Interp -------------------------------
(* Fourier interpolation of a supercell force-constants matrix.

   A lattice is given by an integer Gram matrix `gram` (so hexagonal and
   general triclinic cells are exact), a supercell matrix `sc`, the cells of
   the supercell `orig` (first one is the home cell), atoms at `r/rden` and an
   integer force-constants array fc[cell][3i+a][3j+b].  For each cell of the
   supercell in turn (one action per cell)
     Images   finds, for each atom pair, the periodic images of atom j in that
              cell that are nearest to atom i of the home cell,
     Add      adds the pair's force constants, shared equally between those
              images, to the dynamical matrix of each requested q-point, with
              the phase of the image's lattice vector,
   and finally Emit hands over the dynamical matrices and their q-gradients.

   q-points are qs/m: exp(2 pi i q.R) is the m-th root of unity zeta^(qs.R mod
   m), so a dynamical matrix is a vector of m integer matrices (coefficients
   of zeta^0 .. zeta^(m-1)) over the common denominator `lcm`: exact. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)

VARIABLES c,      \* index of the case
          pc,     \* "images" | "add" | "done"
          l,      \* cell being processed
          img,    \* img[cell][i][j]: set of lattice vectors of the images
          acc,    \* acc[q][k+1][x][y]
          grad,   \* grad[q][axis][k+1][x][y]  (axis: fractional direction)
          amb     \* the case has a near-tie, beyond the documented tolerance

vars == <<c, pc, l, img, acc, grad, amb>>

C == Cases[c]
N == Len(C.r)
NB == 3 * N
(* supercells searched; a nearest image three supercells away marks the case as
   too skew: the documented search goes two supercells out *)
T3 == {<<x, y, z>> : x \in -3..3, y \in -3..3, z \in -3..3}
Border == {t \in T3 : \E a \in 1..3 : Abs(t[a]) = 3}
G2(d) == IDot(IVMat(d, C.gram), d)
Lattice(cell, t) == IVAdd(C.orig[cell], IVMat(t, C.sc))
(* fractional separation, times rden *)
Sep(i, j, R) == IVSub(IVSub(C.r[j], C.r[i]), IVScale(-C.rden, R))
LCM == 24
DistTab(cell, i, j) == [t \in T3 |-> G2(Sep(i, j, Lattice(cell, t)))]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the nearest images, and whether there is a near tie: an image outside the
   nearest set within 0.5% of the face condition |d.w| <= w.w/2 for the
   supercell vector w that separates it from one of the nearest images *)
PairInfo(cell, i, j) ==
    LET tab == DistTab(cell, i, j)
        m == MinOf({tab[t] : t \in T3})
        near == {t \in T3 : tab[t] = m}
        u == CHOOSE x \in near : TRUE
        tie == \E t \in T3 :
                 /\ tab[t] > m
                 /\ (tab[t] - m) * 100 <
                      G2(IVScale(C.rden, IVMat(IVSub(t, u), C.sc)))
    IN [near |-> near,
        bad |-> tie \/ near \cap Border # {}
                \/ 24 % Cardinality(near) # 0]

Phase(qv, R) == IDot(qv, R) % C.m

Zero == [x \in 1..NB |-> [y \in 1..NB |-> 0]]

Init == /\ c \in 1..Len(Cases)
        /\ pc = "images"
        /\ l = 1
        /\ img = <<>>
        /\ acc = [q \in 1..Len(C.qs) |-> [k \in 1..C.m |-> Zero]]
        /\ grad = IF C.grad
                  THEN [q \in 1..Len(C.qs) |-> [a \in 1..3 |->
                          [k \in 1..C.m |-> Zero]]]
                  ELSE <<>>
        /\ amb = FALSE

Images ==
    /\ pc = "images"
    /\ LET info == [i \in 1..N |-> [j \in 1..N |-> PairInfo(l, i, j)]]
       IN /\ img' = Append(img, [i \in 1..N |-> [j \in 1..N |-> info[i][j].near]])
          /\ amb' = (amb \/ \E i, j \in 1..N : info[i][j].bad)
    /\ pc' = "add"
    /\ UNCHANGED <<c, l, acc, grad>>

(* number of images with phase index k, in units of 1/LCM *)
Share(near, qv, k) ==
    (LCM \div Cardinality(near)) *
      Cardinality({t \in near : Phase(qv, Lattice(l, t)) = k})
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
ShareGrad(near, qv, k, a) ==
    LET S == {t \in near : Phase(qv, Lattice(l, t)) = k}
    IN (LCM \div Cardinality(near)) *
          SumSet(S, [t \in S |-> Lattice(l, t)[a]])

At(x) == ((x - 1) \div 3) + 1

Add ==
    /\ pc = "add"
    /\ IF amb THEN UNCHANGED <<acc, grad>>
       ELSE
       /\ acc' = [q \in 1..Len(C.qs) |->
             LET sh == [i \in 1..N |-> [j \in 1..N |-> [k \in 1..C.m |->
                          Share(img[l][i][j], C.qs[q], k - 1)]]]
             IN [k \in 1..C.m |-> [x \in 1..NB |-> [y \in 1..NB |->
                    acc[q][k][x][y] + sh[At(x)][At(y)][k] * C.fc[l][x][y]]]]]
       /\ grad' = IF ~C.grad THEN grad ELSE
             [q \in 1..Len(C.qs) |-> [a \in 1..3 |->
             LET sh == [i \in 1..N |-> [j \in 1..N |-> [k \in 1..C.m |->
                          ShareGrad(img[l][i][j], C.qs[q], k - 1, a)]]]
             IN [k \in 1..C.m |-> [x \in 1..NB |-> [y \in 1..NB |->
                    grad[q][a][k][x][y] + sh[At(x)][At(y)][k] * C.fc[l][x][y]]]]]]
    /\ l' = l + 1
    /\ pc' = IF amb \/ l = Len(C.orig) THEN "done" ELSE "images"
    /\ UNCHANGED <<c, img, amb>>

Next == Images \/ Add
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* every pair has at least one image in every cell *)
ImagesExist == \A k \in 1..Len(img) : \A i, j \in 1..N : img[k][i][j] # {}
(* D(q) is Hermitian: the coefficient of zeta^k in D_ij is that of zeta^-k in
   D_ji^T *)
Hermitian == pc = "done" /\ ~amb =>
    \A q \in 1..Len(C.qs) : \A k \in 1..C.m : \A x, y \in 1..NB :
        acc[q][k][x][y] = acc[q][((C.m - (k-1)) % C.m) + 1][y][x]
(* the weight of the images of a pair is 1, whatever their number: with all
   phases 1 (q integer), D is the plain sum over cells *)
GammaSum == pc = "done" /\ ~amb =>
    \A q \in 1..Len(C.qs) : (\A a \in 1..3 : C.qs[q][a] % C.m = 0) =>
       \A x, y \in 1..NB :
          acc[q][1][x][y] = LET f(k) == LCM * C.fc[k][x][y]
                            IN SumInt(f, 1, Len(C.orig))
Emit == pc = "done" =>
    PrintT("@@" \o ToJson([id |-> C.id, amb |-> amb, den |-> LCM,
        dm |-> IF amb THEN <<>> ELSE acc,
        nim |-> IF amb THEN <<>> ELSE
            [k \in 1..Len(img) |-> [i \in 1..N |-> [j \in 1..N |->
               Cardinality(img[k][i][j])]]],
        grad |-> IF amb THEN <<>> ELSE grad]))
=============================================================================
