--------------------------------- MODULE Dos ---------------------------------
(* Binned densities of states.

   Positions are integers in half units, bin edges in whole units, so a mode
   can lie inside a bin or exactly on an edge.  u: Gaussian integer eigenvector
   components; the share of an atom in a mode is |u_k|^2/|u|^2.  The machine
   drops one mode after the other into its bin. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, left, out       \* out: atom -> q-point -> bin -> rational
vars == <<c, left, out>>
C == Cases[c]
NQ == Len(C.f)
NB == Len(C.edges) - 1
NA == Len(C.u[1][1])
ModesOf(q) == 1..Len(C.f[q])

Norm(q, v, k) == LET g(i) == C.u[q][v][k][i][1]*C.u[q][v][k][i][1]
                             + C.u[q][v][k][i][2]*C.u[q][v][k][i][2]
                 IN SumInt(g, 1, 3)
Norm2(q, v) == LET g(k) == Norm(q, v, k) IN SumInt(g, 1, NA)
Share(q, v, k) == Rat(Norm(q, v, k), Norm2(q, v))
(* half-open bins *)
Holds(b, f) == 2*C.edges[b] <= f /\ f < 2*C.edges[b + 1]
Width(b) == C.edges[b + 1] - C.edges[b]
WSum == ISeqSum(C.w)

Drop(q, v, o) ==
  [k \in 1..NA |-> [o[k] EXCEPT ![q] =
      [b \in 1..NB |-> IF Holds(b, C.f[q][v])
                       THEN RAdd(o[k][q][b],
                                 RMul(Share(q, v, k), Rat(1, NA * Width(b))))
                       ELSE o[k][q][b]]]]
Init == /\ c \in 1..Len(Cases)
        /\ left = {<<q, v>> \in (1..Len(Cases[c].f)) \X (1..12) :
                       v <= Len(Cases[c].f[q])}
        /\ out = [k \in 1..Len(Cases[c].u[1][1]) |->
                    [q \in 1..Len(Cases[c].f) |->
                       [b \in 1..(Len(Cases[c].edges) - 1) |-> RZero]]]
First == CHOOSE x \in left : \A y \in left :
            x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Next == /\ left # {} /\ left' = left \ {First}
        /\ out' = Drop(First[1], First[2], out) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == left = {}
(* one row of the map, all atoms *)
MapAt(q, b) == LET g(k) == out[k][q][b] IN SumRat(g, 1, NA)
(* weighted mean over q-points *)
PdosAt(k, b) == LET g(q) == RMul(Rat(C.w[q], WSum), out[k][q][b])
                IN SumRat(g, 1, NQ)
DosAt(b) == LET g(q) == RMul(Rat(C.w[q], WSum), MapAt(q, b)) IN SumRat(g, 1, NQ)
(* neutron weighting: cross section times mean mass over mass *)
MSum == ISeqSum(C.mass)
Weighted(k, b) == RMul(PdosAt(k, b), Rat(C.xs[k] * MSum, NA * C.mass[k]))

AtMostOneBin == \A q \in 1..NQ : \A v \in ModesOf(q) :
                   Cardinality({b \in 1..NB : Holds(b, C.f[q][v])}) <= 1
(* direct definition of the total: counts modes, weights, widths *)
Direct(b) == LET g(q) == Rat(C.w[q] * Cardinality({v \in ModesOf(q) :
                                Holds(b, C.f[q][v])}), WSum * NA * Width(b))
             IN SumRat(g, 1, NQ)
Total == Done => \A b \in 1..NB : DosAt(b) = Direct(b)
PartsSum == Done => \A b \in 1..NB :
               DosAt(b) = (LET g(k) == PdosAt(k, b) IN SumRat(g, 1, NA))
(* area 3 when nothing is outside *)
Inside == \A q \in 1..NQ : \A v \in ModesOf(q) :
             \E b \in 1..NB : Holds(b, C.f[q][v])
Area == LET g(b) == RMul(RInt(Width(b)), DosAt(b)) IN SumRat(g, 1, NB)
AreaThree == Done => /\ RLe(Area, <<3, 1>>)
                     /\ Inside => Area = <<3, 1>>
Emit == Done => PrintT("@@" \o ToJson(
  [id |-> C.id, dos |-> [b \in 1..NB |-> DosAt(b)],
   pdos |-> [k \in 1..NA |-> [b \in 1..NB |-> PdosAt(k, b)]],
   wdos |-> [k \in 1..NA |-> [b \in 1..NB |-> Weighted(k, b)]],
   map |-> [q \in 1..NQ |-> [b \in 1..NB |-> MapAt(q, b)]]]))
=============================================================================
