------------------------------- MODULE DWaller -------------------------------
(* Debye-Waller exponents.

   W_k = 1/(4 M_k sum w) sum_{q, v above the cut-off} w_q Re(e e^+)/omega
             coth(omega/2kT)

   Exact choices: omega = k ln2 kT with integer k, so that the coth is
   (2^k + 1)/(2^k - 1) (1 at zero temperature); eigenvectors have Gaussian
   integer components along the cell vectors, so that the tensor in those
   components is rational.  Mass, sum of the weights and units are left to the
   refinement mapping.  q-points are added one at a time, in any order; then
   the tensors are averaged over the space group. *)
EXTENDS Symmetry, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, left, W, ops, sym
vars == <<c, left, W, ops, sym>>
C == Cases[c]
NA == Len(C.R)
NP == Len(C.k)

Coth(k) == IF C.cold THEN ROne ELSE Rat(2^k + 1, 2^k - 1)
(* frequencies below the limit are left out, the limit itself counts *)
Above(k) == 2*k >= C.kmin2
RC(a, b, u) == u[a][1]*u[b][1] + u[a][2]*u[b][2]
Share(p, atom, a, b) ==
   LET f(v) == IF ~Above(C.k[p][v]) THEN RZero
               ELSE RMul(Rat(C.w[p] * RC(a, b, C.u[p][v][atom]), C.k[p][v]),
                         Coth(C.k[p][v]))
   IN SumRat(f, 1, Len(C.k[p]))
Tensor(S) == [atom \in 1..NA |-> [a \in 1..3 |-> [b \in 1..3 |->
   LET f(p) == IF p \in S THEN Share(p, atom, a, b) ELSE RZero
   IN SumRat(f, 1, NP)]]]
TAdd(x, y) == [k \in 1..NA |-> [a \in 1..3 |-> [b \in 1..3 |->
                                RAdd(x[k][a][b], y[k][a][b])]]]
ZeroT(n) == [k \in 1..n |-> [a \in 1..3 |-> [b \in 1..3 |-> RZero]]]

(* Rot T Rot^T with integer Rot (rows: columns of the matrix) *)
RotT(w, T) == [a \in 1..3 |-> [b \in 1..3 |->
   LET f(i) == LET g(j) == RMul(RInt(w[i][a] * w[j][b]), T[i][j])
               IN SumRat(g, 1, 3)
   IN SumRat(f, 1, 3)]]
RECURSIVE Avg(_, _, _)
Avg(os, T, acc) ==
  IF os = {} THEN acc
  ELSE LET op == CHOOSE o \in os : TRUE
           pm == PermOf(op, C.R, C.rden, C.sp)
           add == [k \in 1..NA |->
                     LET src == CHOOSE j \in 1..NA : pm[j] = k
                     IN RotT(op.w, T[src])]
       IN Avg(os \ {op}, T, TAdd(acc, add))
Symmetrised(T) ==
   LET n == Cardinality(ops) s == Avg(ops, T, ZeroT(NA))
   IN [k \in 1..NA |-> [a \in 1..3 |-> [b \in 1..3 |->
          RMul(s[k][a][b], <<1, n>>)]]]

Init == /\ c \in 1..Len(Cases) /\ left = 1..Len(Cases[c].k)
        /\ W = ZeroT(Len(Cases[c].R)) /\ sym = <<>>
        /\ ops = SpaceOps(Cases[c].gram, Cases[c].R, Cases[c].rden, Cases[c].sp)
AddPoint == /\ \E p \in left : left' = left \ {p} /\ W' = TAdd(W, Tensor({p}))
            /\ UNCHANGED <<c, ops, sym>>
Symmetrise == left = {} /\ sym = <<>> /\ sym' = Symmetrised(W)
              /\ UNCHANGED <<c, left, W, ops>>
Next == AddPoint \/ Symmetrise
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == left = {}
OrderFree == Done => W = Tensor(1..NP)
(* symmetric, non-negative on the diagonal *)
Physical == \A k \in 1..NA : \A a, b \in 1..3 :
               W[k][a][b] = W[k][b][a] /\ W[k][a][a][1] >= 0
Group == IsGroup(ops, C.rden)
(* averaging twice changes nothing, and the result has the symmetry *)
Projects == sym # <<>> =>
  /\ \A op \in ops : LET pm == PermOf(op, C.R, C.rden, C.sp) IN
        \A k \in 1..NA : sym[pm[k]] = RotT(op.w, sym[k])
Emit == sym # <<>> => PrintT("@@" \o ToJson(
     [id |-> C.id, W |-> W, sym |-> sym, n |-> Cardinality(ops)]))
=============================================================================
