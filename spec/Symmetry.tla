------------------------------ MODULE Symmetry ------------------------------
(* Space group operations of a crystal, by exhaustive search, exactly.
   Gram: integer metric of the cell.  R: positions over rden.  sp: species.
   An operation maps the (column) position r to W r + t.  *)
EXTENDS Num

Vecs2 == {<<a, b, d>> : a \in -2..2, b \in -2..2, d \in -2..2}
Met(g, a, b) == IDot(IVMat(a, g), b)
(* rows of the result are the columns of W *)
PointOps(g) ==
  LET cand(i) == {x \in Vecs2 : Met(g, x, x) = g[i][i]} IN
  {<<a, b, d>> \in cand(1) \X cand(2) \X cand(3) :
       Met(g, a, b) = g[1][2] /\ Met(g, a, d) = g[1][3] /\ Met(g, b, d) = g[2][3]}
MV(w, r) == <<r[1]*w[1][1] + r[2]*w[2][1] + r[3]*w[3][1],
              r[1]*w[1][2] + r[2]*w[2][2] + r[3]*w[3][2],
              r[1]*w[1][3] + r[2]*w[2][3] + r[3]*w[3][3]>>
VMod(a, n) == <<a[1] % n, a[2] % n, a[3] % n>>
(* image of atom i under <<w, t>>: 0 if there is none *)
ImageOf(op, i, R, rden, sp) ==
  LET x == VMod(IVAdd(MV(op.w, R[i]), op.t), rden)
      s == {j \in 1..Len(R) : sp[j] = sp[i] /\ VMod(R[j], rden) = x}
  IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE
SpaceOps(g, R, rden, sp) ==
  LET try == {[w |-> w, t |-> VMod(IVSub(R[j], MV(w, R[1])), rden)] :
                  w \in PointOps(g), j \in {x \in 1..Len(R) : sp[x] = sp[1]}}
  IN {op \in try : \A i \in 1..Len(R) : ImageOf(op, i, R, rden, sp) # 0}
(* the operation as a permutation of the atoms *)
PermOf(op, R, rden, sp) == [i \in 1..Len(R) |-> ImageOf(op, i, R, rden, sp)]
(* W as a matrix (row, column) *)
AsMatrix(w) == ITrans(w)
Compose(a, b, rden) == [w |-> <<MV(a.w, b.w[1]), MV(a.w, b.w[2]), MV(a.w, b.w[3])>>,
                        t |-> VMod(IVAdd(MV(a.w, b.t), a.t), rden)]
IsGroup(ops, rden) == /\ \A a \in ops : \A b \in ops : Compose(a, b, rden) \in ops
                      /\ [w |-> IdMat, t |-> <<0, 0, 0>>] \in ops
=============================================================================
