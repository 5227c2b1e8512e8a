-------------------------------- MODULE Gauge --------------------------------
(* Descriptions of the same crystal.

   The same force constants may be described with atoms moved by lattice
   vectors (Move: relabels which cell's copy of an atom belongs to the home
   cell), with another origin (Shift), or with the cells of the supercell
   listed in another order or chosen elsewhere (Cells).  A walk applies these
   to a model; the specification tracks the relabelled force constants and the
   lattice vector t[i] by which each atom has moved.  The dynamical matrix of
   the new description is
        D'_ij(q) = exp(2 pi i q.(t_i - t_j)) D_ij(q),
   which is checked exactly at a commensurate wave vector. *)
EXTENDS Num, Json, IOUtils

CONSTANT Depth
Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, fc, r, orig, t, n, hist
vars == <<c, fc, r, orig, t, n, hist>>
C == Cases[c]
NA == Len(C.r)
NB == 3 * NA
NC == Len(C.orig)
m == Abs(IDet(C.sc))
Adj == ITrans(<<ICross(C.sc[2], C.sc[3]), ICross(C.sc[3], C.sc[1]),
                ICross(C.sc[1], C.sc[2])>>)
InSuper(R) == \A a \in 1..3 : IVMat(R, Adj)[a] % m = 0
CellOf(o, R) == CHOOSE i \in 1..NC : InSuper(IVSub(R, o[i]))
At(x) == ((x - 1) \div 3) + 1

Init == /\ c \in 1..Len(Cases)
        /\ fc = C.fc /\ r = C.r /\ orig = C.orig
        /\ t = [i \in 1..NA |-> <<0, 0, 0>>] /\ n = 0 /\ hist = <<>>

(* seeded choice of the operation's argument, one per step *)
Arg == C.args[n + 1]

Move == /\ Arg.op = "move"
        /\ LET j == Arg.atom
               T == Arg.vec
               d(x, y) == IVSub(IF At(y) = j THEN T ELSE <<0, 0, 0>>,
                                IF At(x) = j THEN T ELSE <<0, 0, 0>>)
           IN /\ r' = [r EXCEPT ![j] = IVAdd(@, IVScale(C.rden, T))]
              /\ t' = [t EXCEPT ![j] = IVAdd(@, T)]
              /\ fc' = [k \in 1..NC |-> [x \in 1..NB |-> [y \in 1..NB |->
                    fc[CellOf(orig, IVAdd(orig[k], d(x, y)))][x][y]]]]
        /\ UNCHANGED orig
Shift == /\ Arg.op = "shift"
         /\ r' = [i \in 1..NA |-> IVAdd(r[i], Arg.vec)]
         /\ UNCHANGED <<fc, orig, t>>
Cells == /\ Arg.op = "cells"
         /\ LET p == Arg.perm
                o2 == [k \in 1..NC |-> IVAdd(orig[p[k]], IVMat(Arg.ts[k], C.sc))]
            IN /\ orig' = o2
               /\ fc' = [k \in 1..NC |-> fc[p[k]]]
         /\ UNCHANGED <<r, t>>
Next == /\ n < Depth /\ n < Len(C.args)
        /\ Move \/ Shift \/ Cells
        /\ n' = n + 1 /\ hist' = Append(hist, Arg)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Q == C.q      \* commensurate wave vector, times m
Coef(f, o, x, y, off, k) ==
    LET S == {i \in 1..NC : (IDot(Q, o[i]) + off) % m = k}
        RECURSIVE Sm(_)
        Sm(U) == IF U = {} THEN 0 ELSE LET i == CHOOSE y2 \in U : TRUE
                                       IN f[i][x][y] + Sm(U \ {i})
    IN Sm(S)
GaugeLaw == \A x, y \in 1..NB : \A k \in 0..m-1 :
    Coef(fc, orig, x, y, 0, k) =
      Coef(C.fc, C.orig, x, y, IDot(Q, IVSub(t[At(x)], t[At(y)])), k)
Exchange == \A k \in 1..NC : \A x, y \in 1..NB :
    fc[k][x][y] = fc[CellOf(orig, IVScale(-1, orig[k]))][y][x]
Emit == n = Depth => PrintT("@@" \o ToJson([id |-> C.id, fc |-> fc, r |-> r,
                       orig |-> orig, t |-> t, hist |-> hist]))
=============================================================================
