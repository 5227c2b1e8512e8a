------------------------------- MODULE Geometry -------------------------------
(* Geometry of a crystal from the integer metric G of its cell, exactly.

   With a_i . a_j = G_ij the reciprocal vectors (a_i . b_j = 2 pi delta_ij)
   have b_i . b_j = 4 pi^2 (G^-1)_ij, and the volume is sqrt(det G).
   Grids: the smallest numbers n_i >= 1 with |b_i| / n_i <= spacing.
   Species: atoms are met in order and put with those of their kind.
   Symmetry: all operations, and where each atom goes (module Symmetry). *)
EXTENDS Symmetry, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, met, groups, grid, ops
vars == <<c, met, groups, grid, ops>>
C == Cases[c]
NA == Len(C.R)

Cof(g) == <<ICross(g[2], g[3]), ICross(g[3], g[1]), ICross(g[1], g[2])>>
Det == IDet(C.gram)
Dual == Cof(C.gram)                        \* times 1/Det: inverse of the metric
(* spacing = 2 pi sqrt(num / den): |b_i| <= n spacing *)
Dense(i, n, s) == Dual[i][i] * s[2] <= n * n * s[1] * Det
(* exactly on the border, rounding decides *)
Border(i, n, s) == Dual[i][i] * s[2] = n * n * s[1] * Det

Init == /\ c \in 1..Len(Cases) /\ met = 0 /\ groups = <<>>
        /\ grid = [k \in 1..Len(Cases[c].spacings) |-> <<1, 1, 1>>]
        /\ ops = {}
Meet == /\ met < NA
        /\ met' = met + 1
        /\ LET s == C.sp[met'] k == {j \in 1..Len(groups) : groups[j].sp = s}
           IN groups' = IF k = {} THEN Append(groups, [sp |-> s, at |-> <<met'>>])
                        ELSE [groups EXCEPT ![CHOOSE j \in k : TRUE].at = Append(@, met')]
        /\ UNCHANGED <<c, grid, ops>>
Refine == /\ met = NA
          /\ \E k \in 1..Len(grid) : \E i \in 1..3 :
                /\ ~Dense(i, grid[k][i], C.spacings[k])
                /\ \A j \in 1..Len(grid) : \A h \in 1..3 :
                      (j < k \/ (j = k /\ h < i)) => Dense(h, grid[j][h], C.spacings[j])
                /\ grid' = [grid EXCEPT ![k][i] = @ + 1]
          /\ UNCHANGED <<c, met, groups, ops>>
AllDense == \A k \in 1..Len(grid) : \A i \in 1..3 : Dense(i, grid[k][i], C.spacings[k])
Symm == /\ met = NA /\ AllDense /\ ops = {} /\ C.symm
        /\ ops' = SpaceOps(C.gram, C.R, C.rden, C.sp)
        /\ UNCHANGED <<c, met, groups, grid>>
Next == Meet \/ Refine \/ Symm
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == met = NA /\ AllDense /\ (C.symm => ops # {})
IsDual == IMatMul(C.gram, Dual) = <<<<Det, 0, 0>>, <<0, Det, 0>>, <<0, 0, Det>>>>
          /\ Det > 0
Minimal == \A k \in 1..Len(grid) : \A i \in 1..3 :
              grid[k][i] = 1 \/ ~Dense(i, grid[k][i] - 1, C.spacings[k])
Partition == /\ \A a, b \in 1..Len(groups) : a # b =>
                   groups[a].sp # groups[b].sp /\ groups[a].at[1] # groups[b].at[1]
             /\ UNION {Range(groups[j].at) : j \in 1..Len(groups)} = 1..met
             /\ \A j \in 1..Len(groups) : \A k \in 1..Len(groups[j].at) - 1 :
                   groups[j].at[k] < groups[j].at[k + 1]
             /\ \A j \in 1..Len(groups) - 1 : groups[j].at[1] < groups[j + 1].at[1]
Group == ops # {} => IsGroup(ops, C.rden)
Permutes == \A op \in ops : LET p == PermOf(op, C.R, C.rden, C.sp)
                            IN IsPermutationSeq(p) /\ \A i \in 1..NA : C.sp[p[i]] = C.sp[i]
Emit == Done => PrintT("@@" \o ToJson(
   [id |-> C.id, det |-> Det, dual |-> Dual, grid |-> grid,
    border |-> [k \in 1..Len(grid) |-> [i \in 1..3 |-> Border(i, grid[k][i], C.spacings[k])]],
    groups |-> groups,
    ops |-> {[w |-> AsMatrix(op.w), t |-> op.t, p |-> PermOf(op, C.R, C.rden, C.sp)] : op \in ops}]))
=============================================================================
