------------------------------- MODULE Widths -------------------------------
(* Mode widths from mode gradients: the spacing of nq q-points that fill a cell
   of reciprocal volume (2 pi)^3/V evenly is proportional to 1/cbrt(nq V), and
   the width of a mode is  2 |g| / cbrt(nq V).  Cells and q-point numbers are
   chosen with nq V = k^3, gradients as integer vectors of integer length, so
   that widths are rational.  A state is one choice; Scale steps multiply the
   gradient, Refine steps multiply the number of q-points by 8. *)
EXTENDS Num, Json

CONSTANTS Ks, Vols, Quads, MaxSteps
VARIABLES k, v, g, nq, n
vars == <<k, v, g, nq, n>>
Init == /\ k \in Range(Ks) /\ v \in {x \in Range(Vols) : (k*k*k) % x = 0}
        /\ g \in Range(Quads) /\ nq = (k*k*k) \div v /\ n = 0
Scale == g' = IVScale(2, g) /\ UNCHANGED <<k, v, nq>>
Refine == nq' = 8 * nq /\ k' = 2 * k /\ UNCHANGED <<v, g>>
Next == n < MaxSteps /\ n' = n + 1 /\ (Scale \/ Refine)
Spec == Init /\ [][Next]_vars

Norm == CHOOSE x \in 0..400 : x * x = IDot(g, g)
Width == Rat(2 * Norm, k)
Cube == nq * v = k * k * k
(* linear in the gradient, halved by halving the spacing *)
Linear == [][ /\ (g' = IVScale(2, g) /\ k' = k) =>
                   RMul(<<2, 1>>, Width) = Width'
              /\ (k' = 2 * k) => Width = RMul(<<2, 1>>, Width') ]_vars
Emit == nq <= 4000 =>
         PrintT("@@" \o ToJson([k |-> k, v |-> v, nq |-> nq, g |-> g,
                                norm |-> Norm, w |-> Width]))
=============================================================================
