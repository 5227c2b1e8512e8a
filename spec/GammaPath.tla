------------------------------ MODULE GammaPath ------------------------------
(* LO-TO splitting along a path of q-points.

   Phase 1 (Insert) walks over the given path one point at a time and builds the
   path that is calculated: an interior gamma point appears twice, each copy
   with half the weight.  Phase 2 (Split) gives every point of the new path its
   direction of approach and the non-analytic term
        4 pi / V  (Z_i.d)(Z_j.d)^T / (d.eps.d).
   With Y_k = Z_k.B and E = B^T.eps.B (B: reciprocal vectors, as columns)
   everything but 4 pi / V is an integer: num[x][y] / den. *)
EXTENDS Num, Json, IOUtils

CONSTANT M
In == JsonDeserialize(IOEnv.VF_IN)
Paths == In.paths          \* [model, qs, ws] : weights are integers, or <<>>
Models == In.models        \* [y: atoms x 3 x 3, e: 3 x 3]

VARIABLES p, insert, pc, k, path, res
vars == <<p, insert, pc, k, path, res>>
P == Paths[p]
Mdl == Models[P.model]
N == Len(Mdl.y)
L == Len(P.qs)

IsGamma(v) == \A a \in 1..3 : v[a] % M = 0
Interior(i) == i > 1 /\ i < L
W(i) == IF P.ws = <<>> THEN 2 ELSE 2 * P.ws[i]     \* in halves

Init == /\ p \in 1..Len(Paths) /\ insert \in BOOLEAN
        /\ pc = "insert" /\ k = 1 /\ path = <<>> /\ res = <<>>

Insert ==
    /\ pc = "insert"
    /\ LET pt(w, i) == [q |-> P.qs[i], w |-> w, src |-> i]
       IN path' = IF insert /\ IsGamma(P.qs[k]) /\ Interior(k)
                  THEN path \o << pt(W(k) \div 2, k), pt(W(k) \div 2, k) >>
                  ELSE Append(path, pt(W(k), k))
    /\ IF k = L THEN pc' = "split" /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<p, insert, res>>

NP == Len(path)
Fwd(i) == IVSub(path[i + 1].q, path[i].q)
Bwd(i) == IVSub(path[i].q, path[i - 1].q)
Dir(i) == IF NP = 1 THEN <<0, 0, 0>>
          ELSE LET d == IF i = 1 THEN Fwd(i)
                        ELSE IF i = NP THEN Bwd(i)
                        ELSE IF IsGamma(Fwd(i)) THEN Bwd(i) ELSE Fwd(i)
               IN IF IsGamma(d) THEN <<0, 0, 0>> ELSE d

Zd(d) == [x \in 1..3*N |->
            IDot(Mdl.y[((x - 1) \div 3) + 1][((x - 1) % 3) + 1], d)]
Split ==
    /\ pc = "split"
    /\ LET d == IF IsGamma(path[k].q) THEN Dir(k) ELSE <<0, 0, 0>>
           z == Zd(d)
       IN res' = Append(res, IF d = <<0, 0, 0>>
                  THEN [num |-> <<>>, den |-> 1, d |-> d]
                  ELSE [num |-> [x \in 1..3*N |-> [y \in 1..3*N |-> z[x]*z[y]]],
                        den |-> IDot(IVMat(d, Mdl.e), d), d |-> d])
    /\ IF k = NP THEN pc' = "done" /\ UNCHANGED k ELSE k' = k + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<p, insert, path>>

Next == Insert \/ Split
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == pc = "done"
(* the path is the given one, with each interior gamma point doubled *)
PathKept == Done =>
    /\ \A i \in 1..NP - 1 : path[i].src <= path[i + 1].src
    /\ \A i \in 1..L : Cardinality({j \in 1..NP : path[j].src = i}) =
          (IF insert /\ IsGamma(P.qs[i]) /\ Interior(i) THEN 2 ELSE 1)
WeightKept == Done =>
    ISeqSum([i \in 1..NP |-> path[i].w]) = ISeqSum([i \in 1..L |-> W(i)])
(* with insertion, an isolated interior gamma is split along both sides *)
BothSides == Done /\ insert => \A i \in 2..(L - 1) :
    (IsGamma(P.qs[i]) /\ ~IsGamma(P.qs[i-1]) /\ ~IsGamma(P.qs[i+1])) =>
      LET js == SortedSeq({j \in 1..NP : path[j].src = i})
      IN /\ res[js[1]].d = IVSub(P.qs[i], P.qs[i-1])
         /\ res[js[2]].d = IVSub(P.qs[i+1], P.qs[i])
(* the term is symmetric and positive along the direction (rank one) *)
Rank1 == Done => \A i \in 1..NP : res[i].num # <<>> =>
    /\ res[i].den > 0
    /\ \A x, y \in 1..3*N : /\ res[i].num[x][y] = res[i].num[y][x]
                            /\ res[i].num[x][x] >= 0
OnlyGamma == Done => \A i \in 1..NP : ~IsGamma(path[i].q) => res[i].num = <<>>
Emit == Done => PrintT("@@" \o ToJson([p |-> p, insert |-> insert,
                          path |-> path, res |-> res]))
=============================================================================
