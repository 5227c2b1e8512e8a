-------------------------------- MODULE Adapt --------------------------------
(* Adaptively broadened densities of states (reference method): at every bin
   centre, the sum over modes of a normalised Gaussian.

   Positions are integers in half units; s is the full width at half maximum of
   a mode in whole units, so a Gaussian at distance d half units is
   2^-(d^2/s^2) times a height proportional to 1/s.  The content of a bin is a
   map from exponents d^2/s^2 to coefficients.  One mode is added per step. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, left, out
vars == <<c, left, out>>
C == Cases[c]
NQ == Len(C.f)
NB == Len(C.edges) - 1
NA == Len(C.u[1][1])
WSum == ISeqSum(C.w)
Norm(q, v, k) == LET g(i) == C.u[q][v][k][i][1]*C.u[q][v][k][i][1]
                             + C.u[q][v][k][i][2]*C.u[q][v][k][i][2]
                 IN SumInt(g, 1, 3)
Norm2(q, v) == LET g(k) == Norm(q, v, k) IN SumInt(g, 1, NA)
Share(q, v, k) == Rat(Norm(q, v, k), NA * Norm2(q, v))

Wid(q, v) == Max2(C.s[q][v], C.smin)
Dist(q, v, b) == C.edges[b] + C.edges[b + 1] - C.f[q][v]   \* to the bin centre
Exponent(q, v, b) == Rat(Dist(q, v, b)*Dist(q, v, b), Wid(q, v)*Wid(q, v))
Put(m, e, x) == IF e \in DOMAIN m THEN [m EXCEPT ![e] = RAdd(@, x)]
                ELSE m @@ (e :> x)
None == [x \in {} |-> RZero]

(* out: 0 (all atoms) or an atom -> q-point -> bin -> map *)
Init == /\ c \in 1..Len(Cases)
        /\ left = {<<q, v>> \in (1..Len(Cases[c].f)) \X (1..9) :
                       v <= Len(Cases[c].f[q])}
        /\ out = [k \in 0..Len(Cases[c].u[1][1]) |->
                    [q \in 1..Len(Cases[c].f) |->
                       [b \in 1..(Len(Cases[c].edges) - 1) |-> None]]]
First == CHOOSE x \in left : \A y \in left :
            x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Add(q, v, o) == [k \in 0..NA |-> [o[k] EXCEPT ![q] =
    [b \in 1..NB |-> Put(o[k][q][b], Exponent(q, v, b),
        RMul(IF k = 0 THEN Rat(1, NA) ELSE Share(q, v, k),
             Rat(1, Wid(q, v))))]]]
Next == /\ left # {} /\ left' = left \ {First}
        /\ out' = Add(First[1], First[2], out) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == left = {}
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN RZero
                   ELSE LET x == CHOOSE y \in S : TRUE
                        IN RAdd(f(x), SumSet(f, S \ {x}))
(* the parts add up, exponent by exponent *)
PartsSum == Done => \A q \in 1..NQ : \A b \in 1..NB :
   \A e \in DOMAIN out[0][q][b] :
      out[0][q][b][e] = (LET g(k) == IF e \in DOMAIN out[k][q][b]
                                     THEN out[k][q][b][e] ELSE RZero
                         IN SumRat(g, 1, NA))
(* every mode reaches every bin with its full height over width *)
AllReach == Done => \A q \in 1..NQ : \A b \in 1..NB :
   LET g(e) == out[0][q][b][e]
       h(v) == Rat(1, NA * Wid(q, v))
   IN SumSet(g, DOMAIN out[0][q][b]) = SumRat(h, 1, Len(C.f[q]))
NotTooNarrow == \A q \in 1..NQ : \A v \in 1..Len(C.f[q]) :
                   Wid(q, v) >= C.smin /\ Wid(q, v) >= C.s[q][v]
AsList(m) == LET S == DOMAIN m
                 RECURSIVE L(_)
                 L(T) == IF T = {} THEN <<>>
                         ELSE LET x == CHOOSE y \in T : TRUE
                              IN <<<<x[1], x[2], m[x][1], m[x][2]>>>> \o L(T \ {x})
             IN L(S)
Emit == Done => PrintT("@@" \o ToJson([id |-> C.id, wsum |-> WSum,
   out |-> [k \in 1..(NA + 1) |-> [q \in 1..NQ |-> [b \in 1..NB |->
             AsList(out[k - 1][q][b])]]]]))
=============================================================================
