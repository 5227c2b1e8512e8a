--------------------------------- MODULE Sqw ---------------------------------
(* Scattering maps with detailed balance.

   Positions are integers in half units (never zero), bin edges in whole
   units.  kT ln2 is t half units, so that a mode at f has the Bose occupation
   1/(2^k - 1) with k = |f|/t (cases are made so that t divides f).  The
   content of a bin is a map from <<k, side>> to the sum of the structure
   factors that enter with weight n + 1 (side 1) or n (side 0).  temp is one of
   none, cold (zero) and warm. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, left, out
vars == <<c, left, out>>
C == Cases[c]
NQ == Len(C.f)
NB == Len(C.edges) - 1
K(f) == Abs(f) \div C.t
Holds(b, f) == 2*C.edges[b] <= f /\ f < 2*C.edges[b + 1]
None == [x \in {} |-> 0]
Put(m, e, x) == IF e \in DOMAIN m THEN [m EXCEPT ![e] = @ + x]
                ELSE m @@ (e :> x)

Init == /\ c \in 1..Len(Cases)
        /\ left = {<<q, v>> \in (1..Len(Cases[c].f)) \X (1..9) :
                       v <= Len(Cases[c].f[q])}
        /\ out = [q \in 1..Len(Cases[c].f) |->
                     [b \in 1..(Len(Cases[c].edges) - 1) |-> None]]
First == CHOOSE x \in left : \A y \in left :
            x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
(* creation at the frequency, annihilation at minus the frequency *)
Place(q, v, o) ==
  LET f == C.f[q][v] x == C.sf[q][v] IN
  [o EXCEPT ![q] = [b \in 1..NB |->
     LET m1 == IF Holds(b, f) THEN Put(o[q][b], <<K(f), 1>>, x) ELSE o[q][b]
         m2 == IF Holds(b, -f) THEN Put(m1, <<K(f), 0>>, x) ELSE m1
     IN m2]]
Next == /\ left # {} /\ left' = left \ {First}
        /\ out' = Place(First[1], First[2], out) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == left = {}
Exact == \A q \in 1..NQ : \A v \in 1..Len(C.f[q]) :
            C.f[q][v] # 0 /\ C.f[q][v] % C.t = 0
RECURSIVE SumD(_, _)
SumD(m, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE
                                    IN m[x] + SumD(m, S \ {x})
Content(q, b, side) == SumD(out[q][b], {x \in DOMAIN out[q][b] : x[2] = side})
(* nothing is placed twice or lost *)
Counted == Done => \A q \in 1..NQ : \A side \in {0, 1} :
   LET g(b) == Content(q, b, side)
       h(v) == IF \E b \in 1..NB : Holds(b, IF side = 1 THEN C.f[q][v]
                                            ELSE -C.f[q][v])
               THEN C.sf[q][v] ELSE 0
   IN SumInt(g, 1, NB) = SumInt(h, 1, Len(C.f[q]))
(* detailed balance: with bins symmetric about zero and no mode on an edge, the
   mirrored bin holds the same with the other side: ratio 2^-k *)
Sym == /\ \A b \in 1..NB : C.edges[b] = -C.edges[NB + 2 - b]
       /\ \A q \in 1..NQ : \A v \in 1..Len(C.f[q]) : (C.f[q][v] % 2) = 1
Balance == Done /\ Sym => \A q \in 1..NQ : \A b \in 1..NB :
   LET m == out[q][b] w == out[q][NB + 1 - b] IN
   /\ {<<x[1], 1 - x[2]>> : x \in DOMAIN m} = DOMAIN w
   /\ \A x \in DOMAIN m : w[<<x[1], 1 - x[2]>>] = m[x]
AsList(m) == LET RECURSIVE L(_)
                 L(T) == IF T = {} THEN <<>>
                         ELSE LET x == CHOOSE y \in T : TRUE
                              IN <<<<x[1], x[2], m[x]>>>> \o L(T \ {x})
             IN L(DOMAIN m)
Emit == Done => PrintT("@@" \o ToJson([id |-> C.id,
   out |-> [q \in 1..NQ |-> [b \in 1..NB |-> AsList(out[q][b])]]]))
=============================================================================
