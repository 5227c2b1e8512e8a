------------------------------ MODULE Broaden -------------------------------
(* Broadening of spectra.

   Data are integers on an even grid.  Broadening replaces every point by its
   value times a kernel of the distance (in bins) along each broadened axis;
   the kernel may depend on the point (width class along the axis).  The
   result at a point is kept symbolic: a map from <<distance along x, distance
   along y, width class>> to the sum of the data at that distance, so that any
   symmetric kernel can be put in.  The machine spreads one point at a time. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, k, out
vars == <<c, k, out>>
C == Cases[c]
N1 == C.n[1]
N2 == C.n[2]
Pts == (1..N1) \X (1..N2)
Src == C.src        \* <<i, j, value>>
Cls(s) == IF C.on[1] THEN C.cls[s[1]] ELSE C.cls[s[2]]
(* where a source goes, and at which distance *)
Reach(s) == {p \in Pts : (C.on[1] \/ p[1] = s[1]) /\ (C.on[2] \/ p[2] = s[2])}
Key(p, s) == <<Abs(p[1] - s[1]), Abs(p[2] - s[2]), Cls(s)>>
Get(m, q) == IF q \in DOMAIN m THEN m[q] ELSE 0
Add(m, q, v) == [r \in (DOMAIN m) \cup {q} |-> Get(m, r) + (IF r = q THEN v ELSE 0)]
Empty == [p \in Pts |-> [q \in {} |-> 0]]
Spread(o, s) == [p \in Pts |-> IF p \in Reach(s) THEN Add(o[p], Key(p, s), s[3])
                               ELSE o[p]]
Init == c \in 1..Len(Cases) /\ k = 0 /\ out = Empty
Next == k < Len(Src) /\ k' = k + 1 /\ out' = Spread(out, Src[k + 1]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == k = Len(Src)
(* direct definition: all data at a distance *)
SumS(S) == LET RECURSIVE T(_)
               T(i) == IF i = 0 THEN 0 ELSE T(i - 1) + (IF i \in S THEN Src[i][3] ELSE 0)
           IN T(k)
Direct == Done => \A p \in Pts : \A q \in DOMAIN out[p] :
   out[p][q] = SumS({i \in 1..k : p \in Reach(Src[i]) /\ Key(p, Src[i]) = q})
(* symmetric: the mirrored point sees the mirrored data *)
Mirror(s) == <<N1 + 1 - s[1], N2 + 1 - s[2], s[3]>>
Uniform == \A i \in 1..Len(C.cls) : C.cls[i] = C.cls[1]
RECURSIVE All(_, _, _)
All(o, ss, n) == IF n = 0 THEN o ELSE Spread(All(o, ss, n - 1), ss[n])
Mirrored == Done /\ Uniform =>
   LET m == All(Empty, [i \in 1..Len(Src) |-> Mirror(Src[i])], Len(Src))
   IN \A p \in Pts : m[<<N1 + 1 - p[1], N2 + 1 - p[2]>>] = out[p]
(* each source is counted once at its own place *)
Whole == LET RECURSIVE T(_)
             T(S) == IF S = {} THEN 0
                     ELSE LET p == CHOOSE p \in S : TRUE
                          IN T(S \ {p}) + LET RECURSIVE U(_)
                               U(Q) == IF Q = {} THEN 0 ELSE LET q == CHOOSE q \in Q : TRUE
                                   IN U(Q \ {q}) + (IF q[1] = 0 /\ q[2] = 0 THEN out[p][q] ELSE 0)
                              IN U(DOMAIN out[p])
         IN Done => T(Pts) = SumS(1..k)
AsList(m) == LET RECURSIVE L(_)
                 L(S) == IF S = {} THEN <<>>
                         ELSE LET q == CHOOSE q \in S : TRUE
                              IN <<<<q[1], q[2], q[3], m[q]>>>> \o L(S \ {q})
             IN L(DOMAIN m)
Emit == Done => PrintT("@@" \o ToJson([id |-> C.id,
   out |-> [i \in 1..N1 |-> [j \in 1..N2 |-> AsList(out[<<i, j>>])]]]))
=============================================================================
