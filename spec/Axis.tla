-------------------------------- MODULE Axis --------------------------------
(* Axes of spectra: bin edges and centres, splitting, tick labels.

   A spectrum is a sequence of x values (one per point, or one more: edges),
   the identities of its points, and labels <<index, name>> (index from 0).
   The machine cuts one spectrum of a list into pieces, by positions or at
   wide gaps.  x values are integers; edges, centres and widths are given
   doubled, so that midpoints are integers. *)
EXTENDS Num, Json

CONSTANTS MaxN, MaxSteps, Gaps, Tols, Small
VARIABLES ps, hist
vars == <<ps, hist>>

Last(s) == s[Len(s)]
RECURSIVE Cum(_, _)
Cum(g, k) == IF k = 0 THEN <<0>> ELSE LET t == Cum(g, k - 1) IN Append(t, Last(t) + g[k])
(* n points; gaps g (n - 1 or n of them); sign and offset *)
Spec1(n, g, o, d, labels) ==
  [x |-> [i \in 1..(Len(g) + 1) |-> o + d*Cum(g, Len(g))[i]],
   id |-> [i \in 1..n |-> i], labels |-> labels]
IsEdge(s) == Len(s.x) = Len(s.id) + 1
N(s) == Len(s.id)

Edges2(s) == IF IsEdge(s) THEN [i \in 1..Len(s.x) |-> 2*s.x[i]]
   ELSE <<2*s.x[1]>> \o [i \in 1..(N(s) - 1) |-> s.x[i] + s.x[i + 1]]
        \o <<2*s.x[N(s)]>>
Centres2(s) == IF IsEdge(s) THEN [i \in 1..N(s) |-> s.x[i] + s.x[i + 1]]
               ELSE [i \in 1..N(s) |-> 2*s.x[i]]
Widths2(s) == [i \in 1..N(s) |-> Edges2(s)[i + 1] - Edges2(s)[i]]
Regular(s) == \A i \in 1..N(s) : Widths2(s)[i] = Widths2(s)[1]

(* the part with points from a to b (positions from 0, b excluded; b = -1: to
   the end, with the last edge) *)
Part(s, a, b) ==
  [x  |-> SubSeq(s.x, a + 1, IF b = -1 THEN Len(s.x) ELSE b),
   id |-> SubSeq(s.id, a + 1, IF b = -1 THEN N(s) ELSE b),
   labels |-> LET t == SelectSeq(s.labels, LAMBDA l :
                         l[1] >= a /\ (b = -1 \/ l[1] < b))
              IN [i \in 1..Len(t) |-> <<t[i][1] - a, t[i][2]>>]]
Cut(s, pos) == LET p == <<0>> \o pos \o <<-1>>
               IN [k \in 1..(Len(pos) + 1) |-> Part(s, p[k], p[k + 1])]
AscSeq(S) == LET RECURSIVE A(_)
                 A(T) == IF T = {} THEN <<>>
                         ELSE LET m == CHOOSE m \in T : \A u \in T : m <= u
                              IN <<m>> \o A(T \ {m})
             IN A(S)
(* wide gaps: more than t[1]/t[2] times the median gap *)
Median2(g) == LET n == Len(g)
                  Lt(v) == Cardinality({j \in 1..n : g[j] < v})
                  Le(v) == Cardinality({j \in 1..n : g[j] <= v})
                  At(r) == CHOOSE v \in Range(g) : Lt(v) < r /\ r <= Le(v)
              IN At((n + 1) \div 2) + At((n + 2) \div 2)
Wide(s, t) == LET g == [i \in 1..(Len(s.x) - 1) |-> Abs(s.x[i + 1] - s.x[i])]
              IN IF g = <<>> THEN {}
                 ELSE {j \in 1..Len(g) : 2*g[j]*t[2] > t[1]*Median2(g)}

Pieces(k, cut) == SubSeq(ps, 1, k - 1) \o cut \o SubSeq(ps, k + 1, Len(ps))
Show(s) == [x |-> s.x, id |-> s.id, labels |-> s.labels, edges2 |-> Edges2(s),
            centres2 |-> Centres2(s), widths2 |-> Widths2(s),
            regular |-> Regular(s)]
Log(op, k, args, to) == /\ ps' = to
   /\ hist' = Append(hist, [op |-> op, k |-> k, args |-> args,
                            pieces |-> [i \in 1..Len(to) |-> Show(to[i])]])

Names == {1, 2, 3}
RandLabels(m) == {TLCEval([i \in 1..c |-> <<RandomElement(0..(m - 1)),
                                           RandomElement(Names)>>])
                   : c \in {RandomElement(0..4)}}
RandNew == \E n \in {RandomElement(1..MaxN)} : \E e \in {RandomElement({0, 1})} :
       \E g \in {TLCEval([i \in 1..(n - 1 + e) |-> RandomElement(Gaps)])} :
       \E even \in {RandomElement({TRUE, FALSE, FALSE})} :
       \E o \in {RandomElement(-7..30)} : \E d \in {RandomElement({1, 1, -1})} :
       \E l \in RandLabels(n + e) :
         Log("new", 0, <<>>, <<Spec1(n, IF even THEN [i \in DOMAIN g |-> 3] ELSE g,
                                    o, d, l)>>)
AllNew == \E n \in 1..MaxN : \E e \in {0, 1} : \E g \in [1..(n - 1 + e) -> Gaps] :
       \E S \in SUBSET (0..(n - 1 + e)) :
         Log("new", 0, <<>>, <<Spec1(n, g, 0, 1,
              [i \in 1..Cardinality(S) |-> <<AscSeq(S)[i], 1 + (i % 3)>>])>>)
RandCut == \E k \in {RandomElement(1..Len(ps))} :
           \E S \in {RandomElement({T \in SUBSET (1..(N(ps[k]) - 1)) :
                                     Cardinality(T) <= 3})} :
             Log("indices", k, AscSeq(S), Pieces(k, Cut(ps[k], AscSeq(S))))
AllCut == \E k \in 1..Len(ps) : \E S \in SUBSET (1..(N(ps[k]) - 1)) :
             Log("indices", k, AscSeq(S), Pieces(k, Cut(ps[k], AscSeq(S))))
(* a gap after the last point (edges) would leave nothing behind it *)
Tol == \E k \in 1..Len(ps) : \E t \in Tols :
         LET S == Wide(ps[k], t)
         IN N(ps[k]) \notin S /\
            Log("btol", k, t, Pieces(k, Cut(ps[k], AscSeq(S))))
Init == ps = <<>> /\ hist = <<>>
Next == \/ hist = <<>> /\ (IF Small THEN AllNew ELSE RandNew)
        \/ /\ hist # <<>> /\ Len(hist) <= MaxSteps
           /\ ((IF Small THEN AllCut ELSE RandCut) \/ Tol)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE Joined(_, _)
Joined(f(_), k) == IF k = 0 THEN <<>> ELSE Joined(f, k - 1) \o f(k)
First == hist[1].pieces[1]
(* nothing lost, nothing reordered *)
Whole == hist # <<>> =>
   /\ Joined(LAMBDA k : ps[k].id, Len(ps)) = First.id
   /\ Joined(LAMBDA k : ps[k].x, Len(ps)) = First.x
   /\ \A k \in 1..Len(ps) : N(ps[k]) >= 1
(* every label once, still at the same x *)
LabelX(s, k) == <<s.x[s.labels[k][1] + 1], s.labels[k][2]>>
Count(s, v) == Cardinality({k \in 1..Len(s.labels) : LabelX(s, k) = v})
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f(k)
Labelled == hist # <<>> =>
   \A j \in 1..Len(First.labels) : LET v == LabelX(First, j) IN
      SumTo(LAMBDA k : Count(ps[k], v), Len(ps)) = Count(First, v)
(* centres lie within their bins; bins tile the axis *)
Tile == \A k \in 1..Len(ps) : LET s == ps[k] E == Edges2(s) c == Centres2(s) IN
   /\ Len(E) = N(s) + 1 /\ Len(c) = N(s)
   /\ \A i \in 1..N(s) : (c[i] - E[i])*(E[i + 1] - c[i]) >= 0
   /\ SumTo(LAMBDA i : Widths2(s)[i], N(s)) = Last(E) - E[1]
Emit == Len(hist) = MaxSteps + 1 => PrintT("@@" \o ToJson(hist))
=============================================================================
