------------------------------- MODULE Collect -------------------------------
(* Spectrum collections.

   The abstract value of a collection is a sequence of lines, each with its
   data and its complete metadata (a map from some keys to values), and a
   display unit.  How shared metadata is stored is derived (Common, Rest).  Each
   action is one public call; refused calls leave the collection as it is.
   Arguments are drawn at random (simulation); the history carries what has to
   be observed after each call. *)
EXTENDS Num, Json

CONSTANTS NKeys, NVals, NX, MaxLines, MaxSteps, Units
Keys == 1..NKeys
VARIABLES lines, unit, hist
vars == <<lines, unit, hist>>

(* random choices are bound with \E over a one-element set, so that each is
   drawn once; they have a parameter because TLC evaluates constant definitions
   once and for all *)
RandMd(i) == RandomElement(UNION {[ks -> 1..NVals] : ks \in SUBSET Keys})
RandY(i) == TLCEval([x \in 1..NX |-> RandomElement(-9..9)])
(* often the same value for a key in all lines *)
RandLines(n) == {TLCEval([i \in 1..n |-> [y |-> RandY(i), md |-> TLCEval(sh @@ RandMd(i))]])
                  : sh \in {RandMd(0)}}
RandSeq(S, ns) == {TLCEval([k \in 1..n |-> RandomElement(S)])
                    : n \in {RandomElement(ns)}}
RandPerm(S) == RandomElement({p \in [1..Cardinality(S) -> S] :
                                \A i, j \in DOMAIN p : i # j => p[i] # p[j]})
(* metadata as stored: key-value pairs common to all lines, and the rest *)
Common(ls) == IF ls = <<>> THEN [k \in {} |-> 0] ELSE LET ks == {k \in Keys : /\ \A i \in 1..Len(ls) : k \in DOMAIN ls[i].md
                                      /\ \A i \in 1..Len(ls) : ls[i].md[k] = ls[1].md[k]}
              IN [k \in ks |-> ls[1].md[k]]
Rest(ls, i) == [k \in (DOMAIN ls[i].md) \ (DOMAIN Common(ls)) |-> ls[i].md[k]]
AsPairs(f) == LET RECURSIVE L(_)
                  L(S) == IF S = {} THEN <<>>
                          ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j
                               IN <<<<k, f[k]>>>> \o L(S \ {k})
              IN L(DOMAIN f)
RECURSIVE SumY(_, _)
SumY(ls, n) == IF n = 0 THEN [x \in 1..NX |-> 0]
               ELSE [x \in 1..NX |-> SumY(ls, n - 1)[x] + ls[n].y[x]]
Total(ls) == [y |-> SumY(ls, Len(ls)), md |-> Common(ls)]
Obs(ls) == [lines  |-> [i \in 1..Len(ls) |-> [y |-> ls[i].y, md |-> AsPairs(ls[i].md)]],
            common |-> AsPairs(Common(ls)),
            rest   |-> [i \in 1..Len(ls) |-> AsPairs(Rest(ls, i))],
            sum    |-> [y |-> Total(ls).y, md |-> AsPairs(Total(ls).md)]]
Log(op, args, ls, u, ok) ==
   hist' = Append(hist, [op |-> op, args |-> args, ok |-> ok, unit |-> u,
                         obs |-> Obs(ls)])
To(op, args, ls) == lines' = ls /\ unit' = unit /\ Log(op, args, ls, unit, TRUE)
Refuse(op, args) == UNCHANGED <<lines, unit>> /\ Log(op, args, lines, unit, FALSE)

Init == lines = <<>> /\ unit = 1 /\ hist = <<>>
New == \E n \in {RandomElement(1..5)} : \E ls \in RandLines(n) :
       \E how \in {RandomElement(1..3)} :
        hist = <<>> /\ To("new", <<how>>, ls)
N == Len(lines)
(* python index, negative from the end *)
At(i) == IF i < 0 THEN lines[N + i + 1] ELSE lines[i + 1]
Valid(i) == i < N /\ i >= -N
RECURSIVE PickLines(_, _)
PickLines(s, k) == IF k = 0 THEN <<>> ELSE Append(PickLines(s, k - 1), At(s[k]))

Take == \E s \in RandSeq((-N)..(N - 1), 1..4) : To("take", s, PickLines(s, Len(s)))
TakeBad == \E s \in RandSeq({-N - 1, N, N + 2, 0}, 1..3) :
              (\E k \in 1..Len(s) : ~Valid(s[k])) /\ Refuse("take", s)
(* lo, hi, step: half-open ranges, hi below the length or open (-99) *)
Slice == \E lo \in {RandomElement(0..(N - 1))} :
         \E hi \in {RandomElement({-99} \cup {h \in 1..(N - 1) : h > lo})} :
         \E st \in {RandomElement(1..3)} :
         LET end == IF hi = -99 THEN N ELSE hi
             idx == SelectSeq([j \in 1..N |-> lo + (j - 1)*st],
                              LAMBDA x : x < end)
         IN To("slice", <<lo, hi, st>>, PickLines(idx, Len(idx)))
SliceBad == \E h \in {RandomElement({N + 1, N + 3})} : Refuse("slice", <<0, h, 1>>)
(* concatenate with some of its own lines, or with a new collection *)
AddSelf == \E s \in RandSeq((-N)..(N - 1), 1..2) :
             N + Len(s) <= MaxLines
             /\ To("addself", s, lines \o PickLines(s, Len(s)))
AddNew == \E n \in {RandomElement(1..2)} : \E l2 \in RandLines(n) :
             N + n <= MaxLines /\ To("addnew", Obs(l2).lines, lines \o l2)
(* select: some keys, each with one or more values *)
Matches(l, q) == \A k \in DOMAIN q : k \in DOMAIN l.md /\ l.md[k] = q[k]
RECURSIVE Product(_, _)     \* combinations, first key slowest
Product(ks, vs) == IF ks = <<>> THEN <<<<>>>>
                   ELSE LET t == Product(Tail(ks), Tail(vs))
                            RECURSIVE Each(_)
                            Each(v) == IF v = <<>> THEN <<>>
                               ELSE [j \in 1..Len(t) |-> <<Head(v)>> \o t[j]]
                                    \o Each(Tail(v))
                        IN Each(Head(vs))
(* lists of distinct values *)
ValueLists == UNION {{p \in [1..n -> 1..NVals] : \A i, j \in 1..n : i # j => p[i] # p[j]}
                      : n \in 1..NVals}
RECURSIVE SelectFor(_, _)
SelectFor(ks, combos) == IF combos = <<>> THEN <<>>
   ELSE LET q == [k \in Range(ks) |-> Head(combos)[CHOOSE j \in 1..Len(ks) : ks[j] = k]]
        IN SelectSeq(lines, LAMBDA l : Matches(l, q)) \o SelectFor(ks, Tail(combos))
Select == \E ks \in {RandPerm(S) : S \in {RandomElement({s \in SUBSET Keys :
                                            Cardinality(s) \in {1, 2}})}} :
          \E vs \in {TLCEval([j \in 1..Len(ks) |-> RandomElement(ValueLists)])} :
          LET got == SelectFor(ks, Product(ks, vs))
          IN IF got = <<>> THEN Refuse("select", [j \in 1..Len(ks) |-> <<ks[j], vs[j]>>])
             ELSE To("select", [j \in 1..Len(ks) |-> <<ks[j], vs[j]>>], got)
(* grouping by the values of keys; a missing key is a value of its own *)
KeyOf(l, ks) == [j \in 1..Len(ks) |-> IF ks[j] \in DOMAIN l.md
                                      THEN l.md[ks[j]] ELSE 0]
RECURSIVE Groups(_, _)
Groups(ls, ks) == IF ls = <<>> THEN <<>>
   ELSE LET k == KeyOf(Head(ls), ks)
        IN <<Total(SelectSeq(ls, LAMBDA l : KeyOf(l, ks) = k))>>
           \o Groups(SelectSeq(ls, LAMBDA l : KeyOf(l, ks) # k), ks)
GroupBy == \E ks \in {RandPerm(S) : S \in {RandomElement((SUBSET Keys) \ {{}})}} :
             To("group", ks, Groups(lines, ks))
SetUnit == \E u \in {RandomElement(1..Units)} :
             /\ unit' = u /\ UNCHANGED lines /\ Log("unit", <<u>>, lines, u, TRUE)
Scale == \E f \in {RandomElement({2, 3, -1})} :
         LET small == \A i \in 1..N : \A x \in 1..NX : Abs(lines[i].y[x]) < 1000
         IN small /\ To("scale", <<f>>, [i \in 1..N |->
               [lines[i] EXCEPT !.y = [x \in 1..NX |-> f * lines[i].y[x]]]])
Copy == To("copy", <<>>, lines)
Use == /\ hist # <<>> /\ Len(hist) <= MaxSteps
       /\ \/ Take \/ TakeBad \/ Slice \/ SliceBad \/ AddSelf \/ AddNew
          \/ Select \/ GroupBy \/ SetUnit \/ Scale \/ Copy
Next == New \/ Use
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* factoring loses nothing *)
Restores == \A i \in 1..N : Common(lines) @@ Rest(lines, i) = lines[i].md
Separate == \A i \in 1..N : DOMAIN Common(lines) \cap DOMAIN Rest(lines, i) = {}
(* grouping preserves the sum, and groups are told apart by their keys *)
GroupSum == N = 0 \/ \A k \in Keys : Total(Groups(lines, <<k>>)).y = Total(lines).y
GroupOnce == N = 0 \/ \A k \in Keys : LET g == Groups(lines, <<k>>) IN
                \A i, j \in 1..Len(g) : i # j => KeyOf(g[i], <<k>>) # KeyOf(g[j], <<k>>)
Emit == Len(hist) = MaxSteps + 1 => PrintT("@@" \o ToJson(hist))
=============================================================================
