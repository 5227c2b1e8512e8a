-------------------------------- MODULE Path --------------------------------
(* A path through reciprocal space, one q-point at a time: how long it is so
   far, where it has to be labelled and with which symbols.

   q-points and special points are integer vectors over D.  Gram is the metric
   of the cell; atoms are at R (over rden) with species sp.  Lengths are
   squared, in units of 1/(D^2 det Gram).  *)
EXTENDS Symmetry, Json

CONSTANTS D, Gram, R, rden, sp, Points, Steps, Guard, T, NMoves
(* ops, pmod: point group and special points, constant *)
VARIABLES qs, len2, marks, n, how, ops, pmod
vars == <<qs, len2, marks, n, how, ops, pmod>>

Adj == LET g == Gram IN
  << <<g[2][2]*g[3][3] - g[2][3]*g[3][2], g[1][3]*g[3][2] - g[1][2]*g[3][3],
       g[1][2]*g[2][3] - g[1][3]*g[2][2]>>,
     <<g[2][3]*g[3][1] - g[2][1]*g[3][3], g[1][1]*g[3][3] - g[1][3]*g[3][1],
       g[1][3]*g[2][1] - g[1][1]*g[2][3]>>,
     <<g[2][1]*g[3][2] - g[2][2]*g[3][1], g[1][2]*g[3][1] - g[1][1]*g[3][2],
       g[1][1]*g[2][2] - g[1][2]*g[2][1]>> >>
Len2(v) == IDot(IVMat(v, Adj), v)
Ops == {op.w : op \in SpaceOps(Gram, R, rden, sp)}
Mod1(q) == VMod(q, D)
Zero == <<0, 0, 0>>
AtGamma(q) == Mod1(q) = Zero
(* the same point up to a reciprocal lattice vector: no distance *)
Dist2(p, q) == IF AtGamma(IVSub(q, p)) THEN 0 ELSE Len2(IVSub(q, p))

(* symbols: of the points that are equivalent by symmetry or time reversal *)
Turned(q) == UNION {{Mod1(t), Mod1(IVScale(-1, t))} :
                      t \in {<<IDot(q, w[1]), IDot(q, w[2]), IDot(q, w[3])>> :
                             w \in ops}}
Named(S) == {k \in 1..Len(Points) : pmod[k] \in S}
Symbols(q) == Named(Turned(q))
(* a special point, up to a reciprocal lattice vector, has to have a symbol *)
Special1(q) == Named({Mod1(q)}) # {}
(* the path bends at a point between steps a and b (going straight back is no
   bend); T: the tolerance times D^2 *)
Bend(a, b) == LET t == Abs(IDot(a, b)) + T IN IDot(a, a)*IDot(b, b) > t*t
(* far from the tolerance *)
Clear(a, b) == LET s == IDot(a, a)*IDot(b, b)
                   d == IDot(a, b)
               IN /\ T = 0 => s = d*d \/ s <= Guard*Min2(s - d*d, 10000)
                  /\ T # 0 => s # (Abs(d) + T)*(Abs(d) + T)
(* points i - 1, i, i + 1 *)
Marked(p, q, r) == Bend(IVSub(q, p), IVSub(r, q)) \/ AtGamma(q) \/ r = q

Mark(i, q) == [at |-> i, names |-> Symbols(q), must |-> Special1(q)]
(* go to q: the last point turns out to be a bend, a repeat, ... *)
Go(q) == LET m == Len(qs) IN
  /\ qs' = Append(qs, q)
  /\ len2' = Append(len2, IF m = 0 THEN 0 ELSE Dist2(qs[m], q))
  /\ marks' = IF m = 1 \/ (m > 1 /\ Marked(qs[m - 1], qs[m], q))
              THEN Append(marks, Mark(m - 1, qs[m])) ELSE marks
Ok(q) == LET m == Len(qs) IN
   m > 1 => Clear(IVSub(qs[m], qs[m - 1]), IVSub(q, qs[m]))
Here == qs[Len(qs)]
Did(h) == n' = n - 1 /\ how' = Append(how, h)
Box == -2..2
Rnd(S) == RandomElement(S)
(* a straight run is made point by point: while n is the same *)
Move == \E v \in {Rnd(Steps)} : Ok(IVAdd(Here, v)) /\ Go(IVAdd(Here, v)) /\ Did("move")
Straight == LET v == IVSub(Here, qs[Len(qs) - 1]) IN
   /\ Len(qs) > 1 /\ Ok(IVAdd(Here, v)) /\ Go(IVAdd(Here, v)) /\ Did("straight")
Back == /\ Len(qs) > 1 /\ Go(qs[Len(qs) - 1]) /\ Did("back")
Jump == \E g \in {<<Rnd(Box), Rnd(Box), Rnd(Box)>>} : LET q == IVAdd(Here, IVScale(D, g)) IN
   Ok(q) /\ Go(q) /\ Did("jump")
Repeat == Go(Here) /\ Did("repeat")
Cell == [i \in 1..3 |-> Here[i] \div D]
Special == \E k \in {Rnd(1..Len(Points))} :
           \E g \in {<<Rnd({0, 0, 0, 1, -1}), Rnd({0, 0, 0, 1, -1}), Rnd({0, 0, 0, 1})>>} :
           \E s \in {Rnd({1, 1, -1})} : \E c \in {Rnd({0, 0, 1, 2})} :
   LET p == Points[k]
       r == IF c = 0 THEN p ELSE IF c = 1 THEN <<p[2], p[3], p[1]>> ELSE <<p[3], p[1], p[2]>>
       q == IVAdd(IVScale(s, r), IVScale(D, IVAdd(g, Cell)))
   IN Ok(q) /\ Go(q) /\ Did("special")
Init == qs = <<>> /\ len2 = <<>> /\ marks = <<>> /\ n = NMoves /\ how = <<>>
        /\ ops = TLCEval(Ops)
        /\ pmod = TLCEval([k \in 1..Len(Points) |-> Mod1(Points[k])])
Start == qs = <<>> /\ \E k \in {IF T = 0 THEN Rnd(0..Len(Points)) ELSE 0} :
   Go(IF k = 0 THEN <<Rnd(-D..D), Rnd(-D..D), Rnd(-D..D)>> ELSE Points[k]) /\ Did("start")
Next == /\ n > 0 /\ UNCHANGED <<ops, pmod>>
        /\ \/ Start
           \/ qs # <<>> /\ \E a \in {Rnd(1..12)} :
                 \/ a <= 2 /\ Move
                 \/ a \in 3..6 /\ Straight
                 \/ a \in 3..6 /\ Len(qs) = 1 /\ Move
                 \/ a = 7 /\ Back
                 \/ a = 7 /\ Len(qs) = 1 /\ Repeat
                 \/ a = 8 /\ T = 0 /\ Jump
                 \/ a = 9 /\ Repeat
                 \/ a >= 10 /\ T = 0 /\ Special
                 \/ a >= 10 /\ T # 0 /\ Move
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* all the labels: the last point is always labelled *)
Labels == IF qs = <<>> THEN <<>> ELSE Append(marks, Mark(Len(qs) - 1, Here))
(* labels are in order, first and last point have one *)
Ordered == LET l == Labels IN qs # <<>> =>
   /\ l[1].at = 0 /\ l[Len(l)].at = Len(qs) - 1
   /\ \A i \in 1..(Len(l) - 1) : l[i].at < l[i + 1].at
(* equivalent points have the same symbols *)
Equivalent == qs # <<>> => LET q == Here IN
   /\ \A t \in {RandomElement(Turned(q))} : Symbols(t) = Symbols(q)
   /\ Named({Mod1(q)}) \subseteq Symbols(q)
(* symmetry does not change lengths *)
Isometry == qs # <<>> => \A w \in ops :
   Len2(<<IDot(Here, w[1]), IDot(Here, w[2]), IDot(Here, w[3])>>) = Len2(Here)
Straightness == \A i \in 2..(Len(qs) - 1) :
   (IVSub(qs[i + 1], qs[i]) = IVSub(qs[i], qs[i - 1]) /\ ~AtGamma(qs[i])
      /\ qs[i] # qs[i + 1]) => \A k \in 1..Len(marks) : marks[k].at # i - 1
Emit == (n = 0) => PrintT("@@" \o ToJson([qs |-> qs, len2 |-> len2, how |-> how,
                     labels |-> Labels]))
=============================================================================
