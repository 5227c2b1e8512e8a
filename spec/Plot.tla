-------------------------------- MODULE Plot --------------------------------
(* A figure of one or several pieces of a spectrum, side by side.  Pieces are
   put together point by point, then drawn one after the other.

   Lines: x are integers, y a sequence of lines.  Maps: x and y are bin edges
   (edges) or centres, z[i][j] the bins, in unit u (1 or 10).  Positions in the
   figure are doubled, so that the middle of a bin is an integer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, MaxPts, NPieces, MaxLines
VARIABLES pieces, opt, axes, phase
vars == <<pieces, opt, axes, phase>>

Rnd(S) == RandomElement(S)
SeqRange(s) == {s[i] : i \in 1..Len(s)}
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
Names == {"A", "B", "G", "a long label"}
Dots == {"", "one", "two"}
None == <<>>

Lines == Kind = "lines"
-----------------------------------------------------------------------------
(* what the pieces look like *)
Values == -3..9
Hole == -100    (* a bin without a value (NaN) *)
Value(dark) == IF dark \/ (~Lines /\ Rnd(1..6) = 1) THEN Hole ELSE Rnd(Values)
Scaled(u, v) == IF v = Hole THEN Hole ELSE u*v
Piece0(x0, e, nl, u) ==
  [x |-> <<x0>>, edges |-> e, y |-> [l \in 1..nl |-> <<>>], ys |-> <<>>,
   ticks |-> None, names |-> [l \in 1..nl |-> Rnd(Dots)], u |-> u,
   (* a map without any value *)
   dark |-> ~Lines /\ Rnd(1..5) = 1]
Cur == pieces[Len(pieces)]
NPts(p) == IF p.edges THEN Len(p.x) - 1 ELSE Len(p.x)
Upd(p) == [pieces EXCEPT ![Len(pieces)] = p]
NewPiece == /\ Len(pieces) < NPieces
   /\ \E x0 \in {Rnd(-2..6)} : \E e \in {Rnd({TRUE, FALSE, FALSE})} :
      \E nl \in {IF pieces = <<>> THEN Rnd(1..MaxLines) ELSE Len(pieces[1].y)} :
      \E u \in {IF Lines THEN 1 ELSE Rnd({1, 1, 10})} :
      LET p == Piece0(x0, IF pieces = <<>> THEN e ELSE pieces[1].edges, nl, u)
          q == IF pieces = <<>> THEN p ELSE [p EXCEPT !.names = pieces[1].names]
          (* maps: edges or centres of the other axis *)
          h == [i \in 1..3 |-> i]
          ys == IF Lines THEN <<>>
                ELSE IF pieces # <<>> /\ Rnd(1..3) # 1 THEN pieces[1].ys
                ELSE [i \in 1..(nl + (IF q.edges THEN 1 ELSE 0)) |-> i*i + Rnd({0, 1, 3})]
      IN pieces' = Append(pieces, [IF q.edges THEN q ELSE
                      [q EXCEPT !.y = [l \in 1..nl |-> <<Value(q.dark)>>]]
                                   EXCEPT !.ys = ys])
   /\ UNCHANGED <<opt, axes, phase>>
(* one more point; without a step it repeats the last one (not for bins) *)
AddPoint == /\ pieces # <<>> /\ NPts(Cur) < MaxPts
   /\ \E dx \in {Rnd(IF Lines /\ ~Cur.edges THEN {0, 1, 2, 5} ELSE {1, 2, 3, 6})} :
      LET p == Cur IN
      pieces' = Upd([p EXCEPT !.x = Append(@, @[Len(@)] + dx),
                              !.y = [l \in 1..Len(@) |-> Append(@[l], Value(p.dark))]])
   /\ UNCHANGED <<opt, axes, phase>>
Tick == /\ pieces # <<>>
   /\ \E i \in {Rnd(1..Len(Cur.x))} : \E s \in {Rnd(Names)} :
      LET t == IF Cur.ticks = None THEN <<>> ELSE Cur.ticks[1] IN
      /\ \A k \in 1..Len(t) : t[k].at < i
      /\ pieces' = Upd([Cur EXCEPT !.ticks = <<Append(t, [at |-> i, name |-> s])>>])
   /\ UNCHANGED <<opt, axes, phase>>
NoTicks == /\ pieces # <<>> /\ Cur.ticks = None
   /\ pieces' = Upd([Cur EXCEPT !.ticks = <<<<>>>>])
   /\ UNCHANGED <<opt, axes, phase>>
(* pieces that can be shown: with some width, with increasing y *)
Wide == \A k \in 1..Len(pieces) : LET p == pieces[k] IN
   /\ NPts(p) > 0 /\ Len(p.x) > 1 /\ SetMax(SeqRange(p.x)) > SetMin(SeqRange(p.x))
   /\ ~Lines => /\ Len(p.ys) > 1 /\ \E q \in SeqRange(pieces) :
                          \E l \in 1..Len(q.y) : \E v \in SeqRange(q.y[l]) : v # Hole
                /\ NPts(p) > 1
                /\ \A i \in 1..(Len(p.ys) - 1) : p.ys[i] < p.ys[i + 1]
AllY == UNION {UNION {SeqRange(p.y[l]) : l \in 1..Len(p.y)} : p \in SeqRange(pieces)}
AllZ == UNION {UNION {{p.u*v : v \in SeqRange(p.y[l]) \ {Hole}} : l \in 1..Len(p.y)} :
                 p \in SeqRange(pieces)}
Span == IF Lines THEN AllY ELSE AllZ
Bottom == SetMin(Span)
Top == SetMax(Span)
Options == /\ phase = "build" /\ Len(pieces) > 0 /\ Wide
   /\ \E lo \in {Rnd({None, None, <<-7>>, <<0>>})} : \E hi \in {Rnd({None, None, <<20>>, <<0>>})} :
      \E lab \in {Rnd({1, 2, 3})} : \E old \in {Rnd({None, <<"earlier">>, <<"older">>})} :
      (* limits that leave something to be seen *)
      opt' = [lo |-> IF lo = <<0>> /\ (hi = <<0>> \/ (hi = None /\ Top <= 0)) THEN None ELSE lo,
              hi |-> IF hi = <<0>> /\ lo # <<-7>> /\ Bottom >= 0 THEN None ELSE hi,
              labels |-> IF Lines /\ lab = 1
                         THEN <<[l \in 1..Len(pieces[1].y) |-> Rnd(Dots)]>> ELSE None,
              (* a line that is there already, with a legend *)
              earlier |-> IF Lines /\ Len(pieces) = 1 THEN old ELSE None]
   /\ phase' = "draw" /\ UNCHANGED <<pieces, axes>>
-----------------------------------------------------------------------------
(* twice the positions of points *)
Centres(x, edges) == IF edges THEN [i \in 1..(Len(x) - 1) |-> x[i] + x[i + 1]]
                     ELSE [i \in 1..Len(x) |-> 2*x[i]]
(* the limits of bins *)
Edges(x, edges) == IF edges THEN [i \in 1..Len(x) |-> 2*x[i]]
   ELSE [i \in 1..(Len(x) + 1) |-> IF i = 1 THEN 2*x[1]
         ELSE IF i = Len(x) + 1 THEN 2*x[Len(x)] ELSE x[i - 1] + x[i]]
(* runs of points that are joined: not over points at the same x *)
RECURSIVE Runs(_, _)
Runs(x, i) == IF i > Len(x) THEN <<>>
              ELSE LET j == SetMax({k \in i..Len(x) : \A m \in i..(k - 1) : x[m] # x[m + 1]})
                   IN <<<<i, j>>>> \o Runs(x, j + 1)
LabelOf(p, l) == IF opt.labels # None THEN opt.labels[1][l] ELSE p.names[l]
Drawn(p) == LET c == Centres(p.x, p.edges)
                r == Runs(c, 1) IN
  [segs |-> [l \in 1..Len(p.y) |-> [k \in 1..Len(r) |->
              [x |-> SubSeq(c, r[k][1], r[k][2]), y |-> SubSeq(p.y[l], r[k][1], r[k][2]),
               name |-> IF k = 1 THEN LabelOf(p, l) ELSE ""]]],
   xlim |-> <<2*SetMin(SeqRange(p.x)), 2*SetMax(SeqRange(p.x))>>,
   ticks |-> IF p.ticks = None THEN None
             ELSE <<[k \in 1..Len(p.ticks[1]) |->
                      [at |-> 2*p.x[p.ticks[1][k].at], name |-> p.ticks[1][k].name]]>>]
Imaged(p) == LET ex == Edges(p.x, p.edges)
                 ey == Edges(p.ys, p.edges) IN
  [x |-> Centres(p.x, p.edges), y |-> Centres(p.ys, p.edges),
   (* rows of the image are at the same y; in the unit of the first piece *)
   z |-> [l \in 1..Len(p.y) |-> [i \in 1..NPts(p) |-> Scaled(p.u, p.y[l][i])]], u |-> pieces[1].u,
   xlim |-> <<ex[1], ex[Len(ex)]>>, ylim |-> <<ey[1], ey[Len(ey)]>>,
   ticks |-> IF p.ticks = None THEN None
             ELSE <<[k \in 1..Len(p.ticks[1]) |->
                      [at |-> 2*p.x[p.ticks[1][k].at], name |-> p.ticks[1][k].name]]>>]
Draw == /\ phase = "draw" /\ Len(axes) < Len(pieces)
        /\ LET p == pieces[Len(axes) + 1]
           IN axes' = Append(axes, IF Lines THEN Drawn(p) ELSE Imaged(p))
        /\ phase' = IF Len(axes') = Len(pieces) THEN "done" ELSE phase
        /\ UNCHANGED <<pieces, opt>>
Init == pieces = <<>> /\ opt = [lo |-> None, hi |-> None, labels |-> None, earlier |-> None]
        /\ axes = <<>> /\ phase = "build"
Build == phase = "build" /\ \E a \in {Rnd(1..12)} :
   \/ (a <= 2 \/ pieces = <<>>) /\ NewPiece
   \/ a \in 3..8 /\ AddPoint
   \/ a \in {9, 10} /\ Tick
   \/ a = 11 /\ NoTicks
   \/ a = 12 /\ Options
Next == Build \/ Draw
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"
(* every point of every line is in one run; runs break where x repeats *)
EveryPoint == (Done /\ Lines) => \A k \in 1..Len(axes) : \A l \in 1..Len(pieces[k].y) :
   LET s == axes[k].segs[l]
       RECURSIVE Cat(_)
       Cat(i) == IF i > Len(s) THEN <<>> ELSE s[i].y \o Cat(i + 1)
   IN /\ Cat(1) = pieces[k].y[l]
      /\ \A i \in 1..Len(s) : \A j \in 1..(Len(s[i].x) - 1) : s[i].x[j] < s[i].x[j + 1]
      /\ \A i \in 1..(Len(s) - 1) : s[i].x[Len(s[i].x)] = s[i + 1].x[1]
      /\ \A i \in 1..Len(s) : \A x \in SeqRange(s[i].x) :
            axes[k].xlim[1] <= x /\ x <= axes[k].xlim[2]
(* bins fill the image *)
EveryBin == (Done /\ ~Lines) => \A k \in 1..Len(axes) : LET a == axes[k] IN
   /\ Len(a.z) = Len(a.y) /\ \A l \in 1..Len(a.z) : Len(a.z[l]) = Len(a.x)
   /\ \A x \in SeqRange(a.x) : a.xlim[1] <= x /\ x <= a.xlim[2]
NewNames == IF Lines THEN {LabelOf(pieces[1], l) : l \in 1..Len(pieces[1].y)} \ {""}
            ELSE {}
(* a legend that is there is brought up to date; none is made *)
Legend == IF opt.earlier = None THEN {} ELSE SeqRange(opt.earlier) \cup NewNames
LegendOk == Done => /\ (opt.earlier = None => Legend = {})
                    /\ (opt.earlier # None => NewNames \subseteq Legend
                                               /\ opt.earlier[1] \in Legend)
Emit == Done => PrintT("@@" \o ToJson([kind |-> Kind, pieces |-> pieces, opt |-> opt,
   axes |-> axes,
   (* the range in which everything is visible *)
   span |-> <<Bottom, Top>>,
   ylim |-> IF Lines THEN <<0, 0>>
            ELSE <<SetMin({axes[k].ylim[1] : k \in 1..Len(axes)}),
                   SetMax({axes[k].ylim[2] : k \in 1..Len(axes)})>>,
   names |-> NewNames, legend |-> Legend]))
=============================================================================
