------------------------------ MODULE TextFile -------------------------------
(* Writing a spectrum to a text file: the spectrum is put together point by
   point and value by value, then written line by line.

   Data are in quarters, so centres of bins are in eighths, and every column
   can be printed exactly: as it is ("all"), with one or two decimals (ties to
   even), or as a whole number (towards zero).  A cell is <<format, number>>, the
   number counting the last digit printed (or eighths). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPts, MaxLines
VARIABLES sp, fmt, file, phase
vars == <<sp, fmt, file, phase>>

Rnd(S) == RandomElement(S)
Formats == {"all", "two", "one", "whole"}
Keys == {"label", "index", "a key"}
Texts == {"total", "Na", "a # b", "1"}
Ints == {0, 3, -2}
(* what is known of all lines, or of one *)
Meta(z) == [k \in {Rnd(Keys), Rnd(Keys)} |->
           IF k = "index" THEN [i |-> Rnd(Ints), t |-> ""] ELSE [i |-> 0, t |-> Rnd(Texts)]]
NL == Len(sp.y)
-----------------------------------------------------------------------------
Init == /\ sp = [y |-> <<>>] /\ fmt = <<>> /\ file = [head |-> <<>>, rows |-> <<>>] /\ phase = "new"
New == /\ phase = "new" /\ phase' = "data" /\ UNCHANGED <<fmt, file>>
       /\ \E nl \in {Rnd(1..MaxLines)} : \E one \in {Rnd({TRUE, FALSE})} :
           sp' = [x |-> <<Rnd(-9..9)>>, edges |-> Rnd({TRUE, FALSE}), y |-> [l \in 1..nl |-> <<>>],
                  lone |-> nl = 1 /\ one, common |-> <<>>, lines |-> <<>>,
                  (* data are shown in other units than given *)
                  units |-> Rnd(1..6), conv |-> FALSE]
AddPoint == /\ phase = "data" /\ Len(sp.x) <= MaxPts
            /\ \E dx \in {Rnd(1..9)} :
               sp' = [sp EXCEPT !.x = Append(@, @[Len(@)] + dx),
                                !.y = [l \in 1..NL |-> Append(@[l], Rnd(-30..30))]]
            /\ UNCHANGED <<fmt, file, phase>>
Describe == /\ phase = "data" /\ Len(sp.x) > 2 /\ phase' = "write"
         /\ \E n \in {Rnd(0..3)} : \E f \in {[i \in 1..(NL + 1) |-> Rnd(Formats)]} :
            /\ fmt' = CASE n \in {0, 1} -> <<>> [] n = 2 -> <<f[1]>>
                        [] OTHER -> f
            /\ \E l \in {Rnd({0, 1, 2})} : \E c \in {Rnd({0, 1})} :
               \E md \in {[j \in 1..(NL + 1) |-> Meta(j)]} :
               sp' = [sp EXCEPT
                 !.common = IF c = 0 THEN <<>> ELSE <<md[NL + 1]>>,
                 !.lines = IF l = 0 \/ sp.lone THEN <<>> ELSE [k \in 1..NL |-> md[k]],
                 !.y = IF sp.edges THEN @ ELSE [k \in 1..NL |-> Append(@[k], Rnd(-30..30))],
                 !.conv = n = 0]
         /\ UNCHANGED file
-----------------------------------------------------------------------------
NPts == Len(sp.y[1])
Centre8(i) == IF sp.edges THEN sp.x[i] + sp.x[i + 1] ELSE 2*sp.x[i]
Data8(c, i) == IF c = 1 THEN Centre8(i) ELSE 2*sp.y[c - 1][i]
Abs(a) == IF a < 0 THEN -a ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE 1
(* a/b to the nearest whole number, ties to even *)
Round(a, b) == LET q == Abs(a) \div b
                   r == Abs(a) % b
               IN Sign(a)*(IF 2*r > b \/ (2*r = b /\ q % 2 = 1) THEN q + 1 ELSE q)
Trunc(a, b) == Sign(a)*(Abs(a) \div b)
FormatOf(c) == IF fmt = <<>> THEN "all" ELSE IF Len(fmt) = 1 THEN fmt[1] ELSE fmt[c]
Cell(c, i) == LET n == Data8(c, i)
                  f == FormatOf(c)
              IN <<f, CASE f = "all" -> n [] f = "two" -> Round(100*n, 8)
                        [] f = "one" -> Round(10*n, 8) [] OTHER -> Trunc(n, 8)>>
Merge(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
HeadLine == /\ phase = "write" /\ Len(file.head) < NL
        /\ LET l == Len(file.head) + 1
               c == IF sp.common = <<>> THEN <<>> ELSE sp.common[1]
               m == IF sp.lines = <<>> THEN <<>> ELSE sp.lines[l]
           IN file' = [file EXCEPT !.head = Append(@, Merge(c, m))]
        /\ UNCHANGED <<sp, fmt, phase>>
Row == /\ phase = "write" /\ Len(file.head) = NL
       /\ LET i == Len(file.rows) + 1 IN
          /\ file' = [file EXCEPT !.rows = Append(@, [c \in 1..(NL + 1) |-> Cell(c, i)])]
          /\ phase' = IF i = NPts THEN "done" ELSE phase
       /\ UNCHANGED <<sp, fmt>>
Next == New \/ AddPoint \/ Describe \/ HeadLine \/ Row
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"
(* every point of every line is in the file once, to the accuracy of its format *)
Faithful == Done =>
   /\ Len(file.rows) = NPts /\ Len(file.head) = NL
   /\ \A i \in 1..NPts : \A c \in 1..(NL + 1) :
        LET e == file.rows[i][c]
            n == Data8(c, i)
        IN CASE e[1] = "all" -> e[2] = n
             [] e[1] = "two" -> 2*Abs(8*e[2] - 100*n) <= 8
             [] e[1] = "one" -> 2*Abs(8*e[2] - 10*n) <= 8
             [] OTHER -> Abs(8*e[2] - n) < 8 /\ Abs(8*e[2]) <= Abs(n)
Ascending == Done => \A i \in 2..NPts : file.rows[i][1][2] >= file.rows[i - 1][1][2]
Emit == Done => PrintT("@@" \o ToJson([sp |-> sp, fmt |-> fmt, file |-> file]))
=============================================================================
