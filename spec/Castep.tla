------------------------------- MODULE Castep -------------------------------
(* A writer of CASTEP files, one block or record at a time, and what a reader
   has to find in them.

   .phonon: q-point blocks; a block can be given again for the same q-point
   number, with a direction (LO-TO splitting) or without.
   .phonon_dos: blocks with gradients, then rows of a DOS.
   .castep_bin: Fortran records: name of a field, then its value; arrays are
   written with the first index fastest.  Values are numbered, so that every
   number of the file can be recognised. *)
EXTENDS Num, Json

CONSTANTS MaxBlocks, Kind
VARIABLES crystal, blocks, recs, state, n
vars == <<crystal, blocks, recs, state, n>>

Rnd(S) == RandomElement(S)
Last(s) == s[Len(s)]
----------------------------------------------------------------------------
(* text files *)
Block(id, q, w, dir) == [id |-> id, q |-> q, w |-> w, dir |-> dir, serial |-> Len(blocks) + 1]
NewPoint == \E w \in {Rnd(1..9)} : \E q \in {Rnd(1..4)} : \E d \in {Rnd({0, 0, 1, 2})} :
   blocks' = Append(blocks, Block(IF blocks = <<>> THEN 1 ELSE Last(blocks).id + 1,
                                  q, w, d))
Again == \E d \in {Rnd({0, 1, 2, 3})} :
   blocks # <<>> /\ LET b == Last(blocks) IN
      blocks' = Append(blocks, Block(b.id, b.q, b.w, d))
(* the DOS rows follow the last block *)
Row == /\ Kind = "dos" /\ blocks # <<>> /\ state \in {"", "rows"}
       /\ state' = "rows" /\ recs' = Append(recs, Len(recs) + 1)
       /\ UNCHANGED blocks

Group(id) == {k \in 1..Len(blocks) : blocks[k].id = id}
Split(S) == {k \in S : blocks[k].dir # 0}
(* weights of all blocks after the repeated ones have been dealt with *)
Weight(k, avg, prefer) ==
  LET G == Group(blocks[k].id)
      S == Split(G)
      w == RInt(blocks[k].w)
  IN IF Cardinality(G) = 1 THEN w
     ELSE IF prefer /\ S # {} /\ S # G THEN (IF k \in S THEN RZero ELSE w)
     ELSE IF avg THEN RDiv(w, RInt(Cardinality(G))) ELSE w
Unclear(prefer) == prefer /\ \E k \in 1..Len(blocks) :
   LET G == Group(blocks[k].id)
       S == Split(G)
   IN S # {} /\ Cardinality(G \ S) > 1
Options == <<[avg |-> TRUE, prefer |-> FALSE], [avg |-> FALSE, prefer |-> FALSE],
             [avg |-> TRUE, prefer |-> TRUE], [avg |-> FALSE, prefer |-> TRUE]>>
Outcome(o) == [avg |-> o.avg, prefer |-> o.prefer, ok |-> ~Unclear(o.prefer),
               w |-> [k \in 1..Len(blocks) |-> Weight(k, o.avg, o.prefer)]]
----------------------------------------------------------------------------
(* records *)
N == ISeqSum(crystal.count)
MaxIn == LET s == Range(crystal.count) IN CHOOSE m \in s : \A x \in s : x <= m
S == Len(crystal.count)
(* atoms in order; ion i of species s; padding up to MaxIn *)
Ion(a) == LET RECURSIVE F(_, _)
              F(s, k) == IF k <= crystal.count[s] THEN <<s, k>>
                         ELSE F(s + 1, k - crystal.count[s])
          IN F(1, a)
(* numbered values: position x of atom a is 10a + x; junk is 0 *)
Positions == [f \in 1..(S*MaxIn*3) |->
   LET s == (f - 1) \div (3*MaxIn) + 1
       i == (((f - 1) \div 3) % MaxIn) + 1
       x == ((f - 1) % 3) + 1
   IN IF i > crystal.count[s] THEN 0
      ELSE 10*(CHOOSE a \in 1..N : Ion(a) = <<s, i>>) + x]
(* matrix m(row, column) = 10 row + column, first index fastest *)
Mat33 == [f \in 1..9 |-> 10*(((f - 1) % 3) + 1) + (f - 1) \div 3 + 1]
(* vector v, component x: 10v + x; the vectors are the rows *)
CellFlat == Mat33
(* force constant between i (of 3N) in the cell at the origin and j in cell c:
   the reader shows it as [c][i][j] *)
NC == crystal.cells
FcId(c, i, j) == (c - 1)*9*N*N + (i - 1)*3*N + j
FcFlat == [f \in 1..(NC*9*N*N) |->
   LET c == (f - 1) \div (9*N*N) + 1
       j == (((f - 1) \div (3*N)) % (3*N)) + 1
       i == ((f - 1) % (3*N)) + 1
   IN FcId(c, i, j)]
(* Born charges: in the order of the file; dielectric matrix, row by row *)
BornFlat == [f \in 1..(9*N) |-> f]
Rec(name, v) == [name |-> name, v |-> v]
CellBlock(second) == <<
   Rec("BEGIN_UNIT_CELL", <<>>), Rec("CELL%REAL_LATTICE", <<CellFlat, second>>),
   Rec("CELL%NUM_SPECIES", S), Rec("CELL%NUM_IONS", N),
   Rec("CELL%IONIC_POSITIONS", <<Positions, second>>),
   Rec("CELL%SPECIES_MASS", second), Rec("CELL%SPECIES_SYMBOL", <<>>),
   Rec("END_UNIT_CELL", <<>>)>>
(* number of ions per species has to be known before the positions *)
WithCounts(b) == SubSeq(b, 1, 3) \o <<Rec("CELL%NUM_IONS_IN_SPECIES", crystal.count)>>
                 \o SubSeq(b, 4, Len(b))
Has(name) == \E k \in 1..Len(recs) : recs[k].name = name
Cells == Cardinality({k \in 1..Len(recs) : recs[k].name = "BEGIN_UNIT_CELL"})
Put(rs) == recs' = recs \o rs
Version == ~Has("BEGIN_PARAMETERS_DUMP") /\ \E v \in {Rnd(1..5)} :
             Put(<<Rec("BEGIN_PARAMETERS_DUMP", v)>>)
Cell == Cells < 2 /\ Put(WithCounts(CellBlock(IF Cells = 0 THEN 0 ELSE 1)))
Unknown == Put(<<Rec("OTHER", Rnd(1..6))>>)
ForceCon == Cells > 0 /\ ~Has("FORCE_CON") /\ Put(<<Rec("FORCE_CON", <<Mat33, FcFlat>>)>>)
Dipoles == /\ Cells > 0 /\ ~Has("BORN_CHGS")
           /\ \E o \in {Rnd({TRUE, FALSE})} :
              LET b == Rec("BORN_CHGS", BornFlat)
                  d == Rec("DIELECTRIC", Mat33)
              IN Put(IF o THEN <<b, d>> ELSE <<d, b>>)
End == /\ Cells > 0 /\ \E e \in {Rnd({"end", "end", "end", "cut", "marker"})} :
          (state' = e /\ UNCHANGED recs)
(* versions 1 and 2 are too old *)
Readable == /\ state = "end" /\ Has("FORCE_CON")
            /\ \A k \in 1..Len(recs) : recs[k].name = "BEGIN_PARAMETERS_DUMP" => recs[k].v > 2
Found == [cell |-> [v \in 1..3 |-> [x \in 1..3 |-> 10*v + x]],
          r |-> [a \in 1..N |-> [x \in 1..3 |-> 10*a + x]],
          species |-> [a \in 1..N |-> Ion(a)[1]],
          fc |-> [c \in 1..NC |-> [i \in 1..(3*N) |-> [j \in 1..(3*N) |-> FcId(c, i, j)]]],
          born |-> Has("BORN_CHGS"),
          sc |-> [i \in 1..3 |-> [j \in 1..3 |-> 10*i + j]],
          eps |-> [i \in 1..3 |-> [j \in 1..3 |-> 10*i + j]]]
----------------------------------------------------------------------------
Init == /\ blocks = <<>> /\ recs = <<>> /\ state = "" /\ n = MaxBlocks
        /\ crystal = [count |-> <<>>, cells |-> 0]
NewCrystal == \E s \in {Rnd(1..3)} : \E c \in {TLCEval([i \in 1..s |-> Rnd(1..(IF Kind = "bin" THEN 2 ELSE 3))])} :
              \E m \in {Rnd(1..4)} :
   /\ crystal' = [count |-> c, cells |-> m]
   /\ UNCHANGED <<blocks, recs, state, n>>
Text == \/ (NewPoint /\ UNCHANGED <<recs, state>>)
        \/ (Kind = "phonon" /\ Again /\ UNCHANGED <<recs, state>>)
Bin == \/ ((Version \/ Cell \/ Unknown \/ ForceCon \/ Dipoles) /\ UNCHANGED state)
       \/ (n < 3 /\ End)
Next == IF crystal.count = <<>> THEN NewCrystal
        ELSE /\ n > 0 /\ state \notin {"end", "cut", "marker"}
             /\ n' = n - 1 /\ UNCHANGED crystal
             /\ \/ Kind # "bin" /\ state = "" /\ Text
                \/ Kind = "dos" /\ Row
                \/ Kind = "bin" /\ Bin /\ UNCHANGED blocks
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* the weights of a point given several times still add up to its weight,
   unless they are taken as they are *)
RECURSIVE SumW(_, _)
SumW(T, o) == IF T = {} THEN RZero ELSE LET k == CHOOSE k \in T : TRUE
              IN RAdd(Weight(k, o.avg, o.prefer), SumW(T \ {k}, o))
Conserved == \A k \in 1..Len(blocks) : \A i \in 1..4 : LET o == Options[i] IN
   (o.avg /\ ~Unclear(o.prefer)) => SumW(Group(blocks[k].id), o) = RInt(blocks[k].w)
(* nothing is written twice, everything is written *)
Onto == (crystal.count # <<>> /\ Kind = "bin" /\ n = MaxBlocks) =>
   /\ Range(FcFlat) = 1..(NC*9*N*N)
   /\ {10*a + x : a \in 1..N, x \in 1..3} \subseteq Range(Positions)
   /\ \A c \in 1..NC : \A i, j \in 1..(3*N) :
         FcFlat[(c - 1)*9*N*N + (j - 1)*3*N + i] = FcId(c, i, j)
Done == n = 0 \/ state \in {"end", "cut", "marker"}
Emit == Done => PrintT("@@" \o ToJson(
   IF Kind = "bin" THEN [crystal |-> crystal, recs |-> recs, state |-> state,
                         ok |-> Readable, found |-> Found]
   ELSE [crystal |-> crystal, blocks |-> blocks, rows |-> Len(recs),
         species |-> [a \in 1..N |-> Ion(a)[1]],
         out |-> [i \in 1..4 |-> Outcome(Options[i])]]))
=============================================================================
