------------------------------ MODULE Phonopy -------------------------------
(* A writer of Phonopy's files and what a reader has to find in them.

   Cells: unit cell U, primitive cell P and supercell S (rows are vectors),
       P = (U columns) primitive_matrix,   S = (U columns) supercell_matrix,
   so that in terms of P the supercell is  Super = (Pinv . M)^T.
   Positions are integers in units of 1/D of the primitive cell.  The writer
   lists the atoms of the supercell one at a time, each with the primitive atom
   it is equivalent to and the cell it happens to be in.

   A force constant belongs to a pair of atoms; it depends on the two primitive
   atoms and on the difference of their cells modulo the supercell.  The class
   of a cell modulo the supercell is  Key(c) = c.adj(Super) mod det. *)
EXTENDS Num, Json

CONSTANTS Kind, MaxCells

D == 12
VARIABLES sys, sc, opt, pts
vars == <<sys, sc, opt, pts>>
Rnd(S) == RandomElement(S)

Pinvs == << <<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>,
            <<<<-1,1,1>>,<<1,-1,1>>,<<1,1,-1>>>>,
            <<<<0,1,1>>,<<1,0,1>>,<<1,1,0>>>>,
            <<<<1,0,1>>,<<-1,1,1>>,<<0,-1,1>>>>,
            <<<<1,1,0>>,<<-1,1,0>>,<<0,0,1>>>> >>
Ms == << <<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>, <<<<2,0,0>>,<<0,1,0>>,<<0,0,1>>>>,
         <<<<2,0,0>>,<<0,1,0>>,<<0,0,3>>>>, <<<<2,0,0>>,<<0,2,0>>,<<0,0,2>>>>,
         <<<<1,1,0>>,<<0,2,0>>,<<0,0,1>>>>, <<<<1,0,0>>,<<2,1,0>>,<<0,0,2>>>>,
         <<<<0,1,0>>,<<0,0,1>>,<<1,0,0>>>>, <<<<0,2,0>>,<<0,0,1>>,<<1,0,0>>>>,
         <<<<0,2,0>>,<<0,0,2>>,<<2,0,0>>>>, <<<<1,-1,0>>,<<2,1,0>>,<<0,0,1>>>>,
         <<<<1,0,1>>,<<-1,1,1>>,<<0,-1,1>>>>, <<<<-1,1,1>>,<<1,-1,1>>,<<1,1,-1>>>>,
         <<<<3,0,0>>,<<1,1,0>>,<<0,0,1>>>>, <<<<1,0,0>>,<<3,1,0>>,<<-2,1,2>>>>,
         <<<<-2,0,0>>,<<0,1,0>>,<<0,0,1>>>>, <<<<1,4,0>>,<<0,2,0>>,<<1,0,1>>>> >>
Adj(m) == ITrans(<<ICross(m[2], m[3]), ICross(m[3], m[1]), ICross(m[1], m[2])>>)
SuperOf(p, m) == ITrans(IMatMul(p, m))
Size(p, m) == Abs(IDet(SuperOf(p, m)))
Pairs == {<<a, b>> \in (1..Len(Pinvs)) \X (1..Len(Ms)) : Size(Pinvs[a], Ms[b]) <= MaxCells}

NC == Abs(IDet(sys.super))
NA == Len(sys.r)
Key(c) == LET v == IVMat(c, sys.adj) IN <<v[1] % NC, v[2] % NC, v[3] % NC>>
Floor(v) == <<v[1] \div D, v[2] \div D, v[3] \div D>>
(* cell of an atom when its position is brought into the supercell *)
Wrapped(i, c) ==
  LET s == IF IDet(sys.super) < 0 THEN -1 ELSE 1
      v == IVScale(s, IVMat(IVAdd(sys.r[i], IVScale(D, c)), sys.adj))
      t == <<v[1] \div (D*NC), v[2] \div (D*NC), v[3] \div (D*NC)>>
  IN IVSub(c, IVMat(t, sys.super))
----------------------------------------------------------------------------
Empty == [super |-> IdMat, adj |-> IdMat, pinv |-> IdMat, m |-> IdMat, r |-> <<>>,
          kinds |-> <<>>, reps |-> <<>>]
(* one cell of each class: multiples of the three vectors, each up to where the
   ones before reach the multiple *)
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Reps(a, d) ==
  LET zero(c) == LET w == IVMat(c, a) IN w[1] % d = 0 /\ w[2] % d = 0 /\ w[3] % d = 0
      h1 == Lowest({n \in 1..d : zero(<<n, 0, 0>>)})
      h2 == Lowest({n \in 1..d : \E x \in 0..(h1 - 1) : zero(<<x, n, 0>>)})
  IN [k \in 1..d |-> <<(k - 1) % h1, ((k - 1) \div h1) % h2, (k - 1) \div (h1*h2)>>]
Coords == 0..(D - 1)
Start ==
  \E pr \in {Rnd(Pairs)} : \E n \in {Rnd({1, 2, 2, 3, 3})} : \E out \in {Rnd({0, 0, 1})} :
  \E v \in {TLCEval([i \in 1..n |-> [x \in 1..3 |-> Rnd(Coords) + out*D*Rnd({-1, 0, 0, 1})]])} :
  \E k \in {TLCEval([i \in 1..n |-> Rnd(1..3)])} :
    LET p == Pinvs[pr[1]]
        m == Ms[pr[2]]
        s == SuperOf(p, m)
        d == Abs(IDet(s))
        a == Adj(s)
    IN /\ \A i, j \in 1..n : i # j => \E x \in 1..3 : (v[i][x] - v[j][x]) % D # 0
       /\ sys' = [super |-> s, adj |-> a, pinv |-> p, m |-> m, r |-> v, kinds |-> k,
                  reps |-> Reps(a, d)]
       /\ UNCHANGED <<sc, opt, pts>>
Started == sys.r # <<>>
----------------------------------------------------------------------------
(* supercell: atoms in any order as long as the first ones of each kind come in
   the order of the primitive cell *)
Seen == {sc[a].atom : a \in 1..Len(sc)}
Used(i) == {Key(sc[a].cell) : a \in {a \in 1..Len(sc) : sc[a].atom = i}}
Cand == {i \in 1..NA : Cardinality(Used(i)) < NC /\ \A j \in 1..(i-1) : j \in Seen}
Put == \E i \in {Rnd(Cand)} :
       \E c \in {Rnd({sys.reps[k] : k \in {k \in 1..NC : Key(sys.reps[k]) \notin Used(i)}})} :
       \E t \in {Rnd({0, 0, 0, 1})} :
       \E e \in {TLCEval([x \in 1..3 |-> t*Rnd({-1, 0, 0, 1})])} :
         /\ sc' = Append(sc, [atom |-> i,
                              cell |-> IVAdd(Wrapped(i, c), IVMat(e, sys.super))])
         /\ UNCHANGED <<sys, opt, pts>>
Full == Started /\ Len(sc) = NA*NC

(* force constant of a pair: number of (i, j, class) *)
ClassNo(key) == CHOOSE k \in 1..NC : Key(sys.reps[k]) = key
FcNo(i, j, k) == ((i - 1)*NA + (j - 1))*NC + k
Pair(a, b) == FcNo(sc[a].atom, sc[b].atom,
                   ClassNo(Key(IVSub(sc[b].cell, sc[a].cell))))
First(i) == CHOOSE a \in 1..Len(sc) : sc[a].atom = i /\ \A b \in 1..(a-1) : sc[b].atom # i
(* number of the same pair seen from the other atom *)
Partner(i, j, k) == FcNo(j, i, ClassNo(Key(IVScale(-1, sys.reps[k]))))

(* what has to be found: the reader's atoms are moved into the cell at the
   origin, r - Floor(r), so the cell c of atom j seen from atom i is
   c + Floor(r_i) - Floor(r_j) in terms of the cells of the file *)
Found == [k \in 1..NC |-> [i \in 1..NA |-> [j \in 1..NA |->
   FcNo(i, j, ClassNo(Key(IVAdd(sys.reps[k], IVSub(Floor(sys.r[i]), Floor(sys.r[j]))))))]]]
----------------------------------------------------------------------------
(* options of the files *)
Choose == \E f \in {Rnd({"yaml", "text", "text1", "hdf5"})} : \E sh \in {Rnd({"full", "compact"})} :
          \E ext \in {Rnd({"", ".hdf5", ".h5", ".hd5"})} : \E given \in {Rnd({"", "phonopy", "hdf5"})} :
          \E nac \in {Rnd({"none", "none", "new", "old"})} : \E fac \in {Rnd({TRUE, FALSE})} :
          \E bf \in {Rnd({"", "", "factor", "nofactor"})} : \E u \in {Rnd(1..4)} :
          \E red \in {Rnd({TRUE, FALSE})} : \E both \in {Rnd({TRUE, FALSE})} :
   /\ opt' = [fc |-> f, shape |-> sh, ext |-> ext, given |-> given, nac |-> nac, fac |-> fac,
              born |-> bf, units |-> u, reduced |-> red \/ NC > 1, both |-> both]
   /\ UNCHANGED <<sys, sc, pts>>
Chosen == "none" \notin DOMAIN opt
(* where Born charges, dielectric tensor and the factor come from *)
InSummary == [born |-> opt.nac # "none", factor |-> opt.fac]
Complete == InSummary.born /\ InSummary.factor
ReadBorn == opt.born # "" /\ ~Complete
BornFrom == IF ReadBorn THEN "file" ELSE IF InSummary.born THEN "summary" ELSE "none"
FactorFrom == IF ReadBorn /\ opt.born = "factor" THEN "file"
              ELSE IF InSummary.factor THEN "summary" ELSE "none"
NacOk == BornFrom # "none" => FactorFrom # "none"
(* a file of force constants is read by its format, or its extension *)
InFile == opt.fc # "yaml"
ReadAs == IF opt.given # "" THEN opt.given
          ELSE IF opt.ext \in {".hdf5", ".h5", ".hd5"} THEN "hdf5" ELSE "phonopy"
IsHdf == opt.fc = "hdf5"
(* only ask for what is there *)
Sensible == InFile => ((ReadAs = "hdf5") = IsHdf)
----------------------------------------------------------------------------
(* phonon files: q-points in units 1/D *)
(* (not with TLCEval: TLC evaluates TLCEval of a constant expression only once) *)
NewPoint == \E a \in {Rnd(-D..(2*D))} : \E b \in {Rnd(-D..(2*D))} :
            \E c \in {Rnd(-D..(2*D))} : \E w \in {Rnd(1..8)} :
            pts' = Append(pts, [q |-> <<a, b, c>>, w |-> w]) /\ UNCHANGED <<sys, sc, opt>>
Layout == \E t \in {Rnd({"mesh", "band", "qpoints"})} : \E f \in {Rnd({"yaml", "hdf5"})} :
          \E ev \in {Rnd({TRUE, TRUE, TRUE, FALSE})} : \E st \in {Rnd({0, 0, 0, 0, 1})} :
          \E u \in {Rnd(1..4)} : \E gv \in {Rnd({TRUE, FALSE})} : \E sg \in {Rnd(1..3)} :
   /\ opt' = [type |-> t, form |-> f, evecs |-> ev, strange |-> st = 1, units |-> u,
              given |-> gv, segs |-> sg]
   /\ UNCHANGED <<sys, sc, pts>>
(* structure in the file itself, otherwise in the summary; a strange summary
   has another number of atoms *)
CrystalInside == opt.form = "yaml" /\ opt.type # "qpoints"
PhononOk(evecs) == /\ evecs => opt.evecs
                   /\ CrystalInside \/ ~opt.strange
Weighted == opt.type = "mesh"
Total == LET g(i) == pts[i].w IN SumInt(g, 1, Len(pts))
PhononFound == [
   inside |-> CrystalInside, modes |-> PhononOk(TRUE), freqs |-> PhononOk(FALSE),
   w |-> [i \in 1..Len(pts) |-> IF Weighted THEN Rat(pts[i].w, Total) ELSE Rat(1, Len(pts))],
   (* phase of atom a, in units of 2 pi: the file counts from the atoms, the
      reader from the cells *)
   phase |-> [i \in 1..Len(pts) |-> [a \in 1..NA |->
                Rat(IDot(pts[i].q, sys.r[a]) % (D*D), D*D)]]]
----------------------------------------------------------------------------
Init == sys = Empty /\ sc = <<>> /\ opt = [none |-> TRUE] /\ pts = <<>>
Next == IF ~Started THEN Start
        ELSE IF Kind = "fc" THEN IF ~Full THEN Put ELSE ~Chosen /\ Choose
        ELSE IF ~Chosen THEN Layout
        ELSE Len(pts) < (IF opt.type = "band" THEN 2*opt.segs ELSE 4) /\ NewPoint
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Classes == (Started /\ sc = <<>> /\ ~Chosen) =>
   Cardinality({Key(sys.reps[k]) : k \in 1..Len(sys.reps)}) = NC /\ Len(sys.reps) = NC
(* the supercell holds every atom of every class once *)
Onto == Full => \A i \in 1..NA : Cardinality(Used(i)) = NC
(* rows of all atoms are the rows of the first ones, moved: the compact format
   loses nothing *)
Compact == (Full /\ Chosen /\ Kind = "fc") =>
   \A a \in 1..Len(sc) : LET i == sc[a].atom IN
      {Pair(a, b) : b \in 1..Len(sc)} = {Pair(First(i), b) : b \in 1..Len(sc)}
PartnerTwice == (Started /\ Kind = "fc" /\ sc = <<>>) =>
   \A i, j \in 1..NA : \A k \in 1..NC :
     Partner(j, i, ClassNo(Key(IVScale(-1, sys.reps[k])))) = FcNo(i, j, k)
(* nothing gets lost by moving the atoms *)
FoundAll == (Full /\ Chosen /\ Kind = "fc") =>
   {Found[k][i][j] : k \in 1..NC, i \in 1..NA, j \in 1..NA} = 1..(NA*NA*NC)
Emit == /\ (Kind = "fc" /\ Chosen /\ Sensible) =>
             PrintT("@@" \o ToJson([
               sys |-> sys, sc |-> sc, opt |-> opt,
               reps |-> [i \in 1..NA |-> First(i)],
               rows |-> [a \in 1..Len(sc) |-> [b \in 1..Len(sc) |-> Pair(a, b)]],
               partner |-> [i \in 1..NA |-> [j \in 1..NA |-> [k \in 1..NC |-> Partner(i, j, k)]]],
               found |-> Found, ok |-> NacOk, born |-> BornFrom, factor |-> FactorFrom]))
        /\ (Kind = "phonon" /\ Chosen /\ pts # <<>> /\
            (opt.type = "band" => Len(pts) = 2*opt.segs)) =>
             PrintT("@@" \o ToJson([sys |-> sys, opt |-> opt, pts |-> pts,
                                    found |-> PhononFound]))
=============================================================================
