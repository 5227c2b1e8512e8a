------------------------------- MODULE RefData -------------------------------
(* Reference data of elements: a file is written property by property and value
   by value; then somebody asks for a property, or for a quantity of a crystal
   that needs properties.  The answer is put together value by value.

   Numbers are in hundredths; units are multiples of fm or of mbarn.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxProps, MaxVals
VARIABLES file, ask, todo, got, err, phase
vars == <<file, ask, todo, got, err, phase>>

Rnd(S) == RandomElement(S)
SeqRange(s) == {s[i] : i \in 1..Len(s)}
Names == {"coherent_scattering_length", "coherent_cross_section",
          "incoherent_cross_section", "other"}
Elements == {"Na", "Cl", "H", "D"}
(* unit |-> dimension, number of fm or mbarn *)
Units == [u \in {"fm", "10 fm", "angstrom", "barn", "mbarn", "fm**2", "florin", "amu"} |->
   CASE u = "fm" -> <<"length", 1>> [] u = "10 fm" -> <<"length", 10>>
     [] u = "angstrom" -> <<"length", 100000>> [] u = "barn" -> <<"area", 1000>>
     [] u = "mbarn" -> <<"area", 1>> [] u = "fm**2" -> <<"area", 10>>
     [] u = "amu" -> <<"mass", 1>> [] OTHER -> <<"none", 0>>]
Num(k, re, im) == [k |-> k, re |-> re, im |-> im]
(* whole numbers, other numbers, complex numbers; and what is not a number *)
Value(p) == CASE Rnd(1..7) \in {1, 2} -> Num("int", 100*Rnd({0, 0, 1, 4, 39, -3}), 0)
              [] Rnd(1..3) # 1 -> Num("float", Rnd({0, 150, -374, 400, 1234}), 0)
              [] Rnd(1..2) = 1 /\ p \in {"coherent_scattering_length", "other"} ->
                   Num("complex", Rnd({0, 100, 487, -80}), Rnd({0, -70, 200}))
              [] OTHER -> Num(Rnd({"text", "number in quotes", "null"}), 0, 0)
Numbers == {"int", "float", "complex"}
UnitFor(p) == CASE Rnd(1..12) = 1 -> <<>>
                [] Rnd(1..10) = 1 -> <<Rnd({"florin", "amu", "fm", "barn"})>>
                [] p = "coherent_scattering_length" -> <<Rnd({"fm", "10 fm", "angstrom"})>>
                [] OTHER -> <<Rnd({"barn", "mbarn", "fm**2"})>>
-----------------------------------------------------------------------------
None == <<>>
Init == /\ file = [key |-> TRUE, props |-> <<>>, there |-> TRUE]
        /\ ask = None /\ todo = <<>> /\ got = <<>> /\ err = "" /\ phase = "write"
AddProp == /\ Len(file.props) < MaxProps
   /\ \E p \in {Rnd(Names)} : \E u \in {UnitFor(p)} :
      /\ \A i \in 1..Len(file.props) : file.props[i].name # p
      /\ file' = [file EXCEPT !.props = Append(@, [name |-> p, unit |-> u, vals |-> <<>>])]
AddVal == /\ file.props # <<>>
   /\ LET n == Len(file.props)
          vs == file.props[n].vals IN
      \E e \in {Rnd(Elements)} : \E v \in {Value(file.props[n].name)} :
      /\ Len(vs) < MaxVals /\ \A i \in 1..Len(vs) : vs[i].el # e
      /\ file' = [file EXCEPT !.props[n].vals = Append(@, [el |-> e, v |-> v])]
Write == /\ phase = "write" /\ \E a \in {Rnd(1..4)} : IF a = 1 \/ file.props = <<>> THEN AddProp ELSE AddVal
         /\ UNCHANGED <<ask, todo, got, err, phase>>

(* which properties a request needs *)
Need(what, w) ==
   CASE what = "data" -> <<w>>
     [] what \in {"structure factor", "powder structure factor"} ->
          <<"coherent_scattering_length">>
     [] OTHER -> CASE w = "both" -> <<"coherent_cross_section", "incoherent_cross_section">>
                   [] w = "none" -> <<>>
                   [] OTHER -> <<w \o "_cross_section">>
AllOf(p, vs, els) ==
   LET more == els \ {vs[i].el : i \in 1..Len(vs)}
       RECURSIVE Add(_, _)
       Add(q, todo_) == IF todo_ = {} THEN q
          ELSE LET e == CHOOSE e \in todo_ : TRUE
               IN Add(Append(q, [el |-> e, v |-> Num("float", Rnd({150, -374, 400, 1234}), 0)]),
                      todo_ \ {e})
       fixed == [i \in 1..Len(vs) |-> IF vs[i].el \in els /\ vs[i].v.k \notin Numbers
                    THEN [vs[i] EXCEPT !.v = Num("int", 400, 0)] ELSE vs[i]]
   IN Add(fixed, more)
Filled(props, p, els) ==
   LET at == {i \in 1..Len(props) : props[i].name = p}
       u == [name |-> p, unit |-> UnitFor(p), vals |-> <<>>]
       q == IF at = {} THEN Append(props, u) ELSE props
       k == IF at = {} THEN Len(q) ELSE CHOOSE i \in at : TRUE
   IN [q EXCEPT ![k].vals = AllOf(p, @, els)]
RECURSIVE FillAll(_, _, _)
FillAll(props, need, s) == IF need = <<>> THEN props
   ELSE FillAll(Filled(props, Head(need), SeqRange(s)), Tail(need), s)
Ask == /\ phase = "write" /\ Len(file.props) > 0 /\ Rnd(1..3) = 1
   /\ \E what \in {Rnd({"data", "structure factor", "powder structure factor",
                        "pdos", "pdos", "powder pdos"})} :
      \E w \in {CASE what = "data" -> Rnd({Rnd(Names), file.props[1].name})
                  [] what \in {"pdos", "powder pdos"} ->
                       Rnd({"both", "coherent", "incoherent", "none"})
                  [] OTHER -> ""} :
      \E s \in {Rnd({<<"Na">>, <<"Cl", "Na">>, <<"Na", "Cl", "Na">>, <<"H", "D">>})} :
      /\ ask' = <<[what |-> what, w |-> w, species |-> s]>>
      /\ todo' = Need(what, w)
      (* most of the time somebody has taken care that the answer exists *)
      (* or else the section or the file may be missing *)
      /\ \E miss \in {Rnd(1..16)} :
         file' = IF Rnd(1..4) = 1 \/ what = "data" THEN [file EXCEPT !.key = miss # 1, !.there = miss # 2]
                 ELSE [key |-> TRUE, there |-> TRUE, props |-> FillAll(file.props, Need(what, w), s)]
   /\ phase' = "look" /\ UNCHANGED <<got, err>>
Fail(e) == err' = e /\ phase' = "done" /\ UNCHANGED <<todo, got>>
PropAt(p) == {i \in 1..Len(file.props) : file.props[i].name = p}
(* find the property, then read its values *)
Look == /\ phase = "look" /\ UNCHANGED <<file, ask>>
        /\ IF todo = <<>> THEN phase' = "use" /\ UNCHANGED <<todo, got, err>>
           ELSE LET p == Head(todo) IN
             IF ~file.there THEN Fail("value")
             ELSE IF ~file.key THEN Fail("attribute")
             ELSE IF PropAt(p) = {} THEN Fail("value")
             ELSE LET q == file.props[CHOOSE i \in PropAt(p) : TRUE] IN
                  IF q.unit = None \/ q.unit = <<"florin">> THEN Fail("value")
                  ELSE /\ got' = Append(got, [unit |-> q.unit[1], vals |-> <<>>])
                       /\ phase' = "read" /\ UNCHANGED <<todo, err>>
Cur == file.props[CHOOSE i \in PropAt(Head(todo)) : TRUE].vals
RECURSIVE Taken(_, _)
(* how many of the first n values are numbers *)
Taken(vs, n) == IF n = 0 THEN 0
                ELSE Taken(vs, n - 1) + (IF vs[n].v.k \in Numbers THEN 1 ELSE 0)
Read == /\ phase = "read" /\ UNCHANGED <<file, ask, err>>
        /\ LET have == Len(got[Len(got)].vals)
               next == {n \in 1..Len(Cur) : Cur[n].v.k \in Numbers /\ Taken(Cur, n) = have + 1}
           IN IF next = {} THEN todo' = Tail(todo) /\ phase' = "look" /\ UNCHANGED got
              ELSE /\ got' = [got EXCEPT ![Len(got)].vals =
                                Append(@, Cur[CHOOSE n \in next : TRUE])]
                   /\ UNCHANGED <<todo, phase>>
At(g, e) == {i \in 1..Len(g.vals) : g.vals[i].el = e}
Of(g, e) == g.vals[CHOOSE i \in At(g, e) : TRUE].v
Use == /\ phase = "use" /\ UNCHANGED <<file, ask, todo, got>> /\ phase' = "done"
       /\ err' = IF ask[1].what = "data" \/ got = <<>> THEN ""
                 ELSE LET d == IF ask[1].what \in {"structure factor", "powder structure factor"}
                               THEN "length" ELSE "area"
                          key == \E k \in 1..Len(got) : \E e \in SeqRange(ask[1].species) :
                                   At(got[k], e) = {}
                          dim == \E k \in 1..Len(got) : Units[got[k].unit][1] # d
                      IN CASE key /\ dim -> "key or dimension" [] key -> "key"
                           [] dim -> "dimension" [] OTHER -> ""
Next == Write \/ Ask \/ Look \/ Read \/ Use
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"
(* every number of the file is in the answer, and nothing else *)
Complete == (Done /\ err # "value" /\ err # "attribute") =>
   LET need == Need(ask[1].what, ask[1].w) IN
   /\ Len(got) = Len(need)
   /\ \A k \in 1..Len(need) : LET p == file.props[CHOOSE i \in PropAt(need[k]) : TRUE] IN
      /\ SeqRange(got[k].vals) = {x \in SeqRange(p.vals) : x.v.k \in Numbers}
      /\ <<got[k].unit>> = p.unit
(* what each atom weighs, in hundredths of fm or mbarn *)
Sum(e) == [re |-> Of(got[1], e).re*Units[got[1].unit][2]
                  + (IF Len(got) = 2 THEN Of(got[2], e).re*Units[got[2].unit][2] ELSE 0),
           im |-> Of(got[1], e).im*Units[got[1].unit][2]]
Weights == IF err # "" \/ ask[1].what = "data" \/ got = <<>> THEN <<>>
           ELSE [i \in 1..Len(ask[1].species) |-> Sum(ask[1].species[i])]
(* the same element weighs the same *)
SameWeights == Done => \A i, j \in 1..Len(Weights) :
   ask[1].species[i] = ask[1].species[j] => Weights[i] = Weights[j]
Emit == Done => PrintT("@@" \o ToJson([file |-> file, ask |-> ask[1], got |-> got, err |-> err,
                                       weights |-> Weights]))
=============================================================================
