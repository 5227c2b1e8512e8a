------------------------------- MODULE Checked -------------------------------
(* Which arguments fit together.

   An argument is [k, u, s, v]: its kind (Quantity "q", array "a", list "l",
   dictionary "d", Crystal "c", None "n", string "t", number "f"), whether its unit
   has the right dimension, its shape, and a number inside it (atoms of a crystal,
   determinant of a supercell matrix, lines described by metadata; else -1).

   A set of arguments fits if there are SIZES for which every argument
   is as its class describes it: that is all, whatever order a constructor looks
   at its arguments in. *)
EXTENDS Num, Json

CONSTANTS MaxChanges, Sample
VARIABLES cls, args, n, what
vars == <<cls, args, n, what>>

A(nm) == [nm |-> nm, m |-> 1, c |-> 0]          \* size of that name
B(nm) == [nm |-> nm, m |-> 1, c |-> 1]          \* one more (edges of bins)
T(nm) == [nm |-> nm, m |-> 3, c |-> 0]          \* three times
C(k) == [nm |-> "one", m |-> 0, c |-> k]        \* a number

P(name, kinds, shapes, uni, val) ==
   [name |-> name, kinds |-> kinds, shapes |-> shapes, uni |-> uni, val |-> val]

Phonon == <<P("crystal", {"c"}, {<<>>}, FALSE, "at"),
            P("qpts", {"a"}, {<<A("q"), C(3)>>}, FALSE, "")>>
Weights == <<P("weights", {"a", "n"}, {<<A("q")>>}, FALSE, "")>>
Temp(kinds) == <<P("temperature", kinds, {<<>>}, TRUE, "")>>
Meta(val) == <<P("x_tick_labels", {"l", "n"}, {<<>>}, FALSE, ""),
               P("metadata", {"d", "n"}, {<<>>}, FALSE, val)>>
Bins(nm, nx) == <<P(nm, {"q"}, {<<A(nx)>>, <<B(nx)>>}, FALSE, "")>>
Quan(nm, sh, u) == <<P(nm, {"q"}, {sh}, u, "")>>

Params(c) ==
   CASE c = "Crystal" -> Quan("cell_vectors", <<C(3), C(3)>>, TRUE)
          \o <<P("atom_r", {"a"}, {<<A("at"), C(3)>>}, FALSE, ""),
               P("atom_type", {"a"}, {<<A("at")>>}, FALSE, "")>>
          \o Quan("atom_mass", <<A("at")>>, TRUE)
     [] c = "ForceConstants" ->
          <<P("crystal", {"c"}, {<<>>}, FALSE, "at")>>
          \o Quan("force_constants", <<A("sc"), T("at"), T("at")>>, TRUE)
          \o <<P("sc_matrix", {"a"}, {<<C(3), C(3)>>}, FALSE, "sc"),
               P("cell_origins", {"a"}, {<<A("sc"), C(3)>>}, FALSE, ""),
               P("born", {"q", "n"}, {<<A("at"), C(3), C(3)>>}, TRUE, ""),
               P("dielectric", {"q", "n"}, {<<C(3), C(3)>>}, TRUE, "")>>
     [] c = "QpointFrequencies" ->
          Phonon \o Quan("frequencies", <<A("q"), A("br")>>, TRUE) \o Weights
     [] c = "QpointPhononModes" ->
          Phonon \o Quan("frequencies", <<A("q"), T("at")>>, TRUE)
          \o <<P("eigenvectors", {"a"}, {<<A("q"), T("at"), A("at"), C(3)>>}, FALSE, "")>>
          \o Weights
     [] c = "StructureFactor" ->
          Phonon \o Quan("frequencies", <<A("q"), T("at")>>, TRUE)
          \o Quan("structure_factors", <<A("q"), T("at")>>, TRUE)
          \o Weights \o Temp({"q", "n"})
     [] c = "DebyeWaller" ->
          <<P("crystal", {"c"}, {<<>>}, FALSE, "at")>>
          \o Quan("debye_waller", <<A("at"), C(3), C(3)>>, TRUE) \o Temp({"q"})
     [] c = "Spectrum1D" ->
          Bins("x_data", "x") \o Quan("y_data", <<A("x")>>, FALSE) \o Meta("")
     [] c = "Spectrum1DCollection" ->
          Bins("x_data", "x") \o Quan("y_data", <<A("l"), A("x")>>, FALSE) \o Meta("l")
     [] c = "Spectrum2D" ->
          Bins("x_data", "x") \o Bins("y_data", "y")
          \o Quan("z_data", <<A("x"), A("y")>>, FALSE) \o Meta("")
     [] OTHER ->
          Bins("x_data", "x") \o Bins("y_data", "y")
          \o Quan("z_data", <<A("l"), A("x"), A("y")>>, FALSE) \o Meta("l")
Classes == {"Crystal", "ForceConstants", "QpointFrequencies", "QpointPhononModes",
            "StructureFactor", "DebyeWaller", "Spectrum1D", "Spectrum1DCollection",
            "Spectrum2D", "Spectrum2DCollection"}

SizeNames(c) ==
   LET p == Params(c)
   IN UNION {{p[i].val} \ {""} : i \in 1..Len(p)}
      \cup UNION {UNION {{s[k].nm : k \in 1..Len(s)} : s \in p[i].shapes} : i \in 1..Len(p)}
      \cup {"one"}
Inst(s, d) == [k \in 1..Len(s) |-> s[k].m * d[s[k].nm] + s[k].c]

(* no atoms: the shapes of empty lists are accepted *)
Empty(p, a, d) == /\ cls = "Crystal" /\ d["at"] = 0 /\ a.s = <<0>>
                  /\ p.name \in {"atom_r", "atom_type"}
ArgFits(p, a, d) ==
   /\ a.k \in p.kinds
   /\ a.k \in {"q", "a"} =>
        /\ (a.k = "q" /\ p.uni) => a.u
        /\ (\E s \in p.shapes : a.s = Inst(s, d)) \/ Empty(p, a, d)
   /\ (p.val # "" /\ a.v # -1 /\ a.k # "n") => a.v = d[p.val]
Fits ==
   LET p == Params(cls)
          sizes == [SizeNames(cls) \ {"one"} -> 0..6]
   IN /\ \E d \in sizes : LET e == ("one" :> 0) @@ d
                           IN \A i \in 1..Len(p) : ArgFits(p[i], args[i], e)
      /\ cls = "ForceConstants" => (args[5].k # "n" => args[6].k # "n")
-----------------------------------------------------------------------------
(* a set of arguments that fits: sizes, which of the alternatives, which optional *)
Base(c) ==
   {d \in [SizeNames(c) -> 0..3] :
      \A m \in DOMAIN d : CASE m = "one" -> d[m] = 0
                            [] m = "at" -> d[m] \in {0, 1, 2}
                            [] m = "q" -> d[m] \in {1, 3}
                            [] m = "br" -> d[m] \in {1, 2}
                            [] m = "sc" -> d[m] \in {1, 2}
                            [] m = "l" -> d[m] \in {1, 2}
                            [] OTHER -> d[m] \in {2, 3}}
Give(p, d, alt, opt) ==
   LET k == IF opt /\ "n" \in p.kinds THEN "n"
            ELSE CHOOSE x \in p.kinds \ {"n"} : TRUE
       s == IF Cardinality(p.shapes) = 1 THEN CHOOSE x \in p.shapes : TRUE
            ELSE CHOOSE x \in p.shapes : (x[1].c = 1) = alt
   IN [k |-> k, u |-> TRUE, s |-> Inst(s, d),
       v |-> IF p.val = "" \/ k = "n" THEN -1 ELSE d[p.val]]
Init ==
   /\ cls \in Classes /\ n = 0 /\ what = <<>>
   /\ \E d \in Base(cls) : \E alt, opt \in BOOLEAN :
        args = [i \in 1..Len(Params(cls)) |-> Give(Params(cls)[i], d, alt, opt)]

Shapes(s) ==
   {[s EXCEPT ![k] = @ + 1] : k \in 1..Len(s)}
   \cup {[s EXCEPT ![k] = @ - 1] : k \in {j \in 1..Len(s) : s[j] > 1}}
   \cup {SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)) : k \in 1..Len(s)}
   \cup {<<1>> \o s, s \o <<1>>, s \o <<2>>}
   \cup {[s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]] : k \in 1..Len(s) - 1}
   \cup {<<>>}
Shaped(p) == \A s \in p.shapes : Len(s) > 0
Change(i) ==
   LET p == Params(cls)[i]
       a == args[i]
   IN \/ \E k \in {"q", "a", "l", "n", "t", "f"} \ {a.k} :
           /\ args' = [args EXCEPT ![i].k = k]
           /\ what' = Append(what, <<i, "kind">>)
      \/ /\ a.k = "q" /\ p.uni /\ a.u
         /\ args' = [args EXCEPT ![i].u = FALSE] /\ what' = Append(what, <<i, "unit">>)
      \/ /\ a.k \in {"q", "a"} /\ Shaped(p)
         /\ \E s \in Shapes(a.s) \ {a.s} : args' = [args EXCEPT ![i].s = s]
         /\ what' = Append(what, <<i, "shape">>)
      \/ /\ a.v # -1 /\ p.val # ""
         /\ \E v \in {a.v - 1, a.v + 1} \cup (IF p.val = "l" THEN {-1} ELSE {}) :
              (p.val = "sc" => v > 0) /\ (v = -1 => p.val = "l")
              /\ args' = [args EXCEPT ![i].v = v]
         /\ what' = Append(what, <<i, "value">>)
Next == /\ n < MaxChanges /\ n' = n + 1 /\ UNCHANGED cls
        /\ \E i \in 1..Len(args) : Change(i)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* what is unchanged fits *)
Unchanged == n = 0 => Fits
(* wrong kinds and units never fit *)
Wrong == (\E i \in 1..Len(args) : args[i].k \notin Params(cls)[i].kinds
            \/ (args[i].k = "q" /\ Params(cls)[i].uni /\ ~args[i].u)) => ~Fits
Emit == (Sample = 1 \/ RandomElement(1..Sample) = 1) =>
          PrintT("@@" \o ToJson([c |-> cls, a |-> args, n |-> n, w |-> what,
                                 ok |-> Fits]))
=============================================================================
