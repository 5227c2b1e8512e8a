--------------------------------- MODULE Cli --------------------------------
(* One run of a command line tool: options are given one by one, the path that
   the band structure would take is laid out segment by segment, then the tool
   works through its stages.  The plan is what has been done so far: which
   library operations, in which order, with which arguments.

   opt: option |-> values given, <<>> if the option is not given.  Numbers with
   a unit are in hundredths.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NOpts, NSegs, Nodes
(* pts: points of the path; segs: first and last point of each segment;
   joins: points at which the path starts afresh *)
VARIABLES tool, data, opt, pts, segs, joins, plan, stage, err, n, m
vars == <<tool, data, opt, pts, segs, joins, plan, stage, err, n, m>>

Rnd(S) == RandomElement(S)
SeqRange(s) == {s[i] : i \in 1..Len(s)}
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
-----------------------------------------------------------------------------
Values == [
  grid |-> {<<1, 2, 2>>, <<2, 2, 2>>, <<3, 1, 2>>, <<2, 3, 2>>},
  spacing |-> {<<40>>, <<55>>, <<70>>},
  unitL |-> {<<"bohr">>, <<"angstrom">>, <<"nm">>},
  unitE |-> {<<"1/cm">>, <<"THz">>, <<"eV">>, <<"meV">>},
  ebins |-> {<<20>>, <<31>>, <<50>>},
  emin |-> {<<100>>, <<-250>>, <<275>>, <<0>>},
  emax |-> {<<2150>>, <<1725>>, <<60>>},
  adaptive |-> {<<1>>},
  method |-> {<<"reference">>, <<"fast">>},
  fit |-> {<<"cubic">>, <<"cheby-log">>},
  error |-> {<<5>>, <<2>>},
  ascale |-> {<<50>>, <<200>>},
  inst |-> {<<150>>, <<220>>, <<80, 10>>, <<200, -3>>, <<100, 4, 1>>},
  eb |-> {<<120>>, <<240>>, <<90, 8>>, <<200, -4>>},
  shape |-> {<<"gauss">>, <<"lorentz">>},
  weighting |-> {<<"dos">>, <<"coherent-dos">>, <<"incoherent-dos">>,
                 <<"coherent-plus-incoherent-dos">>},
  mapw |-> {<<"coherent">>},
  powderw |-> {<<"dos">>, <<"coherent">>, <<"coherent">>, <<"coherent-dos">>,
               <<"incoherent-dos">>, <<"coherent-plus-incoherent-dos">>},
  pdos |-> {<<"on">>, <<"on", "Na">>, <<"on", "Cl">>, <<"on", "Cl", "Na">>},
  pdos1 |-> {<<"on", "Na">>, <<"on", "Cl">>},
  scale |-> {<<50>>, <<-300>>, <<0>>},
  asr |-> {<<"bare">>, <<"reciprocal">>, <<"realspace">>},
  dp |-> {<<50>>, <<75>>},
  threads |-> {<<1>>, <<2>>},
  engine |-> {<<"use-c">>, <<"disable-c">>},
  temperature |-> {<<0>>, <<1000>>, <<30000>>},
  qspacing |-> {<<50>>, <<25>>, <<40>>},
  reorder |-> {<<1>>},
  btol |-> {<<150>>, <<300>>, <<100000>>},
  qb |-> {<<10>>, <<22>>},
  qb2 |-> {<<30>>, <<20, 5>>, <<30, 10>>},
  qmin |-> {<<25>>, <<50>>}, qmax |-> {<<100>>, <<175>>},
  npts |-> {<<7>>, <<12>>},
  density |-> {<<10>>, <<23>>}, nmin |-> {<<7>>, <<9>>}, nmax |-> {<<8>>, <<15>>},
  sampling |-> {<<"golden">>, <<"sphere-projected-grid">>,
                <<"spherical-polar-grid">>, <<"spherical-polar-improved">>},
  jitter |-> {<<1>>},
  ei |-> {<<1200>>, <<2500>>}, ef |-> {<<600>>, <<1500>>},
  angles |-> {<<1000, 13500>>, <<4500, 9000>>, <<-4500, 6000>>},
  vmin |-> {<<0>>, <<5>>}, vmax |-> {<<300>>, <<7>>},
  width |-> {<<250>>, <<75>>}, font |-> {<<700>>, <<1350>>},
  cmap |-> {<<"magma">>, <<"Greys">>},
  figsize |-> {<<1200, 900>>, <<850, 1100>>}, figunit |-> {<<"cm">>, <<"mm">>, <<"inch">>},
  style |-> {<<"s1">>, <<"s2">>, <<"s1", "s2">>, <<"s2", "s1">>}, nobase |-> {<<1>>},
  title |-> {<<"a title">>}, xlabel |-> {<<"some x">>}, ylabel |-> {<<"some y">>}]

Engine == <<"asr", "asr", "dp", "threads", "engine">>
Look == <<"title", "xlabel", "ylabel">>
Styling(t) == <<"font", "figsize", "figsize", "figunit", "style", "style", "nobase">>
              \o (IF t \in {"dos", "dispersion"} THEN <<"width", "width">>
                  ELSE <<"cmap", "cmap">>)
Options == [
  dos |-> <<"grid", "grid", "grid", "grid", "spacing", "unitL", "unitE", "ebins", "emin",
     "emax", "adaptive", "adaptive", "adaptive", "adaptive", "method", "fit", "error",
     "ascale", "inst", "inst", "inst", "eb", "eb", "shape", "weighting", "pdos", "pdos",
     "scale">> \o Engine \o Look,
  dispersion |-> <<"unitL", "unitE", "emin", "emax", "qspacing", "reorder", "reorder",
     "btol", "btol">> \o Engine \o Look,
  map |-> <<"grid", "spacing", "unitL", "unitE", "ebins", "emin", "emax", "eb", "eb",
     "shape", "mapw", "mapw", "mapw", "temperature", "scale", "qspacing", "btol", "btol",
     "qb", "vmin", "vmax">> \o Engine \o Look,
  powder |-> <<"grid", "spacing", "unitL", "unitE", "ebins", "emin", "emax", "eb",
     "eb", "shape", "powderw", "powderw", "powderw", "pdos1", "temperature",
     "temperature", "temperature", "scale", "qspacing",
     "qspacing", "qb2", "qmin", "qmax", "npts", "density", "nmin", "nmax", "sampling",
     "ei", "ef", "angles", "vmin", "vmax", "jitter">> \o Engine \o Look]
Stages == [
  dos |-> <<"usage", "load", "modes", "bins", "dos", "broaden", "scale", "save">>,
  dispersion |-> <<"usage", "load", "path", "reorder", "bands", "save", "split">>,
  map |-> <<"usage", "load", "path", "bins", "map", "broaden", "scale", "save", "split">>,
  powder |-> <<"usage", "load", "shells", "bins", "spheres", "broaden", "mask", "scale",
               "save">>]

Has(o) == opt[o] # <<>>
Get(o, d) == IF Has(o) THEN opt[o][1] ELSE d
UnitE == Get("unitE", "meV")
UnitL == Get("unitL", "angstrom")
Shape == Get("shape", "gauss")
Weighting == IF tool = "map" THEN Get("mapw", "dos")
             ELSE IF tool = "powder" THEN Get("powderw", "dos")
             ELSE Get("weighting", "dos")
PDos == IF tool = "powder" THEN opt.pdos1 ELSE opt.pdos
Adaptive == Has("adaptive")
(* a single --energy-broadening scales adaptive widths ... *)
EbScales == Adaptive /\ Len(opt.eb) = 1
AScale == IF EbScales THEN opt.eb ELSE opt.ascale
(* ... otherwise it is another name for --instrument-broadening *)
Widths == IF Has("eb") /\ ~EbScales THEN opt.eb ELSE opt.inst
Call == [asr |-> IF opt.asr = <<"bare">> THEN <<"reciprocal">> ELSE opt.asr,
         dp |-> Get("dp", 100)]
CallUses == <<"asr", "dp">>
Grid == [grid |-> opt.grid, spacing |-> IF Has("grid") THEN <<>>
                                        ELSE <<Get("spacing", 10)>>, unit |-> UnitL]
GridUses == <<"grid", "spacing", "unitL">>

(* what goes wrong, if anything: the first that does *)
Usage == \/ Has("grid") /\ Has("spacing")
         \/ Has("npts") /\ Has("density")
         \/ Has("ei") /\ Has("ef")
NeedVectors == CASE tool = "dos" -> Weighting # "dos" \/ PDos # <<>>
                 [] tool = "dispersion" -> Has("reorder")
                 [] tool = "map" -> Weighting = "coherent"
                 [] OTHER -> FALSE
NeedFC == CASE tool = "dos" -> Adaptive
            [] tool = "map" -> Weighting = "coherent" /\ Has("temperature")
            [] OTHER -> tool = "powder"
BadLoad == (NeedVectors /\ data = "freqs") \/ (NeedFC /\ data # "fc")
BadValue == \/ tool = "powder" /\ PDos # <<>> /\ Weighting = "coherent"
            \/ tool = "dos" /\ EbScales /\ Has("ascale")
            \/ tool = "dos" /\ Has("eb") /\ ~EbScales /\ Has("inst")
Lo == opt.emin
Hi == IF tool = "powder" /\ ~Has("emax") THEN opt.ei ELSE opt.emax
BadBins == Lo # <<>> /\ Hi # <<>> /\ Lo[1] >= Hi[1]
-----------------------------------------------------------------------------
(* the path: points are at node a, or j steps of k from node a to node b *)
Label(p) == IF p.a = p.b THEN p.a ELSE "" 
Node(a) == [a |-> a, b |-> a, j |-> 0, k |-> 1]
Last == pts[Len(pts)].b
Between(a, b, k) == [j \in 1..k |-> [a |-> a, b |-> b, j |-> j, k |-> k + 1]]
Segment == \E b \in {Rnd(Nodes \ {Last})} : \E k \in {Rnd(0..2)} :
   /\ pts' = pts \o Between(Last, b, k) \o <<Node(b)>>
   /\ segs' = Append(segs, <<Len(pts), Len(pts) + k + 1>>)
   /\ UNCHANGED joins
Jump == \E a \in {Rnd(Nodes \ {Last})} : \E b \in {Rnd(Nodes \ {a})} :
        \E k \in {Rnd(0..2)} :
   /\ pts' = pts \o <<Node(a)>> \o Between(a, b, k) \o <<Node(b)>>
   /\ segs' = Append(segs, <<Len(pts) + 1, Len(pts) + k + 2>>)
   /\ joins' = joins \cup {Len(pts) + 1}
(* going through Gamma: two limits *)
Through(i) == /\ pts[i].a = "GAMMA" /\ pts[i].b = "GAMMA"
              /\ \E s, t \in SeqRange(segs) : s[2] = i /\ t[1] = i
Before(i) == IF tool = "dispersion" THEN Cardinality({k \in 1..(i - 1) : Through(k)})
             ELSE 0
Twice(i) == tool = "dispersion" /\ Through(i)
RECURSIVE From(_)
From(i) == IF i > Len(pts) THEN <<>>
           ELSE (IF Twice(i) THEN <<pts[i], pts[i]>> ELSE <<pts[i]>>) \o From(i + 1)
Taken == From(1)
(* counted from 0 *)
TickSeq == LET t == Taken
           IN SelectSeq([i \in 1..Len(t) |-> [at |-> i - 1, name |-> Label(t[i])]],
                        LAMBDA e : e.name # "")
Cuts == {i - 1 + Before(i) : i \in joins}
-----------------------------------------------------------------------------
(* shells of the powder map *)
QMin == Get("qmin", 0)
QMax == Get("qmax", 300)
QStep == Get("qspacing", 3)    \* not the default: too many shells, see Sane
NShells == CeilDiv(QMax - QMin, QStep)
(* the middle of shell i, times 200 NShells *)
Mid(i) == 2*NShells*QMin + (2*i - 1)*(QMax - QMin)
NPts(i) == IF Has("density")
           THEN LET d == 200*NShells
                    q == Mid(i)
                IN Max2(Get("nmin", 100),
                        Min2(Get("nmax", 10000), CeilDiv(opt.density[1]*q*q, d*d)))
           ELSE Get("npts", 1000)
-----------------------------------------------------------------------------
(* how it looks: layers of styles, the last one that says something counts;
   0 and "base" are what the tools come with, <<>> is left to matplotlib *)
Plain == [width |-> <<>>, font |-> <<>>, cmap |-> <<>>, figsize |-> <<>>]
Base == [Plain EXCEPT !.width = <<0>>, !.cmap = <<"base">>]
Sheet == [s1 |-> [Plain EXCEPT !.width = <<300>>, !.cmap = <<"plasma">>, !.font = <<900>>],
          s2 |-> [Plain EXCEPT !.width = <<50>>, !.figsize = <<500, 400>>, !.font = <<1600>>]]
Explicit == [width |-> opt.width, font |-> opt.font, cmap |-> opt.cmap, figsize |-> opt.figsize]
Layers == (IF Has("nobase") THEN <<>> ELSE <<Base>>)
          \o [i \in 1..Len(opt.style) |-> Sheet[opt.style[i]]] \o <<Explicit>>
RECURSIVE Top(_, _)
Top(s, k) == IF s = <<>> THEN <<>>
             ELSE IF s[Len(s)][k] # <<>> THEN s[Len(s)][k]
             ELSE Top(SubSeq(s, 1, Len(s) - 1), k)
Style == [k \in DOMAIN Plain |-> Top(Layers, k)]
-----------------------------------------------------------------------------
(* restrictions of the generator: cost, and combinations that the library does
   not offer *)
Sane == /\ tool = "powder" => /\ Has("qspacing")
                              /\ (Has("npts") \/ (Has("density") /\ Has("nmin")))
                              /\ (Has("density") => opt.qspacing # <<40>>)
                              /\ (Has("temperature") => Has("grid") \/ Has("spacing"))
        /\ (tool = "dos" /\ data = "fc") => Has("grid") \/ Has("spacing")
        /\ (Has("spacing") => UnitL # "nm")
        /\ (UnitE = "eV" => ~Has("eb") /\ ~Has("inst") /\ ~Has("ei") /\ ~Has("ef")
                            /\ ~Has("emin") /\ ~Has("emax"))
        /\ (Len(Widths) > 1 => Shape = "gauss")
        /\ (Len(opt.qb2) > 1 => Shape = "gauss")
        /\ (tool = "powder" => UnitL # "nm")
        (* lorentz-kernel-spacing, a finding of C17 *)
        /\ (UnitL = "nm" => ~Has("qb"))
Unset == [o \in DOMAIN Values |-> <<>>]
Init == /\ tool \in {"dos", "dispersion", "map", "powder"}
        /\ data \in {"fc", "fc2", "modes", "freqs"}
        /\ opt = Unset /\ pts = <<>> /\ segs = <<>> /\ joins = {}
        /\ plan = <<>> /\ err = "" /\ stage = <<>> /\ n = NOpts /\ m = NSegs
Lay == /\ m > 0 /\ m' = m - 1
       /\ IF pts = <<>>
          THEN \E a \in {Rnd({"GAMMA", Rnd(Nodes)})} :
                  pts' = <<Node(a)>> /\ UNCHANGED <<segs, joins>>
          ELSE \E a \in {Rnd(1..3)} : IF a = 1 /\ Len(pts) > 1 THEN Jump ELSE Segment
       /\ UNCHANGED <<tool, data, opt, plan, stage, err, n>>
(* structure factors, often *)
Begin == /\ m = 0 /\ n = NOpts /\ n > 0 /\ tool \in {"map", "powder"}
         /\ \E c \in {Rnd(1..3)} : \E t \in {Rnd(Values["temperature"])} :
            opt' = [opt EXCEPT
              !.mapw = IF tool = "map" /\ c < 3 THEN <<"coherent">> ELSE @,
              !.powderw = IF tool = "powder" /\ c < 3 THEN <<"coherent">> ELSE @,
              !.temperature = IF c = 1 THEN t ELSE @]
         /\ n' = n - 1
         /\ data' = IF data = "fc2" THEN "fc" ELSE data
         /\ UNCHANGED <<tool, pts, segs, joins, plan, stage, err, m>>
Give == /\ m = 0 /\ n > 0 /\ n' = n - 1
        /\ (n = NOpts => tool \in {"dos", "dispersion"})
        /\ \E i \in {Rnd(1..Len(Options[tool]))} : LET o == Options[tool][i] IN
           \E v \in {Rnd(Values[o])} : \E c \in {Rnd(1..2)} :
              IF c = 1 THEN opt' = [opt EXCEPT ![o] = v]
              ELSE \E j \in {Rnd(1..Len(Styling(tool)))} : LET s == Styling(tool)[j] IN
                   \E w \in {Rnd(Values[s])} : opt' = [opt EXCEPT ![o] = v, ![s] = w]
        /\ data' = IF data = "fc2" THEN "fc" ELSE data
        /\ UNCHANGED <<tool, pts, segs, joins, plan, stage, err, m>>
(* options without which a run would take too long *)
Complete == LET p == tool = "powder"
            IN [opt EXCEPT
              !.qspacing = IF p /\ ~Has("qspacing") THEN <<25>> ELSE @,
              !.qmax = IF p /\ ~Has("qmax") THEN <<150>> ELSE @,
              !.npts = IF p /\ ~Has("npts") /\ ~Has("density") THEN <<6>> ELSE @,
              !.nmin = IF p /\ Has("density") /\ ~Has("nmin") THEN <<6>> ELSE @,
              !.vmax = IF Has("vmin") /\ ~Has("vmax") THEN <<100000>> ELSE @,
              !.grid = IF @ = <<>> /\ ~Has("spacing") /\ (tool = "dos" \/ Has("temperature"))
                       THEN <<2, 2, 1>> ELSE @]
Ready == /\ m = 0 /\ n = 0 /\ n' = -1
         /\ opt' = Complete
         /\ stage' = Stages[tool]
         /\ data' = IF tool = "powder" /\ Rnd(1..6) # 1 THEN "fc"
                    ELSE IF NeedFC /\ Rnd(1..4) # 1 THEN "fc"
                    ELSE IF NeedVectors /\ data = "freqs" /\ Rnd(1..3) # 1 THEN "modes" ELSE data
         /\ UNCHANGED <<tool, pts, segs, joins, plan, err, m>>

Fail(e) == err' = e /\ stage' = <<>> /\ UNCHANGED plan
Do(ops) == plan' = plan \o ops /\ stage' = Tail(stage) /\ UNCHANGED err
Op(name, arg, uses) == [op |-> name, arg |-> arg, uses |-> uses]
Step ==
  /\ n = -1 /\ stage # <<>> /\ Sane
  /\ LET s == Head(stage) IN
     CASE s = "usage" -> IF Usage THEN Fail("usage") ELSE Do(<<>>)
       [] s = "load" -> IF BadLoad THEN Fail("type") ELSE IF BadValue THEN Fail("value")
            ELSE Do(<<Op("load", [vectors |-> NeedVectors], <<>>)>>)
       [] s = "modes" -> IF data # "fc" THEN Do(<<>>)
            ELSE Do(<<Op("grid modes", [grid |-> Grid, call |-> Call,
                         gradients |-> Adaptive], GridUses \o CallUses \o <<"adaptive">>)>>)
       [] s = "path" -> IF data # "fc" THEN Do(<<>>)
            ELSE Do(<<Op("path modes", [qpts |-> Taken, spacing |-> opt.qspacing,
                         unit |-> UnitL, vectors |-> NeedVectors, call |-> Call],
                         CallUses \o <<"qspacing", "unitL">>)>>)
       [] s = "reorder" -> IF Has("reorder") THEN Do(<<Op("reorder", 0, <<"reorder">>)>>)
            ELSE Do(<<>>)
       [] s = "bands" -> Do(<<Op("bands", [unit |-> UnitE,
            ticks |-> IF data = "fc" THEN <<TickSeq>> ELSE <<>>], <<"unitE">>)>>)
       [] s = "bins" -> IF BadBins THEN Fail("value")
            ELSE Do(<<Op("bins", [unit |-> UnitE, n |-> Get("ebins", 200), lo |-> Lo,
                         hi |-> Hi], <<"unitE", "ebins", "emin", "emax", "ei">>)>>)
       [] s = "dos" -> Do(
            (IF Adaptive
             THEN <<Op("widths", [scale |-> IF AScale = <<>> THEN 100 ELSE AScale[1],
                          fwhm |-> IF Shape = "gauss" THEN Widths ELSE <<>>],
                       <<"adaptive", "ascale", "inst", "eb", "shape">>)>>
             ELSE <<>>)
            \o <<Op("dos", [parts |-> Weighting # "dos" \/ PDos # <<>>, weighting |-> Weighting,
                    groups |-> PDos, method |-> Get("method", "reference"),
                    fit |-> Get("fit", "cubic"), error |-> Get("error", 1)],
                    <<"weighting", "pdos", "method", "fit", "error">>)>>)
       [] s = "map" -> Do(<<Op("map", [weighting |-> Weighting,
            temperature |-> IF Weighting = "coherent" THEN opt.temperature ELSE <<>>,
            grid |-> Grid, call |-> Call,
            ticks |-> IF data = "fc" THEN <<TickSeq>> ELSE <<>>],
            <<"mapw", "temperature">> \o GridUses \o CallUses)>>)
       [] s = "shells" -> Do(<<Op("shells", [lo |-> QMin, hi |-> QMax, n |-> NShells,
            unit |-> UnitL, npts |-> [i \in 1..NShells |-> NPts(i)]],
            <<"qmin", "qmax", "qspacing", "unitL", "npts", "density", "nmin", "nmax">>)>>)
       [] s = "spheres" -> Do(<<Op("spheres", [weighting |-> Weighting, groups |-> PDos,
            sampling |-> Get("sampling", "golden"), jitter |-> Has("jitter"), call |-> Call, grid |-> Grid,
            temperature |-> IF Weighting = "coherent" THEN opt.temperature ELSE <<>>],
            <<"powderw", "pdos1", "sampling", "temperature", "jitter">> \o GridUses \o CallUses)>>)
       [] s = "broaden" ->
            IF tool = "dos"
            THEN IF Widths = <<>> \/ (Adaptive /\ Shape = "gauss") THEN Do(<<>>)
                 ELSE Do(<<Op("broaden", [x |-> Widths, y |-> <<>>, shape |-> Shape],
                              <<"inst", "eb", "shape", "error">>)>>)
            ELSE LET q == IF tool = "map" THEN opt.qb ELSE opt.qb2 IN
                 IF q = <<>> /\ opt.eb = <<>> THEN Do(<<>>)
                 ELSE Do(<<Op("broaden", [x |-> q, y |-> opt.eb, shape |-> Shape],
                              <<"qb", "qb2", "eb", "shape", "unitL">>)>>)
       [] s = "mask" -> IF ~Has("ei") /\ ~Has("ef") THEN Do(<<>>)
            ELSE Do(<<Op("mask", [ei |-> opt.ei, ef |-> opt.ef,
                         angles |-> IF Has("angles") THEN opt.angles ELSE <<0, 18000>>],
                         <<"ei", "ef", "angles">>)>>)
       [] s = "scale" -> IF Has("scale")
            THEN Do(<<Op("scale", opt.scale[1], <<"scale">>)>>) ELSE Do(<<>>)
       [] s = "save" -> Do(<<Op("save", [title |-> opt.title, x |-> opt.xlabel,
                        y |-> opt.ylabel, lo |-> IF tool = "dispersion" THEN opt.emin ELSE <<>>,
                        hi |-> IF tool = "dispersion" THEN opt.emax ELSE <<>>,
                        vmin |-> opt.vmin, vmax |-> opt.vmax, style |-> Style,
                        figunit |-> IF Has("figsize") THEN Get("figunit", "cm") ELSE "inch"],
                        <<"title", "xlabel", "ylabel", "emin", "emax", "vmin", "vmax",
                          "width", "font", "cmap", "figsize", "style", "nobase">>
                        \o (IF Has("figsize") THEN <<"figunit">> ELSE <<>>))>>)
       [] OTHER -> IF data = "fc" THEN Do(<<Op("cut", [at |-> Cuts], <<>>)>>)
                   ELSE Do(<<Op("split", [btol |-> Get("btol", 1000)], <<"btol">>)>>)
  /\ UNCHANGED <<tool, data, opt, pts, segs, joins, n, m>>
Next == Lay \/ Begin \/ Give \/ Ready \/ Step
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == n = -1 /\ stage = <<>>
(* the path is cut where, and only where, it starts afresh; nothing is lost;
   both limits at Gamma are taken inside of a piece *)
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s
            ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
PathOk == (n = -1 /\ pts # <<>>) =>
   LET t == Taken IN
   /\ Dedup(t) = pts
   /\ \A i \in 1..(Len(pts) - 1) :
        (i + 1 \in joins) <=> ~\E s \in SeqRange(segs) : s[1] <= i /\ i < s[2]
   /\ Cardinality(Cuts) = Cardinality(joins)
   /\ \A c \in Cuts : Label(t[c]) # "" /\ Label(t[c + 1]) # "" /\ t[c] # t[c + 1]
   /\ \A i \in 2..Len(t) : t[i] = t[i - 1] =>
        /\ t[i] = Node("GAMMA") /\ i > 2 /\ i < Len(t)
        /\ i \notin Cuts /\ i - 2 \notin Cuts
   /\ tool = "dispersion" => \A i \in 2..(Len(t) - 1) :
        (t[i] = Node("GAMMA") /\ i \notin Cuts /\ i - 1 \notin Cuts) =>
           (t[i - 1] = t[i] \/ t[i + 1] = t[i])
(* options that have no effect in this run, by what they mean *)
Idle == LET f == data = "fc"
            pre == {"asr", "dp", "grid", "spacing", "qspacing"}
        IN {"threads", "engine"}
           \cup (IF f THEN {"btol"} ELSE pre)
           \cup (IF Has("figsize") THEN {} ELSE {"figunit"})
           \cup (IF Adaptive THEN {} ELSE {"method", "fit", "ascale", "error"})
           \cup (IF Widths = <<>> /\ ~Adaptive /\ opt.qb = <<>> /\ opt.qb2 = <<>> THEN {"shape"} ELSE {})
           \cup (IF Weighting # "coherent" \/ ~Has("temperature")
                 THEN {"temperature"} \cup (IF tool = "dos" THEN {} ELSE {"grid", "spacing"}) ELSE {})
           \cup (IF ~Has("ei") /\ ~Has("ef") THEN {"angles"} ELSE {})
           \cup (IF f \/ tool = "powder" THEN {} ELSE {"unitL"})
(* every other option that is given has been used *)
Used == (Done /\ err = "") =>
   \A o \in DOMAIN Values : Has(o) => \/ o \in Idle
      \/ \E i \in 1..Len(plan) : o \in SeqRange(plan[i].uses)
(* what is asked for explicitly counts most, then the last style that says
   anything about it; the tools' own style least *)
StyleOk == /\ \A k \in DOMAIN Plain : Has(k) => Style[k] = opt[k]
           /\ \A i \in 1..Len(opt.style) : \A k \in DOMAIN Plain :
                LET s == Sheet[opt.style[i]][k] IN
                (s # <<>> /\ ~Has(k) /\ i = Len(opt.style)) => Style[k] = s
           /\ Has("nobase") => Style.width # <<0>> /\ Style.cmap # <<"base">>
           /\ (opt.style = <<>> /\ ~Has("cmap") /\ ~Has("nobase")) => Style.cmap = <<"base">>
OpAt(x) == {i \in 1..Len(plan) : plan[i].op = x}
(* whatever is computed is computed on bins that are there, and saved last *)
Order == /\ \A i \in OpAt("dos") \cup OpAt("map") \cup OpAt("spheres") :
              \E j \in OpAt("bins") : j < i
         /\ \A i \in OpAt("scale") : \A j \in OpAt("broaden") \cup OpAt("mask") : j < i
         /\ \A i \in OpAt("save") : \A j \in 1..Len(plan) :
              j > i => plan[j].op \in {"cut", "split"}
         /\ (Done /\ err = "") => OpAt("save") # {}
Emit == Done => PrintT("@@" \o ToJson([tool |-> tool, data |-> data, opt |-> opt,
          pts |-> pts, segs |-> segs, err |-> err, plan |-> plan]))
=============================================================================
