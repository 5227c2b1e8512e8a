-------------------------------- MODULE Cache --------------------------------
(* Histories of a force constants object: calculations, data replacements and
   unit changes, with the derived data the implementation keeps between calls.

   Versions stand for values.  A calculation reads the current force constants
   (or those corrected for the acoustic sum rule), and, with the dipole
   correction, the Ewald tables made from born, dielectric and the Ewald
   parameter.  `Keep` lists which derived data survive the replacement of what
   they were made from: the property requires Keep = {}.  (Before it was
   repaired, the implementation behaved as Keep = {"asr", "ewald", "cell", "images"}.) *)
EXTENDS Num, Json

CONSTANTS Keep, NV, Etas, Depth, EmitOn, Sim

None == <<>>
VARIABLES fc, born, diel, cr, mass, asrOf, ewaldOf, imgOf, massOf, hist, last
vars == <<fc, born, diel, cr, mass, asrOf, ewaldOf, imgOf, massOf, hist, last>>
V == 1..NV

Init == /\ fc = 1 /\ born \in 0..1 /\ diel = 1 /\ cr = 1 /\ mass = 1
        /\ asrOf = None /\ ewaldOf = None /\ imgOf = None
        /\ massOf = None /\ hist = << [op |-> "new", born |-> born] >> /\ last = None

Log(h) == hist' = Append(hist, h)

(* what the result must be made of *)
Current(asr, dip, eta) ==
    [fc |-> fc, asr |-> asr,
     cr |-> cr, mass |-> mass,
     dip |-> IF dip /\ born > 0 THEN <<born, diel, eta, cr>> ELSE None]

Calc(asr, dip, eta, grad) ==
    LET useDip == dip /\ born > 0
        a == IF asr = "realspace"
             THEN IF asrOf = None THEN <<fc>> ELSE asrOf
             ELSE asrOf
        (* tables are remade if there are none or eta differs *)
        w == IF ~useDip THEN ewaldOf
             ELSE IF ewaldOf = None \/ ewaldOf[3] # eta
                  THEN <<born, diel, eta, cr>> ELSE ewaldOf
        mw == IF massOf = None THEN <<mass>> ELSE massOf
        im == IF imgOf = None THEN <<cr>> ELSE imgOf
    IN /\ asrOf' = a /\ ewaldOf' = w /\ imgOf' = im /\ massOf' = mw
       /\ last' = [want |-> Current(asr, dip, eta),
                   got  |-> [fc |-> IF asr = "realspace" THEN a[1] ELSE fc,
                             asr |-> asr, cr |-> im[1], mass |-> mw[1],
                             dip |-> IF useDip THEN w ELSE None]]
       /\ Log([op |-> "calc", asr |-> asr, dip |-> dip, eta |-> eta,
               grad |-> grad, want |-> Current(asr, dip, eta)])
       /\ UNCHANGED <<fc, born, diel, cr, mass>>

SetFc(v) == /\ v # fc /\ fc' = v
            /\ asrOf' = IF "asr" \in Keep THEN asrOf ELSE None
            /\ Log([op |-> "fc", v |-> v])
            /\ UNCHANGED <<born, diel, cr, mass, ewaldOf, imgOf, massOf>> /\ last' = None
SetBorn(v) == /\ born > 0 /\ v # born /\ born' = v
              /\ ewaldOf' = IF "ewald" \in Keep THEN ewaldOf ELSE None
              /\ Log([op |-> "born", v |-> v])
              /\ UNCHANGED <<fc, diel, cr, mass, asrOf, imgOf, massOf>> /\ last' = None
SetDiel(v) == /\ born > 0 /\ v # diel /\ diel' = v
              /\ ewaldOf' = IF "ewald" \in Keep THEN ewaldOf ELSE None
              /\ Log([op |-> "diel", v |-> v])
              /\ UNCHANGED <<fc, born, cr, mass, asrOf, imgOf, massOf>> /\ last' = None
(* the cell: new vectors or positions, written to the crystal or as a whole *)
SetCell(v, how) ==
    /\ v # cr /\ cr' = v
    /\ ewaldOf' = IF "cell" \in Keep THEN ewaldOf ELSE None
    /\ imgOf' = IF "images" \in Keep THEN imgOf ELSE None
    /\ Log([op |-> "cell", v |-> v, how |-> how])
    /\ UNCHANGED <<fc, born, diel, mass, asrOf, massOf>> /\ last' = None
(* isotopes: all results scale with the masses, nothing else is made of them *)
SetMass(v) == /\ v # mass /\ mass' = v /\ Log([op |-> "mass", v |-> v])
              /\ massOf' = IF "mass" \in Keep THEN massOf ELSE None
              /\ UNCHANGED <<fc, born, diel, cr, asrOf, ewaldOf, imgOf>>
              /\ last' = None
SetUnit(w) == /\ Log([op |-> "unit", what |-> w]) /\ last' = None
              /\ UNCHANGED <<fc, born, diel, cr, mass, asrOf, ewaldOf, imgOf, massOf>>
Copy == /\ Log([op |-> "copy"]) /\ last' = None
        /\ asrOf' = None /\ ewaldOf' = None /\ imgOf' = None /\ massOf' = None
        /\ UNCHANGED <<fc, born, diel, cr, mass>>

Next == /\ Len(hist) <= Depth
        /\ \/ \E a \in {"none", "realspace", "reciprocal"} : \E d \in BOOLEAN :
                \E e \in Etas : \E g \in (IF Sim THEN BOOLEAN ELSE {FALSE}) :
                   (d \/ e = CHOOSE x \in Etas : TRUE) /\ Calc(a, d, e, g)
           \/ \E v \in V : SetFc(v) \/ SetBorn(v) \/ SetDiel(v) \/ SetMass(v)
           \/ \E v \in V : \E h \in (IF Sim THEN {"write", "replace"} ELSE {"write"}) :
                SetCell(v, h)
           \/ Sim /\ \E w \in {"fc", "born", "diel", "cell", "mass"} : SetUnit(w)
           \/ Sim /\ Copy
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Fresh == last # None => last.got = last.want
Emit == EmitOn /\ Len(hist) = Depth + 1 =>
          PrintT("@@" \o ToJson([hist |-> hist]))
(* exploration without the history: every reachable cache state, any length *)
NoHist == <<fc, born, diel, cr, mass, asrOf, ewaldOf, imgOf, massOf, last>>
=============================================================================
