-------------------------------- MODULE Units --------------------------------
(* Units of the quantities of an object.

   Abstractly, an object holds for each field a physical value (or none) and a
   display unit.  Concretely it holds a number in an internal unit: a fixed one
   (crystals, phonons) or the one it was made with (spectra).  Values and unit
   scales are logarithms (temperatures: themselves), so a conversion between
   linear units is a shift and one between reciprocal units (energy to
   wavelength) a reflection.  TLC checks that the concrete object always shows
   the abstract value; the history tells what has to be observed after each
   call.  Refused calls leave everything as it is. *)
EXTENDS Num, Json, IOUtils

CONSTANT MaxSteps
Worlds == JsonDeserialize(IOEnv.VF_IN)
(* world: fields << [units |-> <<[s, rec]..>>, fixed |-> 0 or unit, first |->
   unit, null |-> bool] >>, ops, bad *)
VARIABLES w, val, disp, int, inu, hist
vars == <<w, val, disp, int, inu, hist>>
None == 1000
W == Worlds[w]
NF == Len(W.fields)
U(f, u) == W.fields[f].units[u]
NU(f) == Len(W.fields[f].units)
(* number that stands for the canonical value p in unit u, and back *)
Num(f, p, u) == IF U(f, u).rec THEN U(f, u).s - p ELSE p - U(f, u).s
Canon(f, n, u) == IF U(f, u).rec THEN U(f, u).s - n ELSE n + U(f, u).s
Conv(f, n, u, v) == Num(f, Canon(f, n, u), v)
Shown(f) == IF int[f] = None THEN None ELSE Conv(f, int[f], inu[f], disp[f])

Log(op, f, a, b, ok, v, d) ==
   hist' = Append(hist, [op |-> op, f |-> f, a |-> a, b |-> b, ok |-> ok,
                         val |-> v, disp |-> d])
Same == UNCHANGED <<w, val, disp, int, inu>>
Rnd(S) == {RandomElement(S)}

Init == /\ w \in 1..Len(Worlds)
        /\ val = <<>> /\ disp = <<>> /\ int = <<>> /\ inu = <<>>
        /\ hist = <<>>
New == /\ hist = <<>> /\ UNCHANGED w
       /\ \E d \in {TLCEval([f \in 1..NF |-> RandomElement(1..NU(f))])} :
          \E v \in {TLCEval([f \in 1..NF |-> IF W.fields[f].null /\ W.null THEN None
                                             ELSE RandomElement(-2..2)])} :
          /\ val' = v /\ disp' = d
          /\ inu' = [f \in 1..NF |-> IF W.fields[f].fixed = 0 THEN d[f] ELSE W.fields[f].fixed]
          /\ int' = [f \in 1..NF |-> IF v[f] = None THEN None ELSE Num(f, v[f],
                       IF W.fields[f].fixed = 0 THEN d[f] ELSE W.fields[f].fixed)]
          /\ Log("new", 0, 0, 0, TRUE, v, d)
On == hist # <<>> /\ Len(hist) < MaxSteps
SetUnit == On /\ \E f \in Rnd(1..NF) : \E u \in Rnd(1..NU(f)) :
   /\ disp' = [disp EXCEPT ![f] = u]
   /\ UNCHANGED <<w, val, int, inu>>
   /\ Log("unit", f, u, 0, TRUE, val, disp')
Assign == On /\ \E f \in Rnd(1..NF) : \E u \in Rnd(1..NU(f)) : \E p \in Rnd(-2..2) :
   /\ disp' = [disp EXCEPT ![f] = u]
   /\ val' = [val EXCEPT ![f] = p]
   /\ int' = [int EXCEPT ![f] = Conv(f, Num(f, p, u), u, inu[f])]
   /\ UNCHANGED <<w, inu>>
   /\ Log("assign", f, u, p, TRUE, val', disp')
BadUnit == On /\ \E f \in Rnd(1..NF) : \E b \in Rnd(1..W.fields[f].bad) :
   Same /\ Log("unit", f, b, 0, FALSE, val, disp)
BadAssign == On /\ \E f \in Rnd(1..NF) : \E b \in Rnd(1..W.fields[f].badq) :
   Same /\ Log("assign", f, b, 0, FALSE, val, disp)
Calc == On /\ \E o \in Rnd(1..W.ops) : \E b \in Rnd(0..7) :
   Same /\ Log("calc", o, b, 0, TRUE, val, disp)
(* through a dictionary: an object made from what is shown *)
Rebuild == On /\ hist[Len(hist)].op # "rebuild" /\ hist[Len(hist)].op # "new"
   /\ inu' = [f \in 1..NF |-> IF W.fields[f].fixed = 0 THEN disp[f] ELSE inu[f]]
   /\ int' = [f \in 1..NF |-> IF int[f] = None THEN None
                              ELSE Conv(f, Shown(f), disp[f], inu'[f])]
   /\ UNCHANGED <<w, val, disp>>
   /\ Log("rebuild", 0, 0, 0, TRUE, val, disp)
Next == New \/ SetUnit \/ Assign \/ BadUnit \/ BadAssign \/ Calc \/ Rebuild
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* the concrete object shows the abstract value *)
Agrees == \A f \in 1..Len(val) :
   Shown(f) = (IF val[f] = None THEN None ELSE Num(f, val[f], disp[f]))
(* what was assigned is read back as it was *)
ReadBack == Len(hist) > 0 => LET h == hist[Len(hist)] IN
   h.op = "assign" /\ h.ok => Shown(h.f) = Num(h.f, h.b, h.a)
Emit == Len(hist) = MaxSteps => PrintT("@@" \o ToJson([w |-> w, h |-> hist]))
=============================================================================
