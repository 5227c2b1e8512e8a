------------------------------ MODULE Optimise -------------------------------
(* Finding the best dipole parameter: parameters from the lowest to the highest
   in steps are tried in turn against a clock.  A calculation with parameter k
   takes setup[k] ticks and each[k] ticks for every q-point; printing takes
   ticks too, which are nobody's.  The tool suggests a parameter with the
   shortest time per q-point of the long calculation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxK, MaxN
VARIABLES job, clock, tried, now, phase
vars == <<job, clock, tried, now, phase>>

Rnd(S) == RandomElement(S)
(* parameters in thousandths *)
Value(k) == job.min + (k - 1)*job.step
NK == Cardinality({k \in 1..(MaxK + 1) : Value(k) <= job.max})
(* the furthest that the highest is beyond the last one tried *)
Most(st) == st - 1 - (st \div 50)
Opts == {"asr-real", "asr-reciprocal", "c", "no-c", "threads"}
-----------------------------------------------------------------------------
Init == /\ job = <<>> /\ clock = 0 /\ tried = <<>> /\ now = [init |-> 0, many |-> 0] /\ phase = "new"
New == /\ phase = "new" /\ phase' = "load" /\ UNCHANGED <<clock, tried, now>>
       /\ \E mn \in {Rnd({50, 100, 150, 250, 500, 750, 1000, 2500})} : \E st \in {Rnd({10, 20, 50, 100, 250, 300, 500})} :
           \E nk \in {Rnd(0..(MaxK - 1))} : \E over \in {Rnd(0..2)} : \E data \in {Rnd(1..8)} :
           \E cost \in {[k \in 1..MaxK |-> [setup |-> Rnd({0, 1, 5, 20, 300}), each |-> Rnd(0..6)]]} :
           \E o \in {{Rnd(Opts), Rnd(Opts \cup {"none"})}} :
             job' = [min |-> mn, step |-> st, max |-> mn + nk*st + CASE over = 0 -> 0 [] over = 1 -> Rnd(1..Most(st)) [] OTHER -> Most(st),
                    n |-> Rnd(1..MaxN), cost |-> cost, loud |-> Rnd({TRUE, FALSE}),
                    opts |-> o \ ({"none"} \cup (IF "c" \in o THEN {"no-c"} ELSE {})
                                   \cup (IF "asr-real" \in o THEN {"asr-reciprocal"} ELSE {})),
                    data |-> CASE data = 1 -> "modes" [] data \in 2..3 -> "uncharged" [] OTHER -> "fc"]
(* only force constants can be interpolated *)
Load == /\ phase = "load" /\ phase' = IF job.data = "modes" THEN "error" ELSE "one"
        /\ UNCHANGED <<job, clock, tried, now>>
(* printing, when asked to, takes time that is not measured *)
Chatter == /\ phase \in {"one", "many"} /\ job.loud /\ (clock % 7) # 0 /\ clock' = clock + 7 - (clock % 7)
           /\ UNCHANGED <<job, tried, now, phase>>
Cost(k) == job.cost[k]
One == /\ phase = "one" /\ phase' = "many"
       /\ LET t == Cost(Len(tried) + 1).setup + Cost(Len(tried) + 1).each IN
          /\ clock' = clock + t /\ now' = [now EXCEPT !.init = t]
       /\ UNCHANGED <<job, tried>>
Many == /\ phase = "many"
        /\ LET k == Len(tried) + 1
               t == Cost(k).setup + job.n*Cost(k).each IN
           /\ clock' = clock + t /\ now' = [now EXCEPT !.many = t]
           /\ tried' = Append(tried, [value |-> Value(k), init |-> now.init, many |-> t])
           /\ phase' = IF k = NK THEN "done" ELSE "one"
        /\ UNCHANGED job
Next == New \/ Load \/ Chatter \/ One \/ Many
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"
Best == {k \in DOMAIN tried : \A j \in DOMAIN tried : tried[k].many <= tried[j].many}
(* every parameter between the limits is tried once; the highest is one of them
   if steps lead to it *)
Covers == Done =>
   /\ tried[1].value = job.min
   /\ \A k \in DOMAIN tried : tried[k].value <= job.max
   /\ \A k \in 2..Len(tried) : tried[k].value - tried[k - 1].value = job.step
   /\ tried[Len(tried)].value + job.step > job.max
(* measured times leave out what is not the calculation *)
Measured == Done =>
   /\ Best # {}
   /\ \A k \in DOMAIN tried : tried[k].many - tried[k].init = (job.n - 1)*Cost(k).each
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE tried[k].init + tried[k].many + Sum(k - 1)
Clock == (phase = "one" => clock >= Sum(Len(tried))) /\ (Done => job.loud \/ clock = Sum(Len(tried)))
Emit == phase \in {"done", "error"} =>
          PrintT("@@" \o ToJson([job |-> job, tried |-> tried, best |-> Best, err |-> phase = "error"]))
=============================================================================
