------------------------------- MODULE Engine -------------------------------
(* The interpolation engine: reduction of the q-point list, the parallel loop
   over reduced q-points with its per-thread scratch, and the expansion back.

   A q-point is an integer vector over the denominator M.  The dynamical matrix
   of a q-point is a function of its class (q modulo the reciprocal lattice)
   and, at gamma points when LO-TO splitting is on, of the direction from which
   gamma is approached, so the abstract result is <<class, direction>>.

   Actions: Reduce (one step), then for each thread Take an iteration, Search
   for its q-direction one table entry at a time, Apply the correction into the
   result slot; when all slots are done, Expand.

   SharedSearch models search variables shared by the threads (what the C code
   did before it was repaired); MergeGamma models a reduction which merges the
   gamma points although splitting is on.  Both must violate the property. *)
EXTENDS Num, Json, IOUtils

CONSTANTS M, NT, SharedSearch, MergeGamma, FromFile, Vecs, MaxLen, EmitOn

Modulo(v) == <<v[1] % M, v[2] % M, v[3] % M>>
IsGamma(v) == Modulo(v) = <<0, 0, 0>>
NoDir == <<0, 0, 0>>

Lists == IF FromFile THEN Range(JsonDeserialize(IOEnv.VF_IN))
         ELSE UNION {[1..n -> Range(Vecs)] : n \in 1..MaxLen}

(* direction of approach of the k-th q-point of a path *)
Dir(qs, k) ==
    IF Len(qs) = 1 THEN NoDir
    ELSE LET fwd == IVSub(qs[k + 1], qs[k])
             bwd == IVSub(qs[k], qs[k - 1])
             d == IF k = 1 THEN fwd
                  ELSE IF k = Len(qs) THEN bwd
                  ELSE IF IsGamma(fwd) THEN bwd ELSE fwd
         IN IF IsGamma(d) THEN NoDir ELSE d

Expected(qs, split, k) ==
    <<Modulo(qs[k]), IF split /\ IsGamma(qs[k]) THEN Dir(qs, k) ELSE NoDir>>

VARIABLES qs, split, reduce, pc, red, idx, slotdir, out, thr, shared, res
vars == <<qs, split, reduce, pc, red, idx, slotdir, out, thr, shared, res>>
Threads == 1..NT

Init == /\ qs \in Lists
        /\ split \in BOOLEAN
        /\ reduce \in BOOLEAN
        /\ pc = "reduce"
        /\ red = <<>> /\ idx = <<>> /\ slotdir = <<>>
        /\ out = <<>> /\ res = <<>>
        /\ thr = [t \in Threads |-> [st |-> "idle", q |-> 0, i |-> 0, pos |-> 0]]
        /\ shared = [i |-> 0, pos |-> 0]

(* first occurrence of each class, plus (splitting) every further gamma *)
Leader(k) ==
    IF ~reduce THEN k
    ELSE IF split /\ ~MergeGamma /\ IsGamma(qs[k]) THEN k
    ELSE CHOOSE j \in 1..k : /\ Modulo(qs[j]) = Modulo(qs[k])
                             /\ \A i \in 1..(j-1) : Modulo(qs[i]) # Modulo(qs[k])

Reduce ==
    /\ pc = "reduce"
    /\ LET leaders == {Leader(k) : k \in 1..Len(qs)}
           ls == SortedSeq(leaders)
           pos(k) == CHOOSE p \in 1..Len(ls) : ls[p] = k
           gs == SelectSeq(ls, LAMBDA k : IsGamma(qs[k]))
       IN /\ red' = [p \in 1..Len(ls) |-> Modulo(qs[ls[p]])]
          /\ idx' = [k \in 1..Len(qs) |-> pos(Leader(k))]
          (* table of <<slot, direction>> for the gamma slots *)
          /\ slotdir' = IF split
                        THEN [g \in 1..Len(gs) |-> <<pos(gs[g]), Dir(qs, gs[g])>>]
                        ELSE <<>>
          /\ out' = [p \in 1..Len(ls) |-> <<>>]
    /\ pc' = "loop"
    /\ UNCHANGED <<qs, split, reduce, thr, shared, res>>

Busy == {thr[t].q : t \in {u \in Threads : thr[u].st # "idle"}}

Take(t) ==
    /\ pc = "loop" /\ thr[t].st = "idle"
    /\ \E q \in 1..Len(red) :
         /\ out[q] = <<>> /\ q \notin Busy
         /\ IF split /\ IsGamma(red[q])
            THEN /\ thr' = [thr EXCEPT ![t] = [st |-> "search", q |-> q,
                                               i |-> 1, pos |-> 0]]
                 /\ shared' = IF SharedSearch THEN [i |-> 1, pos |-> 0]
                              ELSE shared
                 /\ UNCHANGED out
            ELSE /\ out' = [out EXCEPT ![q] = <<red[q], NoDir>>]
                 /\ UNCHANGED <<thr, shared>>
    /\ UNCHANGED <<qs, split, reduce, pc, red, idx, slotdir, res>>

CurI(t) == IF SharedSearch THEN shared.i ELSE thr[t].i
CurPos(t) == IF SharedSearch THEN shared.pos ELSE thr[t].pos

Search(t) ==
    /\ pc = "loop" /\ thr[t].st = "search"
    /\ IF CurI(t) > Len(slotdir)
       THEN /\ thr' = [thr EXCEPT ![t].st = "apply"]
            /\ UNCHANGED shared
       ELSE IF slotdir[CurI(t)][1] = thr[t].q
       THEN /\ thr' = [thr EXCEPT ![t].st = "apply", ![t].pos = CurI(t)]
            /\ shared' = IF SharedSearch THEN [shared EXCEPT !.pos = shared.i]
                         ELSE shared
       ELSE /\ thr' = [thr EXCEPT ![t].i = @ + 1]
            /\ shared' = IF SharedSearch THEN [shared EXCEPT !.i = @ + 1]
                         ELSE shared
    /\ UNCHANGED <<qs, split, reduce, pc, red, idx, slotdir, out, res>>

Apply(t) ==
    /\ pc = "loop" /\ thr[t].st = "apply"
    /\ out' = [out EXCEPT ![thr[t].q] =
                 <<red[thr[t].q],
                   IF CurPos(t) \in 1..Len(slotdir) THEN slotdir[CurPos(t)][2]
                   ELSE NoDir>>]
    /\ thr' = [thr EXCEPT ![t].st = "idle"]
    /\ UNCHANGED <<qs, split, reduce, pc, red, idx, slotdir, shared, res>>

Expand ==
    /\ pc = "loop"
    /\ \A q \in 1..Len(red) : out[q] # <<>>
    /\ res' = [k \in 1..Len(qs) |-> out[idx[k]]]
    /\ pc' = "done"
    /\ UNCHANGED <<qs, split, reduce, red, idx, slotdir, out, thr, shared>>

Next == Reduce \/ Expand \/ \E t \in Threads : Take(t) \/ Search(t) \/ Apply(t)
Spec == Init /\ [][Next]_vars

(* used when only the expected results of given lists are wanted *)
Jump == /\ pc = "reduce"
        /\ res' = [k \in 1..Len(qs) |-> Expected(qs, split, k)]
        /\ pc' = "done"
        /\ UNCHANGED <<qs, split, reduce, red, idx, slotdir, out, thr, shared>>
JumpSpec == Init /\ ~reduce /\ [][Jump]_vars
-----------------------------------------------------------------------------
Correct == pc = "done" =>
              \A k \in 1..Len(qs) : res[k] = Expected(qs, split, k)
NoDoubleWork == \A t, u \in Threads : t # u /\ thr[t].st # "idle"
                    /\ thr[u].st # "idle" => thr[t].q # thr[u].q
ReducedSmaller == pc = "loop" /\ reduce => Len(red) <= Len(qs)
Emit == EmitOn /\ pc = "done" =>
    PrintT("@@" \o ToJson([qs |-> qs, split |-> split, res |-> res]))
=============================================================================
