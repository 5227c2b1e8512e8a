------------------------------- MODULE Orbits -------------------------------
(* Symmetry partners of a wave vector in reciprocal space.

   A wave vector is an integer triple in units of 1/M of the reciprocal cell.
   A walk starts somewhere and applies reciprocal lattice translations and time
   reversal; the specification tracks, for each point of the walk, whether the
   dynamical matrix there is that of the starting point or its complex
   conjugate.  What the specification says about the implementation:
      D(q) = D(q0)        if the point is translated only,
      D(q) = conj(D(q0))  if time reversal was applied an odd number of times. *)
EXTENDS Num, Json, IOUtils

CONSTANTS M, Depth, Shifts

Starts == JsonDeserialize(IOEnv.VF_IN)

VARIABLES s, q, neg, walk
vars == <<s, q, neg, walk>>

Mod(v) == <<v[1] % M, v[2] % M, v[3] % M>>
Neg(v) == <<-v[1], -v[2], -v[3]>>

Init == /\ s \in 1..Len(Starts)
        /\ q = Starts[s]
        /\ neg = FALSE
        /\ walk = << [q |-> Starts[s], conj |-> FALSE] >>

Step(q2, n2) == /\ q' = q2
                /\ neg' = n2
                /\ walk' = Append(walk, [q |-> q2, conj |-> n2])
                /\ UNCHANGED s

Translate == \E i \in 1..Len(Shifts) : \E sg \in {1, -1} :
                Step(IVAdd(q, IVScale(sg * M, Shifts[i])), neg)
Reverse == Step(Neg(q), ~neg)

Next == Len(walk) <= Depth /\ (Translate \/ Reverse)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
q0 == Starts[s]
(* the walk never leaves the star {q0 + G, -q0 + G} *)
OnStar == Mod(q) = Mod(IF neg THEN Neg(q0) ELSE q0)
(* at a time-reversal invariant momentum both readings must agree, i.e. the
   dynamical matrix has to be real there *)
Trim(v) == Mod(IVScale(2, v)) = <<0, 0, 0>>
RealAtTrim == \A i \in 1..Len(walk) :
                 Trim(q0) => Mod(walk[i].q) = Mod(q0)
Emit == Len(walk) = Depth + 1 =>
          PrintT("@@" \o ToJson([s |-> s, m |-> M, trim |-> Trim(q0),
                                 walk |-> walk]))
=============================================================================
