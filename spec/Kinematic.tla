----------------------------- MODULE Kinematic ------------------------------
(* Kinematic constraints: which (Q, E) bins a neutron spectrometer can reach.

   Energies are integers (the y axis doubled, so that bin centres are
   integers), squares of momenta are energies over a fixed constant, so
   q^2 = Ei + Ef - 2 cos(2theta) sqrt(Ei Ef).  Angles are multiples of 30 and
   45 degrees, whose squared cosines are rational: every comparison with a bin
   edge x (in units of 1/X) is decided exactly by squaring.
   The machine takes one energy after the other. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, j, mask
vars == <<c, j, mask>>
C == Cases[c]
E0 == 2*C.e0                       \* doubled fixed energy
(* y: edges (one more than NY) or centres; doubled centre *)
W2(i) == IF C.ye THEN C.y[i] + C.y[i + 1] ELSE 2*C.y[i]
NY == IF C.ye THEN Len(C.y) - 1 ELSE Len(C.y)
(* x bin edges, doubled *)
NX == IF C.xe THEN Len(C.x) - 1 ELSE Len(C.x)
XE2 == IF C.xe THEN [i \in 1..Len(C.x) |-> 2*C.x[i]]
       ELSE [i \in 1..(NX + 1) |-> IF i = 1 THEN 2*C.x[1]
               ELSE IF i = NX + 1 THEN 2*C.x[NX] ELSE C.x[i - 1] + C.x[i]]
Ei(i) == IF C.direct THEN E0 ELSE E0 + W2(i)
Ef(i) == IF C.direct THEN E0 - W2(i) ELSE E0

(* cosine as <<sign, square * 4>> *)
Cos(a) == LET m == a % 360 r == IF m > 180 THEN 360 - m ELSE m IN
   IF r = 0 THEN <<1, 4>> ELSE IF r = 30 THEN <<1, 3>>
   ELSE IF r = 45 THEN <<1, 2>> ELSE IF r = 60 THEN <<1, 1>>
   ELSE IF r = 90 THEN <<0, 0>> ELSE IF r = 120 THEN <<-1, 1>>
   ELSE IF r = 135 THEN <<-1, 2>> ELSE IF r = 150 THEN <<-1, 3>> ELSE <<-1, 4>>
Lo == Min2(C.angles[1], C.angles[2])
Hi == Max2(C.angles[1], C.angles[2])
(* largest and smallest cosine over the closed range: smallest and largest
   distance to a multiple of 360 *)
Has(m) == \E k \in -4..4 : Lo <= 360*k + m /\ 360*k + m <= Hi
S4(v) == v[1]*v[2]
CosMax == IF Has(0) THEN <<1, 4>> ELSE
          IF S4(Cos(Lo)) > S4(Cos(Hi)) THEN Cos(Lo) ELSE Cos(Hi)
CosMin == IF Has(180) THEN <<-1, 4>> ELSE
          IF S4(Cos(Lo)) > S4(Cos(Hi)) THEN Cos(Hi) ELSE Cos(Lo)
(* compare x^2 with q^2 for the doubled edge x2, energies doubled:
   x^2 = x2^2/(4 X^2);  2 q^2 = Ei + Ef - 2 cos sqrt(Ei Ef), so with
   A = Ei + Ef - x2^2/(2 X^2):   x < q iff 2 cos sqrt(Ei Ef) < A.
   scaled by 2 X^2: A' = 2X^2(Ei + Ef) - x2^2 and (2 cos)^2 = square*4 *)
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
A(i, x2) == 2*C.X*C.X*(Ei(i) + Ef(i)) - x2*x2
B2(i, cs) == cs[2]*Ei(i)*Ef(i)*4*C.X*C.X*C.X*C.X   \* square of 2X^2 2cos sqrt
(* sign of x - q: + if x > q *)
CmpX(i, x2, cs) ==
   LET a == A(i, x2) IN
   IF Sign(a) # cs[1] THEN (IF cs[1] > Sign(a) THEN 1 ELSE -1)
   ELSE IF Sign(a) = 0 THEN 0
   ELSE Sign(a)*Sign(B2(i, cs) - a*a)
Physical(i) == Ei(i) >= 0 /\ Ef(i) >= 0
Side(i) == Ei(i)*Ef(i) = 0
(* bin value: 0 kept, 1 masked, 2 undecided: an edge exactly on a limit, or
   a neutron state with exactly no energy *)
CS(i, cs) == IF Side(i) THEN <<0, 0>> ELSE cs
Bin(i, k) == IF ~Physical(i) THEN 1 ELSE
   LET up == CmpX(i, XE2[k + 1], CS(i, CosMax))     \* upper edge against qmin
       dn == CmpX(i, XE2[k], CS(i, CosMin))         \* lower edge against qmax
   IN IF up < 0 \/ dn > 0 THEN 1
      ELSE IF up = 0 \/ dn = 0 \/ Side(i) THEN 2 ELSE 0
Init == c \in 1..Len(Cases) /\ j = 0 /\ mask = <<>>
Next == j < NY /\ j' = j + 1 /\ UNCHANGED c
        /\ mask' = Append(mask, [k \in 1..NX |-> Bin(j + 1, k)])
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == j = NY
(* what can be reached at one energy is an interval *)
Interval == \A i \in 1..j : \A k, l, m \in 1..NX :
   k < l /\ l < m /\ mask[i][k] # 1 /\ mask[i][m] # 1 => mask[i][l] # 1
(* elastic line, all angles: from zero to twice the momentum *)
Elastic == \A i \in 1..j : W2(i) = 0 /\ Has(0) /\ Has(180) /\ E0 > 0 =>
   \A k \in 1..NX : XE2[k] >= 0 =>
      (mask[i][k] = 1 <=> XE2[k]*XE2[k] > 8*C.X*C.X*E0)
(* gaining more energy than there is *)
Beyond == \A i \in 1..j : ((C.direct /\ W2(i) > E0) \/ (~C.direct /\ -W2(i) > E0)) =>
   \A k \in 1..NX : mask[i][k] = 1
Emit == Done => PrintT("@@" \o ToJson([id |-> C.id, mask |-> mask]))
=============================================================================
