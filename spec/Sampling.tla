------------------------------- MODULE Sampling -------------------------------
(* Point sets, generated one point at a time.

   golden   i-th point (i/n (+ 1/2n), frac(i / Phi)); with 1/Phi = (r5 - 1)/2
            the whole part of i / Phi is the m with (2m + i)^2 <= 5 i^2 < (2m + 2 + i)^2,
            so that y = (i r5 - i - 2m) / 2 exactly
   square   (c + 1/2 or 0)/columns, (r + 1/2 or 0)/rows
   polar    azimuth -1/2 + p/n_phi (turns), polar angle (2t + 1)/(2 n_theta) (half turns)
   rings    n_theta = floor(sqrt(pi n / 4)) rings of equal polar angle spacing; the
            points k/(n - 1) of [0, 1] fall into rings with edges (1 - cos(j pi/n_theta))/2,
            the share of the circumference of the first j rings
   mp       (2r - n - 1)/2n in each direction

   A square point (x, y) is on the sphere at z = 2x - 1 and azimuth y (turns). *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, pts
vars == <<c, pts>>
C == Cases[c]
Half == IF C.off THEN 1 ELSE 0

RECURSIVE Isqrt(_, _, _)
Isqrt(v, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2
                         IN IF m * m <= v THEN Isqrt(v, m, hi) ELSE Isqrt(v, lo, m)
Whole(i) == (Isqrt(5 * i * i, 0, 3 * i + 2) - i) \div 2
Golden(i) == <<Rat(2*i + Half, 2*C.n[1]), <<i, Whole(i)>>>>

Square(k) == LET r == k % C.n[1] q == k \div C.n[1]
             IN <<Rat(2*q + Half, 2*C.n[2]), Rat(2*r + Half, 2*C.n[1])>>
Polar(k) == LET t == k % C.n[2] p == k \div C.n[2]
            IN <<Rat(2*p - C.n[1], 2*C.n[1]), Rat(2*t + 1, 2*C.n[2])>>
Mp(k) == LET h == k \div (C.n[2]*C.n[3]) q == (k \div C.n[3]) % C.n[2] l == k % C.n[3]
             f(r, n) == Rat(2*r + 1 - n, 2*n)
         IN <<f(h, C.n[1]), f(q, C.n[2]), f(l, C.n[3])>>

(* C.cos[j + 1]: cos(j pi / n_theta) in units of 1/C.den, to within 1 *)
NT == Len(C.cos) - 1
(* certainly below, certainly not below, or rounding decides *)
Below(k, j) == LET d == 2*k*C.den - (C.den - C.cos[j + 1])*(C.n[1] - 1)
               IN IF d < -2*C.n[1] THEN 1 ELSE IF d > 2*C.n[1] THEN -1 ELSE 0
RingLo(k) == IF k = C.n[1] - 1 THEN NT
             ELSE CHOOSE j \in 1..NT : (j = NT \/ Below(k, j) >= 0) /\
                                       \A h \in 1..j - 1 : Below(k, h) < 0
RingHi(k) == IF k = C.n[1] - 1 THEN NT
             ELSE CHOOSE j \in 1..NT : (j = NT \/ Below(k, j) > 0) /\
                                       \A h \in 1..j - 1 : Below(k, h) <= 0
Ring(k) == <<RingLo(k), RingHi(k)>>

Total == CASE C.kind = "mp" -> C.n[1]*C.n[2]*C.n[3]
           [] C.kind \in {"square", "polar"} -> C.n[1]*C.n[2]
           [] OTHER -> C.n[1]
Point(k) == CASE C.kind = "golden" -> Golden(k) [] C.kind = "square" -> Square(k)
              [] C.kind = "polar" -> Polar(k) [] C.kind = "mp" -> Mp(k)
              [] OTHER -> Ring(k)

Init == c \in 1..Len(Cases) /\ pts = <<>>
Next == Len(pts) < Total /\ pts' = Append(pts, Point(Len(pts))) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Full == Len(pts) = Total
(* all in the unit square, and different *)
Inside == (pts # <<>> /\ C.kind \in {"golden", "square"}) =>
   LET p == pts[Len(pts)]
   IN /\ RLe(RZero, p[1]) /\ RLt(p[1], ROne)
      /\ C.kind = "square" => RLe(RZero, p[2]) /\ RLt(p[2], ROne)
      /\ C.kind = "golden" =>
           LET i == p[2][1] m == p[2][2]      \* 0 <= i r5 - i - 2m < 2
           IN (i + 2*m)*(i + 2*m) <= 5*i*i /\ 5*i*i < (i + 2*m + 2)*(i + 2*m + 2)
Distinct == (Full /\ C.kind # "rings") => Cardinality(Range(pts)) = Len(pts)
(* regular grids go into themselves under inversion *)
Inversion == (Full /\ C.kind = "mp") =>
   \A k \in 1..Len(pts) : <<RNeg(pts[k][1]), RNeg(pts[k][2]), RNeg(pts[k][3])>> \in Range(pts)
(* rings get about their share *)
Shares == (Full /\ C.kind = "rings") =>
   \A j \in 1..NT :
      LET m == Cardinality({k \in 1..Len(pts) : pts[k][1] <= j /\ j <= pts[k][2]})
          share == (C.cos[j] - C.cos[j + 1])*(C.n[1] - 1)
      IN m * 2*C.den <= share + 6*C.den /\ m * 2*C.den >= share - 4*C.den
(* the number of rings: pi to within 1e-7 *)
Rows == C.kind = "rings" => /\ 4*113*NT*NT <= 355*C.n[1]
                            /\ 355*C.n[1] < 4*113*(NT + 1)*(NT + 1)
Emit == Full => PrintT("@@" \o ToJson([id |-> C.id, pts |-> pts]))
=============================================================================
