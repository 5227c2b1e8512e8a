-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic used by all the specifications: integer vectors and
   matrices, and normalised rationals <<num, den>> (den > 0, gcd = 1).
   TLC integers are 32 bit and overflow is an error, never a wrong value. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)

(* floor division and modulus are TLA+'s \div and % for positive divisors *)
Rat(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                 g == Gcd(Abs(n), Abs(d))
             IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
RZero == <<0, 1>>
ROne  == <<1, 1>>
RInt(n) == <<n, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN  Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g),
                      a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == Rat(a[1], b[2])
                  y == Rat(b[1], a[2])
              IN  Rat(x[1] * y[1], x[2] * y[2])
RInv(a) == Rat(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RAbs(a) == <<Abs(a[1]), a[2]>>
RLe(a, b) == RSub(a, b)[1] <= 0
RLt(a, b) == RSub(a, b)[1] < 0
REq(a, b) == a = b
RFloor(a) == a[1] \div a[2]
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a

RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN ROne ELSE RMul(a, RPow(a, n - 1))

(* folds over 1..n, left to right; tail call is avoided by halving *)
RECURSIVE SumInt(_, _, _)
SumInt(f(_), lo, hi) == IF lo > hi THEN 0
                        ELSE IF lo = hi THEN f(lo)
                        ELSE LET m == (lo + hi) \div 2
                             IN SumInt(f, lo, m) + SumInt(f, m + 1, hi)
RECURSIVE SumRat(_, _, _)
SumRat(f(_), lo, hi) == IF lo > hi THEN RZero
                        ELSE IF lo = hi THEN f(lo)
                        ELSE LET m == (lo + hi) \div 2
                             IN RAdd(SumRat(f, lo, m), SumRat(f, m + 1, hi))

RSeqSum(s) == LET f(i) == s[i] IN SumRat(f, 1, Len(s))
ISeqSum(s) == LET f(i) == s[i] IN SumInt(f, 1, Len(s))

(* 3-vectors and 3x3 matrices of integers *)
IDot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
IVAdd(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
IVSub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
IVScale(k, a) == <<k*a[1], k*a[2], k*a[3]>>
ICross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
IDet(m) == IDot(m[1], ICross(m[2], m[3]))
(* row vector times matrix:  v . M *)
IVMat(v, m) == <<v[1]*m[1][1]+v[2]*m[2][1]+v[3]*m[3][1],
                 v[1]*m[1][2]+v[2]*m[2][2]+v[3]*m[3][2],
                 v[1]*m[1][3]+v[2]*m[2][3]+v[3]*m[3][3]>>
IMatMul(a, b) == <<IVMat(a[1], b), IVMat(a[2], b), IVMat(a[3], b)>>
ITrans(m) == <<<<m[1][1], m[2][1], m[3][1]>>,
               <<m[1][2], m[2][2], m[3][2]>>,
               <<m[1][3], m[2][3], m[3][3]>>>>
IdMat == <<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>

(* rational vectors *)
RDot(a, b) == RAdd(RAdd(RMul(a[1],b[1]), RMul(a[2],b[2])), RMul(a[3],b[3]))

(* sequences *)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})
CountIn(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
IsPermutationSeq(s) == Range(s) = 1..Len(s)
=============================================================================
