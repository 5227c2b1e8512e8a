------------------------------- MODULE SFactor -------------------------------
(* One-phonon structure factor of one mode.

   sf = |sum_k b_k / sqrt(m_k) exp(i Q.r_k) exp(-W_k) Q.e_k*|^2 / (2 N |w|)

   Exact choices: q = n/mq and r = R/mr, so every phase is a power of the m-th
   root of unity (m = mq mr); sqrt(m_k) = s_k units; e_k has Gaussian integer
   components along the cell vectors, so Q.e is 2 pi times an integer over mq;
   the Debye-Waller exponent is Q.W.Q = ln2 (n.M.n)/mq^2 with an integer value.
   A number is a vector of m Gaussian integers (coefficients of the powers).
   The machine adds one atom at a time, then squares. *)
EXTENDS Num, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_IN)
VARIABLES c, v, left, acc, sq
vars == <<c, v, left, acc, sq>>
C == Cases[c]
NA == Len(C.R)
m == C.mq * C.mr

(* Gaussian integers *)
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
GConj(a) == <<a[1], -a[2]>>
GInt(k) == <<k, 0>>

Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmOf(_, _)
LcmOf(s, n) == IF n = 1 THEN s[1] ELSE Lcm(s[n], LcmOf(s, n - 1))
S == LcmOf(C.s, NA)
QM(k) == (IDot(IVMat(C.n, C.M[k]), C.n)) \div (C.mq * C.mq)   \* 0 if no DW
RECURSIVE MaxOf(_, _)
MaxOf(f(_), n) == IF n = 1 THEN f(1) ELSE Max2(f(n), MaxOf(f, n - 1))
EMax == MaxOf(QM, NA)
Exact == \A k \in 1..NA :
     IDot(IVMat(C.n, C.M[k]), C.n) % (C.mq * C.mq) = 0 /\ QM(k) >= 0

Phase(k) == IDot(C.n, C.R[k]) % m
QdotE(mode, k) == LET u == C.u[mode][k] n == C.n IN
   <<n[1]*u[1][1] + n[2]*u[2][1] + n[3]*u[3][1],
     -(n[1]*u[1][2] + n[2]*u[2][2] + n[3]*u[3][2])>>
(* contribution of atom k, without its phase: over the denominator
   mq S 2^EMax *)
Term(mode, k) == GMul(GMul(C.b[k], QdotE(mode, k)),
                      GInt((S \div C.s[k]) * 2^(EMax - QM(k))))
Zero == [j \in 0..(m - 1) |-> <<0, 0>>]

(* |a|^2 : coefficient j of a conj(a) *)
RECURSIVE GSum(_, _)
GSum(f(_), hi) == IF hi < 0 THEN <<0, 0>> ELSE GAdd(f(hi), GSum(f, hi - 1))
Square(a) == [j \in 0..(m - 1) |->
     LET t(x) == GMul(a[(x + j) % m], GConj(a[x])) IN GSum(t, m - 1)]

Init == /\ c \in 1..Len(Cases) /\ v \in 1..Len(Cases[c].u)
        /\ left = 1..Len(Cases[c].R)
        /\ acc = [j \in 0..(Cases[c].mq * Cases[c].mr - 1) |-> <<0, 0>>]
        /\ sq = <<>>
(* any order of atoms gives the same *)
AddAtom == /\ left # {}
           /\ \E k \in left : /\ left' = left \ {k}
                              /\ acc' = [acc EXCEPT ![Phase(k)] =
                                              GAdd(acc[Phase(k)], Term(v, k))]
           /\ UNCHANGED <<c, v, sq>>
Finish == left = {} /\ sq = <<>> /\ sq' = Square(acc) /\ UNCHANGED <<c, v, left, acc>>
Next == AddAtom \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == sq # <<>>
(* |.|^2 is real: coefficients come in conjugate pairs *)
Real == Done => \A j \in 0..(m - 1) : sq[j] = GConj(sq[(m - j) % m])
(* a global phase of the eigenvector, i, changes nothing; nor does a common
   origin shift *)
Rotate(a) == [j \in 0..(m - 1) |-> GMul(<<0, 1>>, a[j])]
ShiftBy(a, d) == [j \in 0..(m - 1) |-> a[(j + d) % m]]
PhaseFree == Done => /\ Square(Rotate(acc)) = sq
                     /\ Square(ShiftBy(acc, 1)) = sq
(* the zone centre of the first zone has no intensity *)
GammaDark == Done /\ C.n = <<0, 0, 0>> => sq = Zero
(* the order of the atoms does not matter: every order reaches the same acc *)
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN Zero
            ELSE [Total(k - 1) EXCEPT ![Phase(k)] = GAdd(@, Term(v, k))]
Commutes == Done => acc = Total(NA)
Emit == Done => PrintT("@@" \o ToJson(
   [id |-> C.id, v |-> v, sq |-> [j \in 1..m |-> sq[j - 1]],
    den |-> C.mq * S * 2^EMax]))
=============================================================================
