-------------------------------- MODULE Cplx --------------------------------
(* Complex numbers as pairs <<re, im>> of Num numbers. *)
EXTENDS Num, Integers, Sequences

C0 == <<"0", "0">>
C1 == <<"1", "0">>
CAdd(a, b) == <<NAdd(a[1], b[1]), NAdd(a[2], b[2])>>
CSub(a, b) == <<NSub(a[1], b[1]), NSub(a[2], b[2])>>
CNeg(a)    == <<NNeg(a[1]), NNeg(a[2])>>
CMul(a, b) == <<NSub(NMul(a[1], b[1]), NMul(a[2], b[2])),
                NAdd(NMul(a[1], b[2]), NMul(a[2], b[1]))>>
CScale(k, a) == <<NMul(k, a[1]), NMul(k, a[2])>>
CConj(a)   == <<a[1], NNeg(a[2])>>
CAbs2(a)   == NAdd(NMul(a[1], a[1]), NMul(a[2], a[2]))
CAbs(a)    == NSqrt(CAbs2(a))
CInv(a)    == LET d == CAbs2(a) IN <<NDiv(a[1], d), NNeg(NDiv(a[2], d))>>
CDiv(a, b) == CMul(a, CInv(b))
CPolar(m, ang) == <<NMul(m, NCos(ang)), NMul(m, NSin(ang))>>
CIsZero(a) == NIsZero(a[1]) /\ NIsZero(a[2])
CSum(s) == <<NSum([i \in 1..Len(s) |-> s[i][1]]), NSum([i \in 1..Len(s) |-> s[i][2]])>>
CClose(a, b, absTol, relTol) ==
  NLe(CAbs(CSub(a, b)), NAdd(absTol, NMul(relTol, NMax(CAbs(a), CAbs(b)))))
=============================================================================
