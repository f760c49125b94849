-------------------------------- MODULE Lin --------------------------------
(* Linear systems over the complex numbers of Cplx. *)
EXTENDS Cplx, SequencesExt, TLC, TLCExt

\* x with A x = b, by Gauss-Jordan elimination in the order of the rows.
Solve(A, b) ==
  LET n == Len(A)
      M0 == [i \in 1..n |-> A[i] \o <<b[i]>>]
      Step(M, k) ==
        LET p == CInv(M[k][k])
            rk == TLCEval([j \in 1..n+1 |-> CMul(p, M[k][j])])
        IN TLCEval([i \in 1..n |-> IF i = k THEN rk
                     ELSE LET q == M[i][k] IN
                          IF CIsZero(q) THEN M[i] ELSE TLCEval([j \in 1..n+1 |-> CSub(M[i][j], CMul(q, rk[j]))])])
      M == FoldLeft(Step, M0, [k \in 1..n |-> k])
  IN [i \in 1..n |-> M[i][n+1]]

MatVec(A, x) == [i \in 1..Len(A) |-> CSum([j \in 1..Len(x) |-> CMul(A[i][j], x[j])])]
=============================================================================
