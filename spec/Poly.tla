-------------------------------- MODULE Poly --------------------------------
(* Lagrangians as sums of monomials: [c |-> coefficient, k |-> <<exponent of  *)
(* each parameter>>], exponents being integers, and their derivatives.        *)
EXTENDS Num, Integers, Sequences, SequencesExt

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN "1" ELSE IF k < 0 THEN NDiv("1", Pow(x, -k)) ELSE NMul(x, Pow(x, k - 1))

Mono(m, x) == NMul(m.c, FoldLeft(LAMBDA a, i : NMul(a, Pow(x[i], m.k[i])), "1", [i \in 1..Len(x) |-> i]))
Val(p, x) == NSum([j \in 1..Len(p) |-> Mono(p[j], x)])
Diff(p, i) == [j \in 1..Len(p) |-> [c |-> NMul(p[j].c, NInt(p[j].k[i])), k |-> [p[j].k EXCEPT ![i] = @ - 1]]]
\* Sum of the absolute values of the terms: what rounding is relative to.
Mag(p, x) == NSum([j \in 1..Len(p) |-> NAbs(Mono(p[j], x))])
=============================================================================
