------------------------------- MODULE Limit -------------------------------
(***************************************************************************)
(* Voltage limiting of a positive sequence network.  Between two iterates,  *)
(* each component (real, imaginary) of each bus voltage moves by at most    *)
(* MaxStep and stays within +-MaxVolt; other unknowns are not touched.      *)
(***************************************************************************)
EXTENDS Num, Sequences, Integers
MaxStep == "1"
MaxVolt == "2"
Clip(v, lo, hi) == NMax(lo, NMin(hi, v))
Limited1(prev, next) == Clip(NAdd(prev, Clip(NSub(next, prev), NNeg(MaxStep), MaxStep)), NNeg(MaxVolt), MaxVolt)
\* isv[i]: unknown i is a component of a bus voltage.
Limited(isv, prev, next) == [i \in 1..Len(next) |-> IF isv[i] THEN Limited1(prev[i], next[i]) ELSE next[i]]
=============================================================================
