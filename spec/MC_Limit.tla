------------------------------ MODULE MC_Limit ------------------------------
(* Iterates on a grid, proposals drawn freely, up to 5 limited steps. *)
EXTENDS Limit
VARIABLES x, prop, k
Isv == <<TRUE, FALSE>>
Grid == {"-9", "-2.5", "-2", "-1", "-0.25", "0", "0.5", "1", "1.75", "2", "3", "7"}
Init == x \in {<<a, "0">> : a \in Grid} /\ prop = x /\ k = 0
Next == /\ k < 5 /\ k' = k + 1
        /\ \E a \in Grid, b \in {"-9", "0", "9"} : prop' = <<a, b>>
        /\ x' = Limited(Isv, x, prop')
Spec == Init /\ [][Next]_<<x, prop, k>>
WithinVolt == k > 0 => NLe(NAbs(x[1]), MaxVolt)
OthersFree == x[2] = prop[2]
Idempotent == Limited(Isv, x, x)[1] = Clip(x[1], NNeg(MaxVolt), MaxVolt)
\* A step is never longer than MaxStep, unless it comes back from outside the range.
ShortSteps == [][NLe(NAbs(x[1]), MaxVolt) => NLe(NAbs(NSub(x'[1], x[1])), MaxStep)]_<<x, prop, k>>
\* A proposal that is near and in range is taken as it is.
NearTaken == [][NLe(NAbs(NSub(prop'[1], x[1])), MaxStep) /\ NLe(NAbs(prop'[1]), MaxVolt) => NEq(x'[1], prop'[1])]_<<x, prop, k>>
\* The step never points away from the proposal, if that is within reach.
Towards == [][NLe(NAbs(prop'[1]), MaxVolt) => NLe(NAbs(NSub(prop'[1], x'[1])), NAbs(NSub(prop'[1], x[1])))]_<<x, prop, k>>
=============================================================================
