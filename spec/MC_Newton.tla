----------------------------- MODULE MC_Newton -----------------------------
(* Exhaustive exploration of Newton with residuals 0..2 (tolerance 1), two   *)
(* points, up to six iterations and a window of two.                        *)
EXTENDS Newton, TLC
VARIABLE resOf     \* the physics: residual of each point
Points == {<<"a">>, <<"b">>, <<"c">>}
ILt(a, b) == a < b
ILe(a, b) == a <= b
RECURSIVE Trend(_, _)
Trend(h, k) == IF k = 0 THEN 0 ELSE (2 * k - 1 - Len(h)) * h[k] + Trend(h, k - 1)
IRising(h) == Trend(h, Len(h)) > 0
Init == NInit /\ resOf \in [Points -> 0..2]
Next ==
  /\ UNCHANGED resOf
  /\ \/ \E v \in Points, m \in 1..5, l \in BOOLEAN : phase = "idle" /\ Begin(v, 0, [tol |-> 1, max |-> m, limiting |-> l])
     \/ \E v \in Points : Propose(v) \/ Continue(v) \/ Exhaust(v)
     \/ Evaluate(resOf[vcand])
     \/ Accept \/ GiveUp
     \/ phase = "done" /\ UNCHANGED nvars
Fair == WF_<<nvars, resOf>>(Next)
Spec == Init /\ [][Next]_<<nvars, resOf>> /\ Fair
TrueResidual == outcome # <<>> /\ outcome[1] => resOf[outcome[2]] <= 1
Terminates == phase = "propose" ~> phase = "done"
=============================================================================
