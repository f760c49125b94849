---------------------------- MODULE MC_Homotopy ----------------------------
(* Every pattern of solve results over a path of Steps factors, including    *)
(* paths that skip factors (adaptive stepping).                              *)
EXTENDS Homotopy
Points == {<<0>>, <<1>>}
Next == \/ \E v \in Points, s \in BOOLEAN : hphase = "idle" /\ HBegin(v, s)
        \/ \E v \in Points, ok \in BOOLEAN : Direct(ok, v) \/ \E n \in 0..Steps : Step(ok, v, n)
        \/ Break
        \/ hphase \in {"done", "broken"} /\ UNCHANGED hvars
Spec == HInit /\ [][Next]_hvars /\ WF_hvars(Next)
Terminates == <>(hphase \in {"done", "broken"})
\* what is returned is the point of the last solve
LastPoint == [][hphase' = "done" /\ hphase # "done" => hout' # <<>> /\ hout'[2] \in Points]_hvars
=============================================================================
