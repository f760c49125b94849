--------------------------- MODULE MC_DeviceLoop ---------------------------
EXTENDS DeviceLoop
IGt(a, b) == a > b
Q == 0..4
Cap(m, c) == [t |-> "cap", mode |-> m, closed |-> c, low |-> 1, high |-> 3]
Fuse(b) == [t |-> "fuse", limit |-> 3, blown |-> b]
Fleet == {<<Cap("VOLT", c), Fuse(b), Cap(m, d)>> : c, b, d \in BOOLEAN, m \in {"VOLT", "MANUAL"}}
Seen == {<<a, b, c>> : a, b, c \in {0, 2, 4}}
Next ==
  \/ \E ds \in Fleet, q \in Seen, ctl \in BOOLEAN, d \in {1, -1} : DBegin(ds, <<0>>, q, ctl, d)
  \/ \E ok \in BOOLEAN, q \in Seen : DSolve(ok, <<1>>, q)
  \/ DRespond
  \/ DReturn
  \/ DStop
  \/ dphase \in {"returned", "refused"} /\ UNCHANGED dvars
Spec == DInit /\ [][Next]_dvars /\ WF_dvars(Next)
Terminates == <>(dphase \in {"returned", "refused"})
=============================================================================
