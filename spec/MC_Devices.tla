----------------------------- MODULE MC_Devices -----------------------------
(* One device of each kind under every short sequence of observations and     *)
(* tap commands.                                                              *)
EXTENDS Devices
VARIABLES cap, fuse, tap, range, q, n
vars == <<cap, fuse, tap, range, q, n>>
IGt(a, b) == a > b
Init == /\ cap \in [t : {"cap"}, mode : {"VOLT", "MANUAL"}, closed : BOOLEAN, low : {2}, high : {4}]
        /\ fuse = [t |-> "fuse", limit |-> 3, blown |-> FALSE]
        /\ range \in [raise : 0..3, lower : 0..3] /\ tap = 0
        /\ q = 3 /\ n = 0
Next == /\ n < 6 /\ n' = n + 1
        /\ \E x \in 0..6, inc \in -3..3 :
             /\ q' = x
             /\ cap' = CapRespond(cap, x, 1) /\ fuse' = FuseRespond(fuse, x)
             /\ tap' = TapAfter(tap, inc, range.raise, range.lower)
        /\ UNCHANGED range
Spec == Init /\ [][Next]_vars
TapInRange == -range.lower <= tap /\ tap <= range.raise
FuseLatches == [][fuse.blown => fuse'.blown]_vars
FuseExact == [][~fuse.blown => (fuse'.blown <=> q' > fuse.limit)]_vars
\* Responding twice to the same observation changes nothing more, so the outer loop can settle.
Idempotent == CapRespond(CapRespond(cap, q, 1), q, 1) = CapRespond(cap, q, 1) /\ FuseRespond(FuseRespond(fuse, q), q) = FuseRespond(fuse, q)
\* A controlled capacitor never ends up fighting the voltage.
Supports == [][cap.mode = "VOLT" => (q' > cap.high => ~cap'.closed) /\ (q' < cap.low => cap'.closed)]_vars
ManualStays == [][cap.mode = "MANUAL" => cap' = cap]_vars
DeadBand == [][cap.low <= q' /\ q' <= cap.high => cap' = cap]_vars
=============================================================================
