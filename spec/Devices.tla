------------------------------ MODULE Devices ------------------------------
(***************************************************************************)
(* How voltage-switched capacitors, fuses and tap changers respond to a      *)
(* solution of the network.  A device is a record; Respond gives what it is   *)
(* after seeing the voltage magnitude / current magnitude q at its place.     *)
(* Orders are parameters, so the same rules run over integers (model          *)
(* checking) and decimal numbers (recorded executions).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Gt(_, _)

\* A capacitor holding voltage between low and high: connected when the voltage is
\* low, disconnected when it is high.  dir = -1 is the opposite rule.
CapRespond(d, q, dir) ==
  IF d.mode # "VOLT" THEN d
  ELSE IF Gt(q, d.high) THEN [d EXCEPT !.closed = (dir = -1)]
  ELSE IF Gt(d.low, q) THEN [d EXCEPT !.closed = (dir = 1)]
  ELSE d

\* A fuse blows when its current exceeds the limit and stays blown.
FuseRespond(d, q) == IF Gt(q, d.limit) THEN [d EXCEPT !.blown = TRUE] ELSE d

Respond(d, q, dir) == IF d.t = "cap" THEN CapRespond(d, q, dir) ELSE FuseRespond(d, q)
RespondAll(ds, qs, dir) == [i \in 1..Len(ds) |-> Respond(ds[i], qs[i], dir)]

\* A tap changer moves within its range.
Clamp(x, lo, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
TapAfter(tap, inc, raise, lower) == Clamp(tap + inc, -lower, raise)
=============================================================================
