------------------------------ MODULE MC_Dump ------------------------------
(* Solve after solve in one directory: up to three solves of up to three     *)
(* iterations, with dumping on or off, two matrices, right-hand sides,       *)
(* points and lookup tables.                                                 *)
EXTENDS Dump
VARIABLE n      \* solves begun
AB == {"a", "b"}
Init == DInit /\ n = 0
Next ==
  \/ \E t \in AB, d \in BOOLEAN : n < 3 /\ (n = 0 \/ result # <<>>) /\ Start(t, d) /\ n' = n + 1
  \/ \E Y \in AB, r \in 0..1 : n > 0 /\ Len(made) < 3 /\ Iterate(Y, Y, r, IF r = 0 THEN table ELSE "other") /\ n' = n
  \/ \E v \in AB : Return(v) /\ n' = n
\* With dumping off nothing is written.
Untouched == [][~on' => files' = files]_<<dvars, n>>
=============================================================================
