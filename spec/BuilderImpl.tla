---------------------------- MODULE BuilderImpl ----------------------------
(* The storage scheme in use: buffers that only ever grow, and a fill index.  *)
(* Slots past the index keep stale values until overwritten.  It implements   *)
(* Builder as long as reads stop at the index.                                *)
EXTENDS Naturals, Sequences
CONSTANTS Values, Dim, MaxOps
VARIABLES buf, idx, ops
vars == <<buf, idx, ops>>
Init == buf = <<>> /\ idx = 0 /\ ops = 0
Put(r, c, v) ==
  /\ IF v = 0 THEN UNCHANGED <<buf, idx>>
     ELSE /\ buf' = IF idx = Len(buf) THEN Append(buf, <<r, c, v>>) ELSE [buf EXCEPT ![idx + 1] = <<r, c, v>>]
          /\ idx' = idx + 1
Reset(k) == k <= idx /\ idx' = k /\ UNCHANGED buf
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E r, c \in 1..Dim, v \in Values : Put(r, c, v)
           \/ \E k \in 0..Len(buf) : Reset(k)
Spec == Init /\ [][Next]_vars
Zero(v) == v = 0
Abs == INSTANCE Builder WITH held <- SubSeq(buf, 1, idx), IsZero <- Zero
AbsNext == \/ \E r, c \in 1..Dim, v \in Values : Abs!Stamp(r, c, v)
           \/ \E k \in 0..Abs!Usage : Abs!Clear(k)
Refines == Abs!BInit /\ [][AbsNext]_vars
IndexInRange == idx <= Len(buf) /\ \A i \in 1..Len(buf) : buf[i][3] # 0
=============================================================================
