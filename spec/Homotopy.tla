------------------------------ MODULE Homotopy ------------------------------
(***************************************************************************)
(* Continuation.  A network is first solved as given (factor 0).  If that    *)
(* fails and stepping is enabled, it is solved again from the start point    *)
(* at factor 1, and then at ever smaller factors down to 0, each solve       *)
(* starting at the previous solution; the first failure ends the attempt.    *)
(* Factors are counted in steps: Steps is factor 1.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Steps
VARIABLES hphase,    \* "idle" "asked" "direct" "stepping" "done"
          start,     \* start point
          cur,       \* point the next solve starts at
          factor,    \* factor of the pending / last solve
          stepping,  \* is stepping enabled
          solved,    \* factors solved so far in this attempt, latest last
          hout       \* <<ok, point, factor>>
hvars == <<hphase, start, cur, factor, stepping, solved, hout>>
HInit == hphase = "idle" /\ start = <<>> /\ cur = <<>> /\ factor = 0 /\ stepping = FALSE /\ solved = <<>> /\ hout = <<>>

HBegin(v0, st) ==
  /\ hphase \in {"idle", "done"}
  /\ hphase' = "direct" /\ start' = v0 /\ cur' = v0 /\ factor' = 0 /\ stepping' = st /\ solved' = <<>> /\ hout' = <<>>

\* A solve at `factor` from `cur` came back (and, if it succeeded, `next` is the factor chosen to follow).
Direct(ok, v) ==
  /\ hphase = "direct"
  /\ IF ok \/ ~stepping
     THEN /\ hphase' = "done" /\ hout' = <<ok, v, 0>> /\ UNCHANGED <<cur, factor>>
          /\ solved' = IF ok THEN <<0>> ELSE <<>>
     ELSE /\ hphase' = "stepping" /\ factor' = Steps /\ cur' = start /\ UNCHANGED hout /\ solved' = <<>>
  /\ UNCHANGED <<start, stepping>>

Step(ok, v, next) ==
  /\ hphase = "stepping"
  /\ IF ok /\ factor > 0
     THEN /\ cur' = v /\ solved' = Append(solved, factor) /\ UNCHANGED <<hphase, hout>>
          /\ next \in 0..factor-1 /\ factor' = next
     ELSE /\ hphase' = "done" /\ hout' = <<ok, v, factor>> /\ UNCHANGED <<cur, factor>>
          /\ solved' = IF ok THEN Append(solved, factor) ELSE solved
  /\ UNCHANGED <<start, stepping>>

\* A solve broke down (singular system): nothing is returned.
Break ==
  /\ hphase \in {"direct", "stepping"}
  /\ hphase' = "broken"
  /\ UNCHANGED <<start, cur, factor, stepping, solved, hout>>

\* Success is only claimed for the network as given.
OnlyTheRealNetwork == hout # <<>> /\ hout[1] => hout[3] = 0 /\ solved # <<>> /\ solved[Len(solved)] = 0
\* The path starts at the fully relaxed network and only tightens.
Tightens == \A k \in 1..Len(solved)-1 : solved[k] > solved[k+1]
StartsRelaxed == Len(solved) > 1 => solved[1] = Steps
\* Failure without stepping is reported at once; with stepping only where a solve failed.
Reported == hout # <<>> /\ ~hout[1] => hout[3] = factor
=============================================================================
