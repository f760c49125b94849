--------------------------- MODULE Trace_Homotopy ---------------------------
(* Recorded continuations against Homotopy, with a scripted solver: events    *)
(* solve(tx, v0, ok, v) and return(ok, v, tx, residual).                      *)
EXTENDS Homotopy, Num, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
Ev == Cases[t].events[l]
\* factors are multiples of 1/Steps, up to rounding
AsStep(x) == LET k == NToInt(NFix(NMul(x, NInt(Steps)), 0)) IN IF NClose(NMul(x, NInt(Steps)), NInt(k), "1e-6", "0") THEN k ELSE -1
\* the code may step through any decreasing sequence of factors; the trace says which
NextFactor == IF l < Len(Cases[t].events) /\ Cases[t].events[l+1].e \in {"solve", "broke"} THEN AsStep(Cases[t].events[l+1].tx) ELSE 0
EvStep ==
  CASE Ev.e = "begin" -> HBegin(Ev.v, Ev.stepping)
    [] Ev.e = "solve" ->
         /\ hphase \in {"direct", "stepping"}
         /\ Ev.v0 = cur /\ AsStep(Ev.tx) = factor
         /\ IF hphase = "direct" THEN Direct(Ev.ok, Ev.v) ELSE Step(Ev.ok, Ev.v, NextFactor)
    [] Ev.e = "return" ->
         /\ hphase = "done" /\ hout[1] = Ev.ok /\ hout[2] = Ev.v /\ AsStep(Ev.tx) = hout[3] /\ UNCHANGED hvars
    [] Ev.e = "residual" ->  \* reported residuals are those of the given network at the returned point
         /\ hphase = "done" /\ Ev.v = hout[2] /\ Ev.got = Ev.want /\ UNCHANGED hvars
    [] Ev.e = "broke" -> Ev.v0 = cur /\ AsStep(Ev.tx) = factor /\ Break
    [] Ev.e = "raised" -> hphase = "broken" /\ UNCHANGED hvars
    [] Ev.e = "intact" -> hphase = "done" /\ Ev.same /\ UNCHANGED hvars
    [] OTHER -> FALSE
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ EvStep
Init == HInit /\ t \in 1..Len(Cases) /\ l = 1
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
