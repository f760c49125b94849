---------------------------- MODULE Trace_Newton ----------------------------
(* Recorded solves of the implementation, against Newton.  The stamper the   *)
(* solver was given is scripted: linear and nonlinear entries <<row, col,    *)
(* value>> and right-hand sides, so the proposal the solver must make is     *)
(* known: the x with (L + N_k) x = b + c_k.                                  *)
EXTENDS Newton, Num, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
NLeq(a, b) == NLe(a, b)
NLess(a, b) == NLt(a, b)
\* A history that is flat up to rounding counts as not improving.
NRising(h) == NLt(NMul("-1e-9", NSum(h)), NSum([k \in 1..Len(h) |-> NMul(NInt(2 * k - 1 - Len(h)), h[k])]))
VARIABLES t, l
tvars == <<nvars, t, l>>
Ev == Cases[t].events[l]

Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i], b[i], "1e-9", "1e-9")
\* A system row i applied to x.
Row(es, i, x) == NSum(LET s == SelectSeq(es, LAMBDA e : e[1] = i) IN [k \in 1..Len(s) |-> NMul(s[k][3], x[s[k][2]])])
Solves(c, k, x) ==
  LET es == c.lin \o c.nl[k + 1] IN
  \A i \in 1..c.size : NClose(Row(es, i, x), NAdd(c.b[i], c.c[k + 1][i]), "1e-8", "1e-8")

\* Componentwise limiting as the scripted limiter applied it: half the step.
Limited(vn, vp) == [i \in 1..Len(vn) |-> NDiv(NAdd(vn[i], vp[i]), "2")]
\* A residual exactly at the tolerance may or may not count as converged for the limiter.
NextPoints == (IF par.limiting THEN {Limited(vcand, vprev)} ELSE {vcand}) \cup (IF NEq(Last, par.tol) THEN {vcand} ELSE {})

Step ==
  CASE Ev.e = "begin" -> Begin(Ev.v, Ev.tx, Ev.par)
    [] Ev.e = "linear" ->   \* constant part asked for, at the right factor
         /\ phase = "propose" /\ Ev.tx = tx
         /\ UNCHANGED nvars
    [] Ev.e = "nonlinear" -> \* voltage dependent part asked for at the previous point
         /\ phase = "propose" /\ Close(Ev.v, vprev)
         /\ UNCHANGED nvars
    [] Ev.e = "residual" -> \* evaluated at the solution of the system, at the right factor
         /\ Ev.tx = tx /\ Solves(Cases[t], it, Ev.v) /\ Propose(Ev.v)
    [] Ev.e = "evaluated" -> Evaluate(Ev.r)
    [] Ev.e = "limit" ->
         /\ phase = "decide" /\ par.limiting /\ Close(Ev.vn, vcand) /\ Close(Ev.vp, vprev)
         /\ UNCHANGED nvars
    [] Ev.e = "continue" -> \* silent in the code; recorded when the next iteration starts
         \E np \in NextPoints : Continue(np)
    [] Ev.e = "return" ->
         \/ Ev.ok /\ Accept /\ Close(Ev.v, vcand) /\ Ev.it = it
         \/ ~Ev.ok /\ GiveUp /\ Ev.it = it
         \/ ~Ev.ok /\ Exhaust(Ev.v) /\ Ev.it = it
    [] Ev.e = "intact" -> phase = "done" /\ Ev.same /\ UNCHANGED nvars   \* the caller's start point is untouched
    [] OTHER -> FALSE

Init == NInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
