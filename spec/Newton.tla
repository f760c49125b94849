------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* The Newton iteration: propose a solution of the linearised equations at  *)
(* the previous point, evaluate the true residual there, accept it when the *)
(* residual is below tolerance, otherwise (possibly after limiting the      *)
(* step) iterate, up to MaxIters times.  Giving up sooner is allowed only    *)
(* at the end of a window of Window iterations over which residuals trend    *)
(* upwards.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Window,        \* length of the window after which progress is checked
          Lt(_, _),      \* order on residuals
          Le(_, _),
          Rising(_)      \* does a history of residuals trend upwards?

VARIABLES phase,      \* "idle" "propose" "evaluate" "decide" "done"
          it,         \* number of the current iteration, from 0
          vprev,      \* point the equations are linearised at
          vcand,      \* proposed solution
          hist,       \* residuals evaluated so far
          tx,         \* homotopy factor of this solve
          par,        \* [tol, max, limiting]
          outcome     \* <<ok, point, iteration>> once done

nvars == <<phase, it, vprev, vcand, hist, tx, par, outcome>>

NInit == /\ phase = "idle" /\ it = 0 /\ vprev = <<>> /\ vcand = <<>> /\ hist = <<>>
         /\ tx = "none" /\ par = <<>> /\ outcome = <<>>

\* A solve is asked for, starting at v0 with homotopy factor t.
Begin(v0, t, p) ==
  /\ phase \in {"idle", "done"}
  /\ phase' = IF p.max > 0 THEN "propose" ELSE "exhausted"
  /\ it' = 0 /\ vprev' = v0 /\ vcand' = <<>> /\ hist' = <<>> /\ tx' = t /\ par' = p /\ outcome' = <<>>

\* The linear system at vprev (and tx) is solved.
Propose(v) ==
  /\ phase = "propose"
  /\ vcand' = v /\ phase' = "evaluate"
  /\ UNCHANGED <<it, vprev, hist, tx, par, outcome>>

\* The true residual at the proposed point.
Evaluate(r) ==
  /\ phase = "evaluate"
  /\ hist' = Append(hist, r)
  /\ phase' = "decide"
  /\ UNCHANGED <<it, vprev, vcand, tx, par, outcome>>

Last == hist[Len(hist)]

Accept ==
  /\ phase = "decide" /\ Le(Last, par.tol)
  /\ phase' = "done" /\ outcome' = <<TRUE, vcand, it>>
  /\ UNCHANGED <<it, vprev, vcand, hist, tx, par>>

\* Not below tolerance: continue from the (limited) proposal.
Continue(vnext) ==
  /\ phase = "decide" /\ ~Lt(Last, par.tol) /\ it + 1 < par.max
  /\ (par.limiting \/ vnext = vcand)
  /\ it' = it + 1 /\ vprev' = vnext /\ phase' = "propose"
  /\ UNCHANGED <<vcand, hist, tx, par, outcome>>

\* No progress over a whole window.
GiveUp ==
  /\ phase = "decide" /\ ~Lt(Last, par.tol) /\ Len(hist) % Window = 0 /\ Rising(hist)
  /\ phase' = "done" /\ outcome' = <<FALSE, vcand, it>>
  /\ UNCHANGED <<it, vprev, vcand, hist, tx, par>>

\* The last allowed iteration failed.  The point returned is unspecified beyond being the last one.
Exhaust(v) ==
  /\ phase = "decide" /\ ~Lt(Last, par.tol) /\ it + 1 = par.max
  /\ (par.limiting \/ v = vcand)
  /\ phase' = "done" /\ outcome' = <<FALSE, v, it>>
  /\ UNCHANGED <<it, vprev, vcand, hist, tx, par>>

----------------------------------------------------------------------------
\* Success is only ever claimed for the very point whose residual was found below tolerance.
SoundOutcome ==
  outcome # <<>> /\ outcome[1] => hist # <<>> /\ Le(Last, par.tol) /\ outcome[2] = vcand

\* Failure is only reported after every iteration, or a rising window, was spent.
EarnedFailure ==
  outcome # <<>> /\ ~outcome[1] =>
     Len(hist) = par.max \/ (Len(hist) % Window = 0 /\ Rising(hist))

\* No residual below tolerance is ever passed over.
NothingMissed == phase # "decide" => \A k \in 1..Len(hist)-1 : ~Lt(hist[k], par.tol)
WorkBounded == Len(hist) <= IF par = <<>> THEN 0 ELSE par.max
=============================================================================
