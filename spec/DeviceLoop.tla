----------------------------- MODULE DeviceLoop -----------------------------
(***************************************************************************)
(* The outer loop: solve the network completely, let the devices respond to   *)
(* the solution, and solve again from the same start point until no device    *)
(* responds.  A solution is only returned together with devices that are      *)
(* settled at it; after MaxSolves solves without settling the run is refused. *)
(***************************************************************************)
EXTENDS Devices
CONSTANT MaxSolves
VARIABLES dphase,    \* "idle" "ready" "solved" "returned" "refused"
          devs,      \* devices now
          used,      \* devices as they were during the last solve
          dstart,    \* start point
          control,   \* is device control enabled
          dir,       \* which way capacitors respond
          nsol,      \* solves so far
          last       \* <<ok, point, observations>> of the last solve
dvars == <<dphase, devs, used, dstart, control, dir, nsol, last>>
DInit == dphase = "idle" /\ devs = <<>> /\ used = <<>> /\ dstart = <<>> /\ control = FALSE /\ dir = 1 /\ nsol = 0 /\ last = <<>>

\* Devices may respond to the start point (observations q0) before anything is solved.
DBegin(ds, v0, q0, ctl, d) ==
  /\ dphase = "idle" /\ dphase' = "ready"
  /\ dstart' = v0 /\ control' = ctl /\ dir' = d /\ nsol' = 0 /\ last' = <<>> /\ used' = <<>>
  /\ devs' \in {ds} \cup (IF ctl THEN {RespondAll(ds, q0, d)} ELSE {})

\* One complete solve with the devices as they are.
DSolve(ok, v, q) ==
  /\ dphase = "ready" /\ nsol < MaxSolves
  /\ used' = devs /\ nsol' = nsol + 1 /\ last' = <<ok, v, q>>
  /\ dphase' = "solved"
  /\ UNCHANGED <<devs, dstart, control, dir>>

\* The devices respond to a good solution and the network has to be solved again.
DRespond ==
  /\ dphase = "solved" /\ last[1] /\ control
  /\ RespondAll(devs, last[3], dir) # devs
  /\ devs' = RespondAll(devs, last[3], dir)
  /\ dphase' = IF nsol < MaxSolves THEN "ready" ELSE "refused"
  /\ UNCHANGED <<used, dstart, control, dir, nsol, last>>

DReturn ==
  /\ dphase = "solved"
  /\ last[1] /\ control => RespondAll(devs, last[3], dir) = devs
  /\ dphase' = "returned"
  /\ UNCHANGED <<devs, used, dstart, control, dir, nsol, last>>

\* The network cannot be solved (a fuse is blown, or the equations break down): nothing is returned.
DStop == dphase = "ready" /\ dphase' = "refused" /\ UNCHANGED <<devs, used, dstart, control, dir, nsol, last>>

\* What is returned as a solution was computed with the devices as they now are, and none of them would move.
Consistent == dphase = "returned" => used = devs
Settled == dphase = "returned" /\ last[1] /\ control => RespondAll(devs, last[3], dir) = devs
NoControlNoChange == ~control /\ used # <<>> => used = devs
Bounded == nsol <= MaxSolves
FusesStay == [][dphase # "idle" => \A i \in 1..Len(devs) : devs[i].t = "fuse" /\ devs[i].blown => devs'[i].blown]_dvars
=============================================================================
