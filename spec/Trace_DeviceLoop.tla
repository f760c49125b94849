-------------------------- MODULE Trace_DeviceLoop --------------------------
(* Recorded device loops: begin(devices, v, q, control), solve(devices as seen  *)
(* by the solve, v0, ok, v, q), return(ok, v, devices), refused(devices).       *)
EXTENDS DeviceLoop, Num, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
Ev == Cases[t].events[l]
NGreater(a, b) == NLt(b, a)
\* Observations arrive as complex values.
Mags(s) == [i \in 1..Len(s) |-> NSqrt(NAdd(NMul(s[i][1], s[i][1]), NMul(s[i][2], s[i][2])))]
Positions(ds) == [i \in 1..Len(ds) |-> IF ds[i].t = "cap" THEN ds[i].closed ELSE ds[i].blown]
MyControl == Cases[t].control /\ Cases[t].threephase
Step ==
  CASE Ev.e = "begin" -> \E d \in {1, -1} : DBegin(Ev.devs, Ev.v, Mags(Ev.q), MyControl, d)
    [] Ev.e = "solve" -> Ev.v0 = dstart /\ Ev.pos = Positions(devs) /\ DSolve(Ev.ok, Ev.v, Mags(Ev.q))
    [] Ev.e = "respond" -> DRespond     \* silent in the code; recorded before the next solve / the refusal
    [] Ev.e = "return" -> Ev.ok = last[1] /\ Ev.v = last[2] /\ Ev.pos = Positions(devs) /\ DReturn
    [] Ev.e = "unsupported" -> Ev.pos = Positions(devs) /\ DStop
    [] Ev.e = "stopped" -> dphase = "refused" /\ UNCHANGED dvars
    [] Ev.e = "refused" -> dphase = "refused" /\ Ev.pos = Positions(devs) /\ UNCHANGED dvars
    [] OTHER -> FALSE
Init == DInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
