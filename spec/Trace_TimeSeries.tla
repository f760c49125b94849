-------------------------- MODULE Trace_TimeSeries --------------------------
(* Recorded time series: begin(cfg), solve(loads seen, ok, swing), end(kept, files), single(kept). *)
EXTENDS TimeSeries, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
Ev == Cases[t].events[l]
\* floating point reaches the same values only approximately
SameLoads(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i].p, b[i].p, "1e-7", "1e-9") /\ NClose(a[i].q, b[i].q, "1e-7", "1e-9")
Seen(ls, obs) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.p = obs[i].p, !.q = obs[i].q]]
\* The steps between two solves are silent: keep the hour, move to the next, adjust.
Solve ==
  LET adj == tphase = "solved" /\ MustAdjust(cfg, tlast)
      nh == IF tphase = "solved" /\ ~adj THEN hour + 1 ELSE hour
      due == IF adj THEN Balanced(lds, tlast.swing) ELSE SetHour(cfg, lds, nh)
  IN /\ tphase \in {"hour", "solved"} /\ nh < cfg.end
     /\ Len(Ev.loads) = Len(lds) /\ SameLoads(due, Ev.loads)
     /\ lds' = Seen(due, Ev.loads)
     /\ kept' = IF tphase = "solved" /\ ~adj THEN Append(kept, <<hour, ncalls>>) ELSE kept
     /\ hour' = nh /\ tphase' = "solved" /\ ncalls' = ncalls + 1
     /\ tlast' = [ok |-> Ev.ok, swing |-> Ev.swing]
     /\ UNCHANGED cfg
Finish ==
  /\ \/ tphase = "solved" /\ ~MustAdjust(cfg, tlast) /\ hour + 1 >= cfg.end /\ kept' = Append(kept, <<hour, ncalls>>)
     \/ tphase = "done" /\ kept' = kept
  /\ tphase' = "done" /\ UNCHANGED <<cfg, lds, hour, tlast, ncalls>>
\* The results returned: each hour with the solve kept for it; and the files written (when asked for).
Reported(ev) ==
  /\ Len(ev.kept) = Len(kept')
  /\ \A i \in 1..Len(kept') : ev.kept[i][1] = kept'[i][1] /\ ev.kept[i][2] = kept'[i][2]
  /\ ev.files = (IF ev.wanted THEN [i \in 1..Len(kept') |-> <<kept'[i][1], kept'[i][2]>>] ELSE <<>>)
Step ==
  CASE Ev.e = "begin" -> TBegin(Ev.cfg)
    [] Ev.e = "solve" -> Solve
    [] Ev.e = "end" -> Finish /\ Reported(Ev)
    [] OTHER -> FALSE
Init == TInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
