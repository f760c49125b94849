------------------------------ MODULE Trace_Cli ------------------------------
(* Recorded runs of the command line program: begin(args), solve(...), exit(...). *)
EXTENDS Cli, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
Ev == Cases[t].events[l]
SameLoads(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i].p, b[i].p, "1e-7", "1e-9") /\ NClose(a[i].q, b[i].q, "1e-7", "1e-9")
Seen(ls, obs) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.p = obs[i].p, !.q = obs[i].q]]
SameOpts(o) == LET w == Options(args) IN NEq(o.tol, w.tol) /\ \A k \in DOMAIN w \ {"tol"} : o[k] = w[k]
\* Starting an hour, adjusting and keeping are silent.
Solve ==
  LET adj == tphase = "solved" /\ MustAdjust(cfg, tlast)
      nh == IF tphase = "solved" /\ ~adj THEN hour + 1 ELSE hour
      due == IF adj THEN Balanced(lds, tlast.swing) ELSE SetHour(cfg, lds, nh)
  IN /\ cphase = "running" /\ tphase \in {"hour", "solved"} /\ nh < cfg.end
     /\ SameLoads(due, Ev.loads) /\ SameOpts(Ev.opts) /\ Ev.same
     /\ lds' = Seen(due, Ev.loads)
     /\ kept' = IF tphase = "solved" /\ ~adj THEN Append(kept, <<hour, ncalls>>) ELSE kept
     /\ hour' = nh /\ tphase' = "solved" /\ ncalls' = ncalls + 1
     /\ tlast' = [ok |-> Ev.ok, swing |-> Ev.swing]
     /\ UNCHANGED cfg /\ UNCHANGED cvars
Ends(ks) == IF args.output THEN [i \in 1..Len(ks) |-> <<Ending(args, ks[i][1]), ks[i][2]>>] ELSE <<>>
Outcome(ks, c) ==
  /\ Len(Ev.shown) = Len(ks)
  /\ \A i \in 1..Len(ks) : Ev.shown[i][1] = ks[i][2] /\ (Series(args) \/ Swinging(args) \/ args.swing \/ Ev.shown[i][2] = args.verbose)
  /\ \A g \in 1..Len(Ev.got) :    \* within this process, and as a process of its own
       LET files == Ev.got[g].files IN
       /\ Ev.got[g].code = c
       /\ Len(files) = Len(Ends(ks))
       /\ \A i \in 1..Len(Ends(ks)) : \E k \in 1..Len(files) :
            files[k].ending = Ends(ks)[i][1] /\ \E s \in 1..Len(files[k].solves) : files[k].solves[s] = Ends(ks)[i][2]
Exit ==
  LET last == IF tphase = "solved" THEN Append(kept, <<hour, ncalls>>) ELSE kept
  IN /\ cphase = "running"
     /\ \/ tphase = "solved" /\ ~MustAdjust(cfg, tlast) /\ hour + 1 >= cfg.end
        \/ tphase = "done"
     /\ Outcome(last, 0)
     /\ cphase' = "exited" /\ tphase' = "done" /\ kept' = last
     /\ shown' = [i \in 1..Len(last) |-> last[i][2]] /\ written' = Ends(last)
     /\ UNCHANGED <<cfg, lds, hour, tlast, ncalls, args, code>>
RefusedExit ==
  /\ cphase = "exited" /\ code = 1
  /\ Outcome(<<>>, 1)
  /\ UNCHANGED tvars /\ UNCHANGED cvars
Step ==
  CASE Ev.e = "begin" -> CStart(Ev.args)
    [] Ev.e = "solve" -> Solve
    [] Ev.e = "exit" -> IF cphase = "exited" THEN RefusedExit ELSE Exit
    [] OTHER -> FALSE
Init == CInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
