-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* A run of the command line program on a case.                             *)
(*                                                                          *)
(* The case is refused (a missing file, a kind of file that is not known, a *)
(* network in more than one part): nothing is solved, shown or written and  *)
(* the exit code is not 0.  Otherwise every load's constant power is scaled *)
(* by the load factor, nothing else is changed, and the network is solved:  *)
(* for every hour of the load file, if one is given (TimeSeries); else once,*)
(* repeated while an artificial swing bus is balanced by negative loads;    *)
(* else exactly once.  Every solve runs under the options asked for.  Each  *)
(* hour's result is shown and, if an output name was given, written under   *)
(* that name (followed by the hour in a time series).                       *)
(***************************************************************************)
EXTENDS TimeSeries, TLC
VARIABLES cphase,   \* "start" "running" "exited"
          args,     \* kind, exists, parts, factor, loads, series, start, end, table, swing, neg, select, output, verbose, stepping, debug, infeas
          shown,    \* solves whose results were shown, in order
          written,  \* <<name's ending, solve>> of the results written
          code      \* exit code: 0 or 1
cvars == <<cphase, args, shown, written, code>>

Selecting(a) == a.kind = "glm" /\ a.select /\ a.swing     \* only the part around the swing bus is kept
Refused(a) == ~a.exists \/ a.kind \notin {"glm", "raw"} \/ (a.parts # 1 /\ ~Selecting(a))
KeptLoads(a) == SelectSeq([i \in 1..Len(a.loads) |-> i], LAMBDA i : Selecting(a) => a.loads[i].home)
Series(a) == a.kind = "glm" /\ a.series
Swinging(a) == a.kind = "glm" /\ a.swing /\ a.neg
Scaled(ls, f) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.p = NMul(@, f), !.q = NMul(@, f)]]
CfgOf(a) == LET ks == KeptLoads(a) IN
  [start |-> IF Series(a) THEN a.start ELSE 0, end |-> IF Series(a) THEN a.end ELSE 1,
   table |-> [i \in 1..Len(ks) |-> IF Series(a) THEN a.table[ks[i]] ELSE <<>>],
   orig |-> Scaled([i \in 1..Len(ks) |-> a.loads[ks[i]]], a.factor), adjust |-> Swinging(a)]
Options(a) ==
  [tol |-> "1e-05", iters |-> 50, stepping |-> a.stepping, debug |-> a.debug, infeas |-> a.infeas,
   limiting |-> FALSE, flat |-> FALSE, devices |-> TRUE]
Ending(a, h) == IF Series(a) THEN "_" \o ToString(h) ELSE ""

CInit == TInit /\ cphase = "start" /\ args = <<>> /\ shown = <<>> /\ written = <<>> /\ code = 0
CStart(a) ==
  /\ cphase = "start" /\ args' = a
  /\ IF Refused(a) THEN cphase' = "exited" /\ code' = 1 /\ UNCHANGED tvars
     ELSE cphase' = "running" /\ code' = 0 /\ TBegin(CfgOf(a))
  /\ UNCHANGED <<shown, written>>
CRun ==
  /\ cphase = "running"
  /\ UNCHANGED cvars
CExit ==
  /\ cphase = "running" /\ tphase = "done" /\ cphase' = "exited"
  /\ shown' = [i \in 1..Len(kept) |-> kept[i][2]]
  /\ written' = IF args.output THEN [i \in 1..Len(kept) |-> <<Ending(args, kept[i][1]), kept[i][2]>>] ELSE <<>>
  /\ UNCHANGED tvars /\ UNCHANGED <<args, code>>

PlainSolvesOnce == cphase = "exited" /\ ~Refused(args) /\ ~Series(args) /\ ~Swinging(args) => ncalls = 1 /\ Len(shown) = 1
RefusedDoesNothing == cphase = "exited" /\ Refused(args) => ncalls = 0 /\ shown = <<>> /\ written = <<>> /\ code = 1
WritesWhatItShows == cphase = "exited" => Len(written) = (IF args.output THEN Len(shown) ELSE 0)
NamesDiffer == \A i, j \in 1..Len(written) : i # j => written[i][1] # written[j][1]
\* Loads that neither a load file nor balancing touches are at the factor times the case's.
FactorHolds == cphase # "start" /\ ~Refused(args) =>
  \A i \in 1..Len(lds) : cfg.table[i] = <<>> /\ ~(lds[i].neg /\ cfg.adjust) =>
     LET o == args.loads[KeptLoads(args)[i]] IN NEq(lds[i].p, NMul(args.factor, o.p)) /\ NEq(lds[i].q, NMul(args.factor, o.q))
=============================================================================
