----------------------------- MODULE TimeSeries -----------------------------
(***************************************************************************)
(* Quasi time series.  For every hour from start up to (not including) end,   *)
(* in order, each load the load file names takes the magnitude of that hour   *)
(* at the power factor it has in the original network; nothing else about the *)
(* network changes.  The network is solved.  With generator adjustment, as    *)
(* long as the artificial swing bus still exchanges power, each negative load  *)
(* of the phase absorbs it and the network is solved again; a failed solve is  *)
(* never repeated.  The last solve of an hour is that hour's result.          *)
(*                                                                            *)
(* A load is [p, q, key, neg]: key is the phase at which a negative load (neg) *)
(* balances the swing bus.  cfg.table[i] is the sequence of magnitudes of load *)
(* i (hour h at h+1), or <<>> if the file does not name it.                   *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Threshold == "0.1"
VARIABLES tphase,   \* "idle" "hour" "solve" "solved" "done"
          cfg,      \* start, end, table, orig (loads as in the original network), adjust
          lds,      \* loads now
          hour,     \* current hour
          tlast,    \* last outcome: [ok, swing] with swing a sequence of [key, p, q]
          kept,     \* per hour finished: <<hour, number of the solve kept>>
          ncalls    \* solves so far
tvars == <<tphase, cfg, lds, hour, tlast, kept, ncalls>>

Hyp(p, q) == NSqrt(NAdd(NMul(p, p), NMul(q, q)))
\* Magnitude m at the power factor of p + jq (resistive when the load is nothing at all).
AtFactor(m, p, q) ==
  IF NIsZero(p) /\ NIsZero(q) THEN <<m, "0">>
  ELSE LET s == Hyp(p, q) IN <<NDiv(NMul(m, p), s), NDiv(NMul(m, q), s)>>
SetHour(c, ls, h) ==
  [i \in 1..Len(ls) |->
     IF c.table[i] = <<>> THEN ls[i]
     ELSE LET v == AtFactor(c.table[i][h + 1], c.orig[i].p, c.orig[i].q) IN [ls[i] EXCEPT !.p = v[1], !.q = v[2]]]
Exchange(swing) == NSum([i \in 1..Len(swing) |-> Hyp(swing[i].p, swing[i].q)])
Total(swing, key, f) ==
  LET s == SelectSeq(swing, LAMBDA x : x.key = key) IN NSum([i \in 1..Len(s) |-> IF f = "p" THEN s[i].p ELSE s[i].q])
Balanced(ls, swing) ==
  [i \in 1..Len(ls) |->
     IF ~ls[i].neg THEN ls[i]
     ELSE [ls[i] EXCEPT !.p = NAdd(@, Total(swing, ls[i].key, "p")), !.q = NAdd(@, Total(swing, ls[i].key, "q"))]]
MustAdjust(c, o) == c.adjust /\ o.ok /\ NLe(Threshold, Exchange(o.swing))

TInit == tphase = "idle" /\ cfg = <<>> /\ lds = <<>> /\ hour = 0 /\ tlast = <<>> /\ kept = <<>> /\ ncalls = 0
TBegin(c) ==
  /\ tphase = "idle"
  /\ cfg' = c /\ lds' = c.orig /\ hour' = c.start /\ tlast' = <<>> /\ kept' = <<>> /\ ncalls' = 0
  /\ tphase' = IF c.start < c.end THEN "hour" ELSE "done"
THour ==
  /\ tphase = "hour" /\ tphase' = "solve"
  /\ lds' = SetHour(cfg, lds, hour)
  /\ UNCHANGED <<cfg, hour, tlast, kept, ncalls>>
TSolve(o) ==
  /\ tphase = "solve" /\ tphase' = "solved"
  /\ tlast' = o /\ ncalls' = ncalls + 1
  /\ UNCHANGED <<cfg, lds, hour, kept>>
TAdjust ==
  /\ tphase = "solved" /\ MustAdjust(cfg, tlast)
  /\ lds' = Balanced(lds, tlast.swing) /\ tphase' = "solve"
  /\ UNCHANGED <<cfg, hour, tlast, kept, ncalls>>
TKeep ==
  /\ tphase = "solved" /\ ~MustAdjust(cfg, tlast)
  /\ kept' = Append(kept, <<hour, ncalls>>) /\ hour' = hour + 1
  /\ tphase' = IF hour + 1 < cfg.end THEN "hour" ELSE "done"
  /\ UNCHANGED <<cfg, lds, tlast, ncalls>>

\* Every hour once, in order.
EveryHour == tphase = "done" /\ cfg # <<>> =>
  /\ Len(kept) = (IF cfg.end > cfg.start THEN cfg.end - cfg.start ELSE 0)
  /\ \A i \in 1..Len(kept) : kept[i][1] = cfg.start + i - 1
SolvesAscend == \A i \in 1..Len(kept) : \A j \in 1..i : j < i => kept[j][2] < kept[i][2]
\* A load of the file has the magnitude of the hour and the original power factor, unless it balances the swing bus.
PowerFactor == tphase \in {"solve", "solved"} =>
  \A i \in 1..Len(lds) : cfg.table[i] # <<>> /\ ~lds[i].neg =>
     /\ NEq(Hyp(lds[i].p, lds[i].q), NAbs(cfg.table[i][hour + 1]))
     /\ NEq(NMul(lds[i].p, cfg.orig[i].q), NMul(lds[i].q, cfg.orig[i].p))
Untouched == cfg # <<>> => \A i \in 1..Len(lds) : cfg.table[i] = <<>> /\ ~lds[i].neg => lds[i] = cfg.orig[i]
=============================================================================
