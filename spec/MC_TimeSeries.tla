--------------------------- MODULE MC_TimeSeries ---------------------------
(* Small time series: two hours, three loads, every pattern of outcomes, up to 5 solves. *)
EXTENDS TimeSeries
Ld(p, q, k, n) == [p |-> p, q |-> q, key |-> k, neg |-> n]
Orig == {<<Ld("3", "4", "A", FALSE), Ld("-4", "3", "B", b), Ld("0", "0", "A", TRUE)>> : b \in BOOLEAN}
Tables == {<<<<"5", "10">>, t2, <<>>>> : t2 \in {<<>>, <<"15", "-5">>}}
Cfgs == {[start |-> s, end |-> e, table |-> t, orig |-> o, adjust |-> a] :
          s \in 0..1, e \in 1..2, t \in Tables, o \in Orig, a \in BOOLEAN}
Swing == {<<[key |-> "A", p |-> a, q |-> b], [key |-> "B", p |-> "0", q |-> b]>> : a \in {"0", "-2"}, b \in {"0", "0.04", "1"}}
Next ==
  \/ \E c \in Cfgs : TBegin(c)
  \/ THour
  \/ ncalls < 5 /\ \E ok \in BOOLEAN, s \in Swing : TSolve([ok |-> ok, swing |-> s])
  \/ TAdjust
  \/ TKeep
Spec == TInit /\ [][Next]_tvars
\* A kept solve either failed or left the swing bus balanced.
KeptSettled == [][Len(kept') > Len(kept) => ~MustAdjust(cfg, tlast)]_tvars
\* Only negative loads move while an hour is being balanced.
AdjustOnlyNegative == [][tphase = "solved" => \A i \in 1..Len(lds) : ~lds[i].neg => lds'[i] = lds[i]]_tvars
FailedIsFinal == [][tphase = "solved" /\ ~tlast.ok => tphase' # "solve"]_tvars
=============================================================================
