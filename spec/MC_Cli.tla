------------------------------- MODULE MC_Cli -------------------------------
(* Every combination of options on a small case, every pattern of outcomes, up to 4 solves. *)
EXTENDS Cli
Ld(p, q, k, n) == [p |-> p, q |-> q, key |-> k, neg |-> n, home |-> ~n]
Loads == <<Ld("3", "4", "A", FALSE), Ld("1", "0", "A", TRUE)>>
Args == [kind : {"glm", "raw", "txt"}, exists : BOOLEAN, parts : 1..2, factor : {"1", "0.5"}, loads : {Loads},
         series : BOOLEAN, start : {0}, end : 0..2, table : {<<<<"5", "10">>, <<>>>>}, swing : BOOLEAN, neg : BOOLEAN, select : BOOLEAN,
         output : BOOLEAN, verbose : {FALSE}, stepping : {FALSE}, debug : {FALSE}, infeas : {FALSE}]
Swing == {<<[key |-> "A", p |-> a, q |-> "0"]>> : a \in {"0", "-2"}}
Next ==
  \/ \E a \in Args : CStart(a)
  \/ CRun /\ (THour \/ TAdjust \/ TKeep \/ (ncalls < 4 /\ \E ok \in BOOLEAN, s \in Swing : TSolve([ok |-> ok, swing |-> s])))
  \/ CExit
Spec == CInit /\ [][Next]_<<tvars, cvars>>
=============================================================================
