------------------------------ MODULE MC_Report ------------------------------
(* Small stores: what a file says is the last result written under its name.   *)
EXTENDS Report, TLC
VARIABLE log
B(k) == [id |-> "1", label |-> "n:A", v |-> <<k, "1">>]
Results == {[ok |-> o, marked |-> m, bus |-> b, srcs |-> <<>>, loads |-> <<>>] :
              o \in BOOLEAN, m \in {FALSE}, b \in {<<>>, <<B("2")>>, <<B("2"), B("3")>>}}
Init == RInit /\ log = <<>>
Next == Len(log) < 4 /\ \E n \in {"", "a", "b"}, r \in Results : RWrite(n, r) /\ log' = Append(log, <<n, r>>)
Spec == Init /\ [][Next]_<<store, log>>
LastOf(n) == LET k == CHOOSE i \in 1..Len(log) : log[i][1] = n /\ \A j \in i+1..Len(log) : log[j][1] # n IN log[k][2]
LastWins == \A n \in DOMAIN store : store[n] = LastOf(n)
OnlyWritten == DOMAIN store = {log[i][1] : i \in 1..Len(log)} \ {""}
\* The two readings of one text: a rounding is unique up to ties, and accepted texts are within half a unit.
ASSUME Rounded(<<"1.250", 3>>, "1.2504", 3) /\ ~Rounded(<<"1.251", 3>>, "1.2504", 3) /\ ~Rounded(<<"1.25", 2>>, "1.2504", 3)
ASSUME RoundedAngle(<<"180.000", 3>>, <<"-1", "0">>) /\ RoundedAngle(<<"-180.000", 3>>, <<"-1", "0">>) /\ ~RoundedAngle(<<"0.000", 3>>, <<"-1", "0">>)
ASSUME VoltageFile(<<<<"FAILURE">>>>, [ok |-> FALSE, marked |-> TRUE, bus |-> <<B("2")>>, srcs |-> <<>>, loads |-> <<>>])
=============================================================================
