------------------------------ MODULE CapCase ------------------------------
(* One response of a real capacitor, and what it then contributes.            *)
EXTENDS Devices, Num, Judge
VARIABLE pos
NGreater(a, b) == NLt(b, a)
Where(c) == IF c.mode # "VOLT" THEN "manual" ELSE IF NLt(c.high, c.mag) THEN "above high" ELSE IF NLt(c.mag, c.low) THEN "below low" ELSE "between"
Clauses(c) ==
  LET d == [t |-> "cap", mode |-> c.mode, closed |-> c.closed, low |-> c.low, high |-> c.high]
      want == CapRespond(d, c.mag, 1)
      was == IF c.closed THEN "connected" ELSE "disconnected"
      is == IF c.after THEN "connected" ELSE "disconnected"
      edge == c.mode = "VOLT" /\ (NClose(c.mag, c.high, "0", "1e-9") \/ NClose(c.mag, c.low, "0", "1e-9"))
  IN IF c.raised THEN <<<<"only unsupported modes are refused", c.mode \in {"VAR", "VARVOLT"}, c.mode>>>>
     ELSE IF c.mode \in {"VAR", "VARVOLT"} THEN <<<<"unsupported modes are not silently ignored", FALSE, c.mode>>>>
     ELSE
     << <<Where(c) \o ", " \o was \o ": " \o (IF want.closed THEN "connected" ELSE "disconnected") \o " afterwards", edge \/ c.after = want.closed, is>>,
        <<"a change is reported exactly when there is one", c.changed = (c.after # c.closed), was \o " to " \o is>>,
        <<"outside the band its position does not depend on where it was", c.mode # "VOLT" \/ edge \/ Where(c) = "between" \/ c.after = c.other, Where(c) \o ", " \o was>>,
        <<"low voltage and high voltage have opposite effects", c.mode # "VOLT" \/ edge \/ Where(c) = "between" \/ ((c.after = c.far) <=> Where(c) = "above high"), Where(c) \o ", " \o was>>,
        <<"set points stay", c.same, "">>,
        <<"connected means connected", c.contributes = c.after, is>> >>
Init == pos = 1
Next ==
  \/ pos <= Len(Cases) /\ Report(Cases[pos].id, Clauses(Cases[pos])) /\ pos' = pos + 1
  \/ pos = Len(Cases) + 1 /\ Done(Len(Cases)) /\ pos' = pos + 1
=============================================================================
