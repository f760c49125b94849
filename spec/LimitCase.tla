----------------------------- MODULE LimitCase -----------------------------
(* Judges recorded limiting: calls of the limiter (prev, next, got; isv says    *)
(* which unknowns are bus voltages) and whether runs used it when they should.  *)
EXTENDS Limit, Judge, SequencesExt
VARIABLE pos
Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", s)
Near(a, b) == NLe(NAbs(NSub(a, b)), NAdd("1e-12", NMul("1e-12", NAbs(a))))
StepClauses(s) ==
  LET due == Limited(s.isv, s.prev, s.next)
      bad == SelectSeq([i \in 1..Len(due) |-> i], LAMBDA i : ~Near(due[i], s.got[i]))
  IN IF Len(s.got) # Len(due) THEN "size" ELSE Join([k \in 1..Len(bad) |->
       (IF s.isv[bad[k]] THEN "voltage " ELSE "other unknown ") \o ToString(bad[k]) \o " from " \o s.prev[bad[k]] \o " towards " \o s.next[bad[k]] \o " became " \o s.got[bad[k]]])
Clauses(c) ==
  LET wrong == SelectSeq([k \in 1..Len(c.steps) |-> StepClauses(c.steps[k])], LAMBDA w : w # "")
  IN << <<"raised", c.exc = "", c.exc>>,
        <<"only bus voltages are limited, to their bounds", wrong = <<>>, IF wrong = <<>> THEN "" ELSE wrong[1]>>,
        \* a run limits every iterate but the last of each solve, exactly when asked to
        <<"limiting is used exactly when asked for", c.run => (Len(c.steps) > 0 <=> (c.wanted /\ c.several)), "">> >>
Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Clauses(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
