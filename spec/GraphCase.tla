----------------------------- MODULE GraphCase -----------------------------
(* What the implementation made of a network's connectivity.                  *)
EXTENDS Graph, Num, Judge, SequencesExt
VARIABLE pos
Spread(c, r) ==
  LET vs == {c.vnom[i] : i \in {j \in 1..Len(c.name) : ~c.virt[j] /\ c.name[j] \in r}}
      s == SetToSeq(vs)
      hi == FoldLeft(LAMBDA a, v : NMax(a, v), s[1], s)
      lo == FoldLeft(LAMBDA a, v : NMin(a, v), s[1], s)
  IN NSub(hi, lo)
Clauses(c) ==
  LET isl == Islands(c)
      regs == Regions(c)
      got == {ToSet(c.islands[i]) : i \in 1..Len(c.islands)}
      bad == \E r \in regs : NLt("21", Spread(c, r))
      good == \A r \in regs : NLe(Spread(c, r), "9")
  IN << <<"islands are the connected parts", got = isl /\ Len(c.islands) = Cardinality(isl), ToString(isl)>>,
        <<"the number of islands is reported", c.count = Cardinality(isl), ToString(c.count)>>,
        <<"a split network is refused", Cardinality(isl) # 1 => c.raised, c.exc>>,
        <<"a whole network is not refused as split", Cardinality(isl) = 1 => ~c.saysisland, c.exc>>,
        <<"inconsistent nominal voltages are refused", (Cardinality(isl) = 1 /\ bad) => c.raised, c.exc>>,
        <<"consistent nominal voltages are accepted", good => ~c.saysvoltage, c.exc>> >>
Init == pos = 1
Next ==
  \/ pos <= Len(Cases) /\ Report(Cases[pos].id, Clauses(Cases[pos])) /\ pos' = pos + 1
  \/ pos = Len(Cases) + 1 /\ Done(Len(Cases)) /\ pos' = pos + 1
=============================================================================
