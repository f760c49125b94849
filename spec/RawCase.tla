------------------------------ MODULE RawCase ------------------------------
(* Judges the network imported from a RAW file against Raw.                 *)
EXTENDS Raw, Judge

VARIABLE pos

Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", s)
Show(z) == NFix(z[1], 9) \o " + j" \o NFix(z[2], 9)

\* Every expected condition is one row of the code's, up to sign.
Matching(exp, rows) ==
  LET Near(k, i) == \E s \in {"1", "-1"} : NLe(NAbs(NSub(exp[k], NMul(s, rows[i]))), "1e-9")
      left == FoldLeft(LAMBDA l, k : LET c == {i \in l : Near(k, i)} IN TLCEval(l \ (IF c = {} THEN {} ELSE {CHOOSE i \in c : TRUE})),
                       TLCEval(1..Len(rows)), [k \in 1..Len(exp) |-> k])
  IN Len(exp) = Len(rows) /\ left = {}

Clauses(c) ==
  LET f == c.file
      live == {b.i : b \in {f.buses[k] : k \in {k \in 1..Len(f.buses) : f.buses[k].ide # 4}}}
      got == {c.bus[k].i : k \in 1..Len(c.bus)}
      liveSeq == SetToSeq(live)
  IN IF c.exc # "" THEN <<<<"a valid file is imported", FALSE, c.exc>>>>
     ELSE IF got # live THEN <<<<"exactly the buses in service are imported", FALSE, ToString(got)>>>>
     ELSE
  LET V == [i \in live |-> c.bus[CHOOSE k \in 1..Len(c.bus) : c.bus[k].i = i].v]
      B(i) == c.bus[CHOOSE k \in 1..Len(c.bus) : c.bus[k].i = i]
      d == TLCEval(Draws(f, V, FALSE))
      r == TLCEval(Draws(f, V, TRUE))
      Ok(i, e) == CClose(B(i).i_drawn, At(e, i), NAdd("1e-11", NMul("1e-9", Mag(d, i))), "0")
      badI == SelectSeq(liveSeq, LAMBDA i : ~(Ok(i, d) \/ Ok(i, r)))
      badC == SelectSeq(liveSeq, LAMBDA i : Ok(i, r) /\ ~Ok(i, d))
      badS == SelectSeq(liveSeq, LAMBDA i : ~CClose(B(i).start, Start(f, BusOf(f, i)), "1e-12", "0"))
      conds == Conditions(f, V)
  IN <<<<"current at every bus", badI = <<>>,
         Join([k \in 1..Len(badI) |-> "bus " \o ToString(badI[k]) \o " draws " \o Show(B(badI[k]).i_drawn) \o " not " \o Show(At(d, badI[k]))])>>,
       <<"constant current follows the voltage angle", badC = <<>>, Join([k \in 1..Len(badC) |-> "bus " \o ToString(badC[k])])>>,
       <<"regulated voltages", Matching(conds, c.conds), "expected " \o Join([k \in 1..Len(conds) |-> NFix(conds[k], 9)])>>,
       <<"free unknowns", c.free = Len(conds), ToString(c.free)>>,
       <<"start of the iteration", badS = <<>>, Join([k \in 1..Len(badS) |-> "bus " \o ToString(badS[k])])>>,
       <<"buses are told apart", Cardinality({c.names[k] : k \in 1..Len(c.names)}) = Len(c.names), "">>>>
Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Clauses(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
