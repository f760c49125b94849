----------------------------- MODULE RerunCase -----------------------------
(* A history of changes and power flows on one network.  Each run records the   *)
(* elements as they are then (els), where their unknowns are (at), the start     *)
(* vector, and the outcome, next to the outcome of a newly built network.        *)
EXTENDS Net, Judge
VARIABLE pos
Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", s)
Near(a, b) == NLe(NAbs(NSub(a, b)), NAdd("1e-12", NMul("1e-12", NAbs(b))))
\* Every solve starts at the voltages given with the buses (or, on request, at 1 + j0).
StartOf(n, flat, bus) == FlattenSeq([b \in 1..n |-> IF flat THEN <<"1", "0">> ELSE CPolar(bus[b].vm, bus[b].va)])
RunClauses(r, n, tx) ==
  LET m == NUnk(n, AllPrims(r.els))
      at == {r.at[i] : i \in 1..Len(r.at)}
      start == StartOf(n, r.flat, r.bus)
      badS == SelectSeq([i \in 1..2*n |-> i], LAMBDA i : ~Near(r.start[i], start[i]))
      scale == FoldLeft(LAMBDA a, i : NMax(a, NAbs(r.new.x[i])), "1", [i \in 1..Len(r.new.x) |-> i])
      badX == SelectSeq([i \in 1..Len(r.new.x) |-> i], LAMBDA i : i <= 2 * n /\ ~NLe(NAbs(NSub(r.got.x[i], r.new.x[i])), NMul("1e-7", scale)))
      Same(f) == r.got[f] = r.new[f]
  IN << <<"what a new network does", r.got.exc = r.new.exc, r.got.exc \o " instead of " \o r.new.exc>> >> \o
     (IF r.got.exc # "" \/ r.new.exc # "" THEN <<>> ELSE
     << <<"every unknown has its own place", Len(r.at) = m /\ Cardinality(at) = m /\ at \subseteq 0..(r.size - 1) /\ (r.opt \/ r.size = m), ToString(r.at)>>,
        <<"the start vector is as given", Len(r.start) = m /\ badS = <<>>,
           IF badS = <<>> THEN "" ELSE Join([k \in 1..Len(badS) |-> ToString(badS[k]) \o " is " \o r.start[badS[k]] \o " not " \o start[badS[k]]])>>,
        <<"successful as a new network is", Same("ok"), ToString(r.got.ok)>>,
        <<"the same solution as a new network", Len(r.got.x) = Len(r.new.x) /\ (r.got.ok /\ r.new.ok => badX = <<>>), ToString(badX)>>,
        <<"the same report as a new network", r.got.ok /\ r.new.ok => Same("buses") /\ Same("gens") /\ Same("loads"), ToString(r.got)>> >>)
Clauses(c) == FlattenSeq([k \in 1..Len(c.runs) |->
   LET q == RunClauses(c.runs[k], c.runs[k].n, c.tx) IN [j \in 1..Len(q) |-> <<q[j][1], q[j][2], "run " \o ToString(k) \o " " \o q[j][3]>>]])
Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Clauses(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
