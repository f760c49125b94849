------------------------------ MODULE GlmCase ------------------------------
(* Judges the network imported from a GLM file against Glm.                 *)
EXTENDS Glm, Judge

VARIABLE pos

Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", s)
Show(z) == NFix(z[1], 6) \o " + j" \o NFix(z[2], 6)

\* What is left of 1..n after each of 1..m took one of it that fits.
Left(m, n, Fits(_, _)) ==
  FoldLeft(LAMBDA left, k : LET c == {i \in left : Fits(k, i)} IN TLCEval(left \ (IF c = {} THEN {} ELSE {CHOOSE i \in c : TRUE})),
           TLCEval(1..n), [k \in 1..m |-> k])

\* Every expected condition is one row of the code's, up to sign.
Matching(exp, rows) ==
  LET Near(k, i) == \E s \in {"1", "-1"} : NLe(NAbs(NSub(exp[k], NMul(s, rows[i]))), NAdd("1e-9", NMul("1e-9", NAbs(exp[k]))))
  IN Len(exp) = Len(rows) /\ Left(Len(exp), Len(rows), Near) = {}
SameBag(a, b, Eq(_, _)) ==
  LET Fits(k, i) == Eq(a[k], b[i]) IN Len(a) = Len(b) /\ Left(Len(a), Len(b), Fits) = {}

FusesOf(f) == FlattenSeq([k \in 1..Len(f.fuses) |-> LET u == f.fuses[k] ph == Sorted(u.phases) IN
                [j \in 1..Len(ph) |-> [f |-> T(f, u.f, ph[j]), t |-> T(f, u.t, ph[j]), limit |-> Val(u.limit, ""), good |-> u.good[ph[j]]]]])
SameFuse(a, b) == a.f = b.f /\ a.t = b.t /\ a.good = b.good /\ NClose(a.limit, b.limit, "0", "1e-12")
VoltCaps(f) == FlattenSeq([k \in 1..Len(f.caps) |-> LET c == f.caps[k] IN
                IF ~c.volt THEN <<>> ELSE [j \in 1..Len(c.parts) |->
                  [t |-> T(f, c.node, c.parts[j].p), hi |-> Val(c.hi, ""), lo |-> Val(c.lo, ""), y |-> NDiv(Val(c.parts[j].q, ""), NMul(Val(c.vnom, ""), Val(c.vnom, "")))]]])
SameCap(a, b) == a.t = b.t /\ \A x \in {"hi", "lo", "y"} : NClose(a[x], b[x], "0", "1e-12")
Amps(f) == FlattenSeq([k \in 1..Len(f.lines) |-> LET l == f.lines[k] ph == LinePhases(l) IN
            IF Len(l.wires) = 0 \/ \E j \in 1..Len(ph) : ~Has(WireOf(l, ph[j]).amp) THEN <<>>
            ELSE [j \in 1..Len(ph) |-> [f |-> T(f, l.f, ph[j]), t |-> T(f, l.t, ph[j]), a |-> Val(WireOf(l, ph[j]).amp, "")]]])
SameAmp(a, b) == a.f = b.f /\ a.t = b.t /\ NClose(a.a, b.a, "0", "1e-12")
RatingsOf(f) == FlattenSeq([k \in 1..Len(f.xf) |-> LET x == f.xf[k] ph == Sorted(x.phases) IN
            [j \in 1..(IF x.ct THEN 1 ELSE Len(ph)) |-> [f |-> T(f, x.f, ph[j]), s |-> Rating(x)]]])
SameRating(a, b) == a.f = b.f /\ NClose(a.s, b.s, "0", "1e-12")

Clauses(c) ==
  LET f == c.file
      terms == Terminals(f)
      got == {c.bus[k].t : k \in 1..Len(c.bus)}
      seq == SetToSeq(terms)
  IN IF c.exc # "" THEN <<<<"a valid file is imported", FALSE, c.exc>>>>
     ELSE IF got # terms \/ Len(c.bus) # Cardinality(terms) THEN
       <<<<"exactly the phases of the nodes are imported", FALSE,
           "missing " \o ToString(terms \ got) \o " extra " \o ToString(got \ terms)>>>>
     ELSE
  LET B == [t \in terms |-> c.bus[CHOOSE k \in 1..Len(c.bus) : c.bus[k].t = t]]
      V == TLCEval([t \in terms |-> B[t].v])
      d == TLCEval(Draws(f, V))
      exp == TLCEval([t \in terms |-> At(d, t)])
      Ok(t) == CClose(B[t].drawn, exp[t], NAdd("1e-9", NMul("1e-8", Mag(d, t))), "0")
      bad == SelectSeq(seq, LAMBDA t : ~Ok(t))
      conds == Conditions(f, V)
      badV == SelectSeq(seq, LAMBDA t :
                LET n == NodeOf(f, B[t].node) IN ~NClose(B[t].vnom, Val(n.vnom, ""), "0", "1e-12"))
  IN <<<<"current at every phase", bad = <<>>,
         Join([k \in 1..Len(bad) |-> bad[k] \o " draws " \o Show(B[bad[k]].drawn) \o " not " \o Show(exp[bad[k]])])>>,
       <<"sources and closed switches", Matching(conds, c.conds), "expected " \o Join([k \in 1..Len(conds) |-> NFix(conds[k], 9)])>>,
       <<"free unknowns", c.free = Len(conds), ToString(c.free)>>,
       <<"nominal voltages", badV = <<>>, Join(badV)>>,
       <<"fuses", SameBag(FusesOf(f), c.fuses, SameFuse), ToString(c.fuses)>>,
       <<"voltage controlled capacitors", SameBag(VoltCaps(f), c.voltcaps, SameCap), ToString(c.voltcaps)>>,
       <<"line ampacities", SameBag(Amps(f), c.amps, SameAmp), ToString(c.amps)>>,
       <<"transformer ratings", SameBag(RatingsOf(f), c.ratings, SameRating), ToString(c.ratings)>> >>
Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Clauses(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
