----------------------------- MODULE RatingCase -----------------------------
(***************************************************************************)
(* Equipment ratings.  A solved snapshot is marked exactly when the series    *)
(* current of some line phase exceeds its ampacity, the power of some         *)
(* transformer its rating, or the voltage of some reported bus is 5% or more  *)
(* off nominal.  Quantities within a hair of a limit decide nothing.          *)
(***************************************************************************)
EXTENDS Net, Judge
VARIABLE pos
Hair == "1e-7"
\* +1: over the limit for certain, -1: under it for certain, 0: too close to say
Side(q, limit) == IF NLt(NMul(limit, NAdd("1", Hair)), q) THEN 1 ELSE IF NLt(q, NMul(limit, NSub("1", Hair))) THEN -1 ELSE 0

\* Offset of the unknowns of element i's primitive k.
Off(c, i, k) ==
  LET before == AllPrims(SubSeq(c.els, 1, i - 1)) \o SubSeq(Prims(c.els[i]), 1, k - 1) IN
  2 * c.n + FoldLeft(LAMBDA a, p : a + NX(p), 0, before)
LineCurrent(c, V, i, ph) ==
  LET e == c.els[i] IN
  CAbs(CSum([j \in 1..Len(e.fs) |-> CMul(e.y[ph][j], CSub(V[e.fs[j]], V[e.ts[j]]))]))
\* Charging is drawn at the ends besides.
Ends(c, V, i, ph) ==
  LET e == c.els[i]
      s == CSum([j \in 1..Len(e.fs) |-> CMul(e.y[ph][j], CSub(V[e.fs[j]], V[e.ts[j]]))])
      ch(at) == CSum([j \in 1..Len(e.fs) |-> CMul(<<"0", NDiv(e.b[ph][j], "2")>>, V[at[j]])])
  IN <<CAbs(CAdd(s, ch(e.fs))), CAbs(CSub(s, ch(e.ts)))>>
XfPower(c, V, i) ==
  LET e == c.els[i] IN
  IF e.t = "xfmr" THEN
    LET o == Off(c, i, 1) IN CAbs(CMul(CSub(V[e.fp], V[e.fn]), CConj(<<c.x[o+1], c.x[o+2]>>)))
  ELSE LET o == Off(c, i, 4) IN
    CAbs(CAdd(CMul(V[e.s1], CConj(<<c.x[o+1], c.x[o+2]>>)), CMul(V[e.s2], CConj(<<c.x[o+3], c.x[o+4]>>))))
Verdicts(c) ==
  LET V == VOf(c.n, c.x) IN
  {Side(LineCurrent(c, V, c.amps[k].el, c.amps[k].ph), c.amps[k].a) : k \in 1..Len(c.amps)}
  \cup {IF NLt(Ends(c, V, c.amps[k].el, c.amps[k].ph)[1], c.amps[k].a) = NLt(Ends(c, V, c.amps[k].el, c.amps[k].ph)[2], c.amps[k].a)
           /\ NLt(Ends(c, V, c.amps[k].el, c.amps[k].ph)[1], c.amps[k].a) = NLt(LineCurrent(c, V, c.amps[k].el, c.amps[k].ph), c.amps[k].a)
        THEN -1 ELSE 0 : k \in 1..Len(c.amps)}
  \cup {Side(XfPower(c, V, c.powers[k].el), c.powers[k].s) : k \in 1..Len(c.powers)}
  \cup {Side(NDiv(NAbs(NSub(CAbs(V[b]), c.vnom[b])), c.vnom[b]), "0.05") : b \in {i \in 1..c.n : ~c.virt[i]}}
Clauses(c) ==
  IF ~Witness(c) THEN <<<<"witness", FALSE, "line admittance">>>>
  ELSE IF ~c.ok THEN << <<"a failed snapshot is not marked", ~c.marked /\ ~c.filemark, c.exc>> >>
  ELSE LET v == Verdicts(c) IN
     << <<"equipment beyond its rating is reported", 1 \in v => c.marked, c.cause>>,
        <<"equipment within its rating is not reported", v \subseteq {-1} => ~c.marked, c.cause>>,
        <<"the files say so", c.filemark = c.marked, "">> >>
Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ LET c == Cases[pos] IN
          /\ Report(c.id, Clauses(c))
          /\ c.ok => LET v == Verdicts(c) IN Count(IF 1 \in v THEN "beyond" ELSE IF 0 \in v THEN "undecided" ELSE "within", 1)
     /\ pos' = pos + 1
  \/ pos = Len(Cases) + 1 /\ Done(Len(Cases)) /\ pos' = pos + 1
=============================================================================
