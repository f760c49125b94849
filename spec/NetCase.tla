------------------------------ MODULE NetCase ------------------------------
(***************************************************************************)
(* Judges what the implementation computed for a network against Net.       *)
(*  stamp  the residuals, matrix rows and right-hand side it produced at an *)
(*         arbitrary operating point                                        *)
(*  result what it reported for a power flow                                 *)
(***************************************************************************)
EXTENDS Net, Judge

VARIABLE pos

Eps == "1e-10"

Name(n, i) == IF i <= 2 * n THEN "bus " \o ToString((i + 1) \div 2) \o (IF i % 2 = 1 THEN " real" ELSE " imag")
              ELSE "own equation " \o ToString(i - 2 * n)

Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", s)

StampClauses(c) ==
  LET n == c.n
      ps == AllPrims(c.els)
      f == F(n, ps, c.x, c.tx, c.lf)
      mag == RowMags(n, ps, c.x, c.tx, c.lf)
      m == NUnk(n, ps)
      cols == TLCEval([j \in 1..m |-> DFcol(n, ps, c.x, c.tx, c.lf, j)])
      \* the code's row i as a function of column
      RowAt(i, j) == NSum(LET s == SelectSeq(c.rows[i], LAMBDA e : e[1] = j) IN [k \in 1..Len(s) |-> s[k][2]])
      big(i) == FoldLeft(LAMBDA a, j : NMax(a, NAbs(cols[j][i])), "1e-300", [j \in 1..m |-> j])
      rhs(i) == NSub(NDot([j \in 1..m |-> cols[j][i]], c.x), f[i])
      rhsTol(i) == NMul("1e-9", NAdd(mag[i], NSum([j \in 1..m |-> NAbs(NMul(cols[j][i], c.x[j]))])))
      Signs(i) == IF i <= 2 * n THEN {"1"} ELSE {"1", "-1"}
      ResOk(i) == \E s \in Signs(i) : NLe(NAbs(NSub(c.res[i], NMul(s, f[i]))), NAdd("1e-13", NMul("1e-9", mag[i])))
      LinOk(i) == \E s \in Signs(i) :
                    /\ \A j \in 1..m : NLe(NAbs(NSub(RowAt(i, j), NMul(s, cols[j][i]))), NMul("1e-9", big(i)))
                    /\ NLe(NAbs(NSub(c.rhs[i], NMul(s, rhs(i)))), NAdd("1e-13", rhsTol(i)))
      badR == SelectSeq([i \in 1..m |-> i], LAMBDA i : ~ResOk(i))
      badL == SelectSeq([i \in 1..m |-> i], LAMBDA i : ~LinOk(i))
  IN IF m # c.size THEN <<<<"number of unknowns", FALSE, ToString(m) \o " expected, code has " \o ToString(c.size)>>>>
     ELSE (IF c.part = "res" THEN
      <<<<"residual", badR = <<>>, IF badR = <<>> THEN "" ELSE
           Join([k \in 1..Len(badR) |-> Name(n, badR[k]) \o " is " \o c.res[badR[k]] \o " not " \o NFix(f[badR[k]], 9)])>>>>
      ELSE <<<<"linearization", badL = <<>>, IF badL = <<>> THEN "" ELSE Join([k \in 1..Len(badL) |-> Name(n, badL[k])])>>>>)

(* A power flow's results.  ref, when given, is a point the generator claims  *)
(* solves the network; Witness re-checks that claim here.                     *)
\* Elements that are reported, in the order the unknowns were listed.
Reported(els, kinds) == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : els[i].t \in kinds)

Clip(v) == NFix(v, 9)

ResultClauses(c) ==
  LET n == c.n
      ps == AllPrims(c.els)
      m == NUnk(n, ps)
      f == F(n, ps, c.x, "0", "0")
      mag == RowMags(n, ps, c.x, "0", "0")
      slack(i) == NMul(Eps, mag[i])
      bad == SelectSeq([i \in 1..m |-> i],
               LAMBDA i : ~NLe(NAbs(f[i]), NAdd(NMul("1.000001", c.tol), slack(i))))
      worst == FoldLeft(LAMBDA a, i : NMax(a, NAbs(f[i])), "0", [i \in 1..m |-> i])
      worstMag == FoldLeft(LAMBDA a, i : NMax(a, slack(i)), "0", [i \in 1..m |-> i])
      V == VOf(n, c.x)
      \* unknown offset of element i's first primitive
      ElOff(i) == 2 * n + FoldLeft(LAMBDA a, k : a + NX(k), 0, AllPrims(SubSeq(c.els, 1, i - 1)))
      buses == SelectSeq([b \in 1..n |-> b], LAMBDA b : ~c.virt[b])
      refBad == SelectSeq([i \in 1..Len(c.ref) |-> i], LAMBDA i :
                  i <= 2 * n /\ ~NLe(NAbs(NSub(c.ref[i], c.x[i])), c.reftol))
      GenOk(g) ==
        /\ g.el # 0
        /\ LET e == c.els[g.el] o == ElOff(g.el) IN
           IF e.t = "gen" THEN g.kind = "PV" /\ NEq(g.p, NNeg(e.p)) /\ NEq(g.q, c.x[o+1])
           ELSE LET s == CMul(V[e.f], CConj(<<c.x[o+1], c.x[o+2]>>)) IN
                g.kind = "Slack" /\ CClose(<<g.p, g.q>>, s, "1e-9", "1e-9")
      genEls == {g.el : g \in {c.gens[k] : k \in 1..Len(c.gens)}}
      loadEls == {g.el : g \in {c.loads[k] : k \in 1..Len(c.loads)}}
      expGen == {i \in 1..Len(c.els) : c.els[i].t \in {"gen", "slack"}}
      expLoad == {i \in 1..Len(c.els) : c.els[i].t = "load"}
  IN IF c.exc # "" THEN <<<<"solvable network is solved", ~c.must, c.exc>>>>
     ELSE IF m # Len(c.x) THEN <<<<"number of unknowns", FALSE, ToString(m)>>>>
     ELSE
     << <<"solvable network is solved", c.must => c.ok, "not reported successful">>,
        <<"a successful power flow satisfies the physics", c.ok => bad = <<>>,
           IF bad = <<>> THEN "" ELSE Join([k \in 1..Len(bad) |-> Name(n, bad[k]) \o " off by " \o Clip(f[bad[k]])])>>,
        <<"the solution is the known one", (c.ok /\ Len(c.ref) > 0) => refBad = <<>>,
           IF ~(c.ok /\ Len(c.ref) > 0) \/ refBad = <<>> THEN "" ELSE
             Join([k \in 1..Len(refBad) |-> Name(n, refBad[k]) \o " is " \o Clip(c.x[refBad[k]]) \o " not " \o Clip(c.ref[refBad[k]])])>>,
        <<"the reported residual is the network's", NLe(NAbs(NSub(c.maxres, worst)), NAdd(NMul("1e-6", worst), worstMag)),
           "reported " \o c.maxres \o " is " \o Clip(worst)>>,
        <<"success means the network as given", c.ok => NEq(c.txp, "0") /\ c.iters <= c.maxiters, c.txp>>,
        <<"no fuse carries more than its limit", c.ok /\ "fuses" \in DOMAIN c =>
             \A k \in 1..Len(c.fuses) : LET o == ElOff(c.fuses[k].el) IN
                NLe(CAbs(<<c.x[o+1], c.x[o+2]>>), NMul("1.000001", c.fuses[k].limit)), "">>,
        <<"every bus is reported once at its voltage",
           /\ Len(c.bus) = Len(buses)
           /\ \A k \in 1..Len(buses) : c.bus[k].b = buses[k] /\
                <<c.bus[k].vr, c.bus[k].vi>> = V[buses[k]] /\
                NClose(c.bus[k].mag, CAbs(V[buses[k]]), "1e-12", "1e-12") /\
                (NLt("1e-7", c.bus[k].mag) =>
                  CClose(CPolar(c.bus[k].mag, NDiv(NMul(c.bus[k].deg, NPi), "180")), V[buses[k]], "1e-12", "1e-9")), "">>,
        <<"every source is reported at its power",
           genEls = expGen /\ Len(c.gens) = Cardinality(expGen) /\ \A k \in 1..Len(c.gens) : GenOk(c.gens[k]), "">>,
        <<"every load is reported at its power",
           loadEls = expLoad /\ Len(c.loads) = Cardinality(expLoad)
           /\ \A k \in 1..Len(c.loads) : LET e == c.els[c.loads[k].el] IN NEq(c.loads[k].p, e.p) /\ NEq(c.loads[k].q, e.q), "">> >>

RefWitness(c) ==
  c.kind # "result" \/ Len(c.ref) = 0 \/
    LET ps == AllPrims(c.els)
        f == F(c.n, ps, c.ref, "0", "0")
        mag == RowMags(c.n, ps, c.ref, "0", "0")
    IN Len(f) = Len(c.ref) /\ \A i \in 1..Len(f) : NLe(NAbs(f[i]), NAdd(NMul("0.01", c.tol), NMul("1e-9", mag[i])))

Clauses(c) ==
  IF ~Witness(c) THEN <<<<"witness", FALSE, "line admittance is not the inverse of its impedance">>>>
  ELSE IF ~RefWitness(c) THEN <<<<"witness", FALSE, "the reference point does not solve the network">>>>
  ELSE CASE c.kind = "stamp" -> StampClauses(c)
         [] c.kind = "result" -> ResultClauses(c)

Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Clauses(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
