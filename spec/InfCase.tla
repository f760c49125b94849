------------------------------ MODULE InfCase ------------------------------
(***************************************************************************)
(* Infeasibility analysis: at every bus an extra current I_b is drawn, and  *)
(* what is solved for is the operating point with the least sum of squared  *)
(* extra currents.  A successful analysis is a stationary point of that     *)
(* problem: with lambda_b = -2 I_b the multipliers of the buses' current    *)
(* balances, and some multipliers mu of the components' own equations,      *)
(*    F(x) + I = 0  and  lambda^T dF_buses + mu^T dF_own = 0                 *)
(* over the physics F of Net (kind "result"); the equations solved are judged     *)
(* at arbitrary points too (kind "point").  Of a network that has an operating point the *)
(* analysis finds that point, and no extra current.  c.mu is a witness.      *)
(***************************************************************************)
EXTENDS Net, Judge

VARIABLE pos

Eps == "1e-10"
Name(n, i) == IF i <= 2 * n THEN "bus " \o ToString((i + 1) \div 2) \o (IF i % 2 = 1 THEN " real" ELSE " imag")
              ELSE "own equation " \o ToString(i - 2 * n)
Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", s)
Bad(m, Ok(_)) == SelectSeq([i \in 1..m |-> i], LAMBDA i : ~Ok(i))

\* Powers under a hundred-thousandth are reported as none.
Small(v) == NLt(NAbs(v), "1e-5")
AsPower(got, want) == NClose(got, want, "1e-9", "1e-9") \/ (NIsZero(got) /\ NLt(NAbs(want), "1.000001e-5"))

Clauses(c) ==
  LET n == c.n
      ps == AllPrims(c.els)
      m == NUnk(n, ps)
      f == F(n, ps, c.x, "0", "0")
      mag == RowMags(n, ps, c.x, "0", "0")
      extra(i) == IF i <= 2 * n THEN c.inf[i] ELSE "0"
      Balanced(i) == NLe(NAbs(NAdd(f[i], extra(i))), NAdd(NMul("1.000001", c.tol), NMul(Eps, mag[i])))
      badF == Bad(m, Balanced)
      mult == [i \in 1..m |-> IF i <= 2 * n THEN NMul("-2", c.inf[i]) ELSE c.mu[i - 2 * n]]
      cols == TLCEval([j \in 1..m |-> DFcol(n, ps, c.x, "0", "0", j)])
      Stationary(j) ==
        LET s == NDot(mult, cols[j])
            a == NSum([i \in 1..2 * n |-> NAbs(cols[j][i])])
            b == NSum([i \in 1..m |-> NAbs(NMul(mult[i], cols[j][i]))])
        IN NLe(NAbs(s), NAdd(NMul(NMul(NInt(m), c.tol), NAdd("1", a)), NMul("1e-9", b)))
      badS == IF c.ok THEN Bad(m, Stationary) ELSE <<>>
      V == VOf(n, c.x)
      Extra(b) == CMul(V[b], CConj(CNeg(<<c.inf[2 * b - 1], c.inf[2 * b]>>)))
      refBad == IF c.ok /\ Len(c.ref) > 0
                THEN Bad(2 * n, LAMBDA i : NLe(NAbs(NSub(c.ref[i], c.x[i])), c.reftol)) ELSE <<>>
      infBad == IF c.ok /\ Len(c.ref) > 0
                THEN Bad(2 * n, LAMBDA i : NLe(NAbs(c.inf[i]), c.inftol)) ELSE <<>>
      rp == [k \in 1..Len(c.rep) |-> c.rep[k].p]
      rq == [k \in 1..Len(c.rep) |-> c.rep[k].q]
  IN IF c.exc # "" THEN <<<<"a solvable network is solved with infeasibility analysis", ~c.must, c.exc>>>>
     ELSE IF m # Len(c.x) THEN <<<<"number of unknowns", FALSE, ToString(m)>>>>
     ELSE
     << <<"a solvable network is solved with infeasibility analysis", c.must => c.ok, "not reported successful">>,
        <<"success means every condition within the tolerance", c.ok => NLe(c.maxres, NMul("1.000001", c.tol)), c.maxres>>,
        <<"with the extra currents the physics holds", c.ok => badF = <<>>,
           IF badF = <<>> THEN "" ELSE Join([k \in 1..Len(badF) |-> Name(n, badF[k])])>>,
        <<"the extra currents are stationary", badS = <<>>,
           IF badS = <<>> THEN "" ELSE Join([k \in 1..Len(badS) |-> "unknown " \o ToString(badS[k])])>>,
        <<"a solvable network is solved at its operating point", refBad = <<>>,
           IF refBad = <<>> THEN "" ELSE Join([k \in 1..Len(refBad) |-> Name(n, refBad[k])])>>,
        <<"a solvable network needs no extra current", infBad = <<>>,
           IF infBad = <<>> THEN "" ELSE Join([k \in 1..Len(infBad) |-> Name(n, infBad[k]) \o " " \o c.inf[infBad[k]]])>>,
        <<"every bus's extra power is reported once",
           /\ Len(c.rep) = n
           /\ {c.rep[k].b : k \in 1..Len(c.rep)} = 1..n
           /\ \A k \in 1..Len(c.rep) : LET s == Extra(c.rep[k].b) IN AsPower(c.rep[k].p, s[1]) /\ AsPower(c.rep[k].q, s[2]), "">>,
        <<"the totals are the sums of the extra powers",
           NClose(c.totp, NSum(rp), "1e-9", "1e-9") /\ NClose(c.totq, NSum(rq), "1e-9", "1e-9"), c.totp \o " " \o c.totq>>,
        <<"buses with extra power, and no others, are listed",
           /\ Len(c.listed) = Cardinality({c.listed[k] : k \in 1..Len(c.listed)})
           /\ {c.listed[k] : k \in 1..Len(c.listed)} =
                {c.rep[k].b : k \in {q \in 1..Len(c.rep) : ~Small(c.rep[q].p) \/ ~Small(c.rep[q].q)}}, "">> >>

(* The equations solved, at an arbitrary point: of the Lagrangian              *)
(*   L = sum of squared extra currents + lambda^T (F_buses + I) + mu^T F_own    *)
(* the derivatives by the multipliers, the extra currents and the network's     *)
(* unknowns must be what is to vanish.  An own equation's sign is free.         *)
PointClauses(c) ==
  LET n == c.n
      ps == AllPrims(c.els)
      m == NUnk(n, ps)
      f == F(n, ps, c.x, c.tx, c.lf)
      mag == RowMags(n, ps, c.x, c.tx, c.lf)
      cols == TLCEval([j \in 1..m |-> DFcol(n, ps, c.x, c.tx, c.lf, j)])
      tol(i) == NAdd("1e-12", NMul("1e-9", mag[i]))
      badB == Bad(2 * n, LAMBDA i : NLe(NAbs(NSub(c.bal[i], NAdd(f[i], c.inf[i]))), NAdd(tol(i), NMul("1e-9", NAbs(c.inf[i])))))
      badI == Bad(2 * n, LAMBDA i : NClose(c.dinf[i], NAdd(NMul("2", c.inf[i]), c.lam[i]), "1e-9", "1e-12"))
      Same(k, s) == NLe(NAbs(NSub(c.own[k], NMul(s, f[2 * n + k]))), tol(2 * n + k))
      badO == Bad(m - 2 * n, LAMBDA k : Same(k, "1") \/ Same(k, "-1"))
      sign == TLCEval([k \in 1..m - 2 * n |-> IF Same(k, "1") THEN "1" ELSE "-1"])
      mult == [i \in 1..m |-> IF i <= 2 * n THEN c.lam[i] ELSE NMul(sign[i - 2 * n], c.mu[i - 2 * n])]
      badP == Bad(m, LAMBDA j : NLe(NAbs(NSub(c.prim[j], NDot(mult, cols[j]))),
                                    NAdd("1e-12", NMul("1e-9", NSum([i \in 1..m |-> NAbs(NMul(mult[i], cols[j][i]))])))))
      Names(bad) == IF bad = <<>> THEN "" ELSE Join([k \in 1..Len(bad) |-> Name(n, bad[k])])
  IN IF Len(c.x) # m \/ Len(c.own) # m - 2 * n THEN <<<<"number of unknowns and multipliers", FALSE, ToString(m)>>>>
     ELSE
     << <<"what balances a bus is the physics and its extra current", badB = <<>>, Names(badB)>>,
        <<"an extra current's own condition", badI = <<>>, Names(badI)>>,
        <<"the components' own equations", badO = <<>>, IF badO = <<>> THEN "" ELSE Join([k \in 1..Len(badO) |-> ToString(badO[k])])>>,
        <<"the condition on every unknown", badP = <<>>, IF badP = <<>> THEN "" ELSE Join([k \in 1..Len(badP) |-> "unknown " \o ToString(badP[k])])>> >>

RefOk(c) ==
  Len(c.ref) = 0 \/
    LET ps == AllPrims(c.els)
        f == F(c.n, ps, c.ref, "0", "0")
        mag == RowMags(c.n, ps, c.ref, "0", "0")
    IN Len(f) = Len(c.ref) /\ \A i \in 1..Len(f) : NLe(NAbs(f[i]), NAdd(NMul("0.01", c.tol), NMul("1e-9", mag[i])))

Judged(c) == IF c.kind = "point" THEN PointClauses(c)
             ELSE IF ~Witness(c) \/ ~RefOk(c) THEN <<<<"witness", FALSE, "">>>> ELSE Clauses(c)

Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Judged(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
