----------------------------- MODULE CacheCase -----------------------------
(***************************************************************************)
(* What a process got for a segment (a Lagrangian with constants, primal    *)
(* and dual variables), whatever was in the cache: for every variable the    *)
(* first derivative, and the terms of its linearisation at a point:          *)
(*    sum over variables w of  Y_w * w  =  J,   Y_w = d2L/dv dw,             *)
(*    J = sum of Y_w * w - dL/dv.                                            *)
(* Terms marked as constant do not depend on the variables.                  *)
(***************************************************************************)
EXTENDS Poly, Judge

VARIABLE pos

TolOf(p, x) == NAdd("1e-12", NMul("1e-9", Mag(p, x)))

\* v: number of the variable; at: number of the point
TermOk(c, g, q) ==
  LET x == c.points[q]
      n == Len(x)
      d == Diff(c.poly, g.v)
      t == g.at[q]
      Y(w) == NSum(LET s == SelectSeq(t.terms, LAMBDA e : e.w = w) IN [k \in 1..Len(s) |-> s[k].y])
      vars == (c.nc + 1)..n
      tol(w) == TolOf(Diff(d, w), x)
      rhs == NSub(NSum([i \in 1..Len(x) |-> IF i \in vars THEN NMul(Val(Diff(d, i), x), x[i]) ELSE "0"]), Val(d, x))
      rtol == NAdd(TolOf(d, x), NSum([i \in 1..Len(x) |-> NMul(TolOf(Diff(d, i), x), NAbs(x[i]))]))
  IN /\ NLe(NAbs(NSub(t.grad, Val(d, x))), TolOf(d, x))
     /\ \A w \in vars : NLe(NAbs(NSub(Y(w), Val(Diff(d, w), x))), tol(w))
     /\ \A k \in 1..Len(t.terms) : t.terms[k].w \in vars
     /\ NLe(NAbs(NSub(t.j, rhs)), rtol)

\* A term stamped once as linear must be the same at every point (constants are equal at all points).
LinearOk(g) ==
  /\ g.jlinear => \A q \in 2..Len(g.at) : NClose(g.at[q].j, g.at[1].j, "1e-9", "1e-9")
  /\ \A k \in 1..Len(g.linear) :
       \A q \in 2..Len(g.at) : LET Yw(z) == NSum(LET s == SelectSeq(g.at[z].terms, LAMBDA e : e.w = g.linear[k]) IN [i \in 1..Len(s) |-> s[i].y])
                               IN NClose(Yw(q), Yw(1), "1e-9", "1e-9")

Clauses(c) ==
  LET bad == SelectSeq(c.got, LAMBDA g : ~(\A q \in 1..Len(c.points) : TermOk(c, g, q)))
      badl == SelectSeq(c.got, LAMBDA g : ~LinearOk(g))
  IN << <<"asking for a derivation never fails", c.exc = "", c.exc>>,
        <<"every variable's derivative is there", c.exc # "" \/ {c.got[k].v : k \in 1..Len(c.got)} = (c.nc + 1)..Len(c.points[1]), "">>,
        <<"the derivation used is that of the segment", bad = <<>>, IF bad = <<>> THEN "" ELSE "derivative by variable " \o ToString(bad[1].v)>>,
        <<"terms stamped once do not depend on the point", badl = <<>>, IF badl = <<>> THEN "" ELSE ToString(badl[1].v)>> >>

Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ Report(Cases[pos].id, Clauses(Cases[pos]))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
