------------------------------- MODULE MC_Net -------------------------------
(* Sanity of the component laws themselves, over a grid of component data,    *)
(* operating points and homotopy factors: charge and energy are conserved,    *)
(* constant-power loads draw their power, and the relaxed network is the       *)
(* stated one.                                                                *)
EXTENDS Net
VARIABLES el, v, x, tx
vars == <<el, v, x, tx>>
LF == "1"
Zs == {<<"0.01", "0.1">>, <<"0.2", "-0.05">>}
Els == {[t |-> "line", f |-> 1, to |-> 2, r |-> z[1], x |-> z[2], b |-> b] : z \in Zs, b \in {"0", "0.3"}}
  \cup {[t |-> "shunt", f |-> 1, g |-> "0.1", b |-> "-0.2"]}
  \cup {[t |-> "cap", f |-> 1, to |-> to, var |-> "2", vnom |-> "2", closed |-> c] : to \in {0, 2}, c \in BOOLEAN}
  \cup {[t |-> "load", f |-> 1, to |-> to, p |-> p, q |-> "0.3", ip |-> i, iq |-> "0.1", zr |-> z, zx |-> "0.7"] :
           to \in {0, 2}, p \in {"0", "-1.5"}, i \in {"0", "0.4"}, z \in {"0", "3"}}
  \cup {[t |-> "xfmr", fp |-> 1, fn |-> n, tp |-> 2, tn |-> m, r |-> "0.01", x |-> "0.2", tr |-> k, ang |-> a] :
           n \in {0, 3}, m \in {0, 3}, k \in {"1", "0.93", "20"}, a \in {"0", "30", "-7.5"}}
  \cup {[t |-> "reg", f |-> 1, to |-> 2, mid |-> 3, tap |-> tp, step |-> "0.00625", rtype |-> ty, raise |-> 16, lower |-> 16] :
           tp \in {-20, -3, 0, 16}, ty \in {"A", "B"}}
  \cup {[t |-> "vs", f |-> 1, to |-> to, vr |-> "0.3", vi |-> "-0.1"] : to \in {0, 2}}
  \cup {[t |-> "fuse", f |-> 1, mid |-> 2, to |-> 3]}
  \cup {[t |-> "switch", f |-> 1, to |-> 2, closed |-> c] : c \in BOOLEAN}
  \cup {[t |-> "ct", f |-> 1, mid |-> 2, s1 |-> 3, s2 |-> 1, to1 |-> 2, to2 |-> 3, tr |-> "60", rating |-> "50000", vn |-> <<"7200", "120", "120">>,
         cr |-> <<"0.006", "0.012", "0.012">>, cx |-> <<"0.01", "0.02", "0.02">>]}
  \cup {[t |-> "uline", fs |-> <<1, 2>>, ts |-> <<3, 1>>, y |-> <<<<(<<"2", "-5">>), (<<"-0.3", "1">>)>>, <<(<<"-0.3", "1">>), (<<"2.5", "-4">>)>>>>,
         b |-> <<<<"0.1", "-0.02">>, <<"-0.02", "0.2">>>>]}
Points == {<<"1", "0", "-0.4", "0.9", "-0.6", "-0.7">>, <<"0.7", "-0.2", "1.1", "0.05", "2", "1">>}
Init == el \in Els /\ v \in Points /\ x \in {<<"0.3", "-0.8", "0.5", "1.2">>} /\ tx \in {"0", "0.3", "1"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

V == VOf(3, v)
Ps == Prims(el)
Small(z) == NLe(CAbs(z), "1e-30")
X(p) == SubSeq(x, 1, NX(p))
D(p) == Draw(p, V, X(p), tx, LF)
Total(p) == CSum([i \in 1..Len(D(p)) |-> D(p)[i][2]])
\* What goes in at one terminal comes out at the others.
ChargeConserved == \A i \in 1..Len(Ps) : Ps[i].k \in {"y", "pq", "ic", "vs"} => Small(Total(Ps[i]))
\* A constant-power load draws its power whatever the voltage.
PowerIsConstant == \A i \in 1..Len(Ps) : Ps[i].k = "pq" =>
   LET p == Ps[i] IN Small(CSub(CMul(CSub(V[p.f], V[p.t]), CConj(D(p)[1][2])), p.s))
\* The transformer core neither makes nor loses power once its voltage equation holds.
CoreLossless == \A i \in 1..Len(Ps) : Ps[i].k = "xf" =>
   LET p == Ps[i]
       ip == <<x[1], x[2]>>
       vs == CAdd(V[p.tn], CDiv(CSub(V[p.fp], V[p.fn]), CPolar(TrAt(p, tx), AngAt(p, tx))))
       y == <<x[1], x[2]>> \o vs
       is == D(p)[4][2]
   IN /\ \A k \in {1, 2} : NLe(NAbs(Own(p, V, y, tx, LF)[k]), "1e-30")
      /\ Small(CSub(CMul(CSub(V[p.fp], V[p.fn]), CConj(ip)), CMul(CSub(vs, V[p.tn]), CConj(is))))
\* Its own current equation is the charge balance on the secondary.
CoreBalance == \A i \in 1..Len(Ps) : Ps[i].k = "xf" =>
   LET p == Ps[i] o == Own(p, V, X(p), tx, LF) IN Small(CAdd(CAdd(D(p)[3][2], D(p)[4][2]), <<o[3], o[4]>>))
CentreTapLossless == \A i \in 1..Len(Ps) : Ps[i].k = "ct" =>
   LET p == Ps[i]
       k == NDiv("1", TrAt(p, tx))
       W == [V EXCEPT ![p.s1] = CScale(k, V[p.f]), ![p.s2] = CNeg(CScale(k, V[p.f]))]
       d == Draw(p, W, X(p), tx, LF)
   IN p.f # p.s1 /\ p.f # p.s2 =>
      /\ \A z \in 1..4 : NLe(NAbs(Own(p, W, X(p), tx, LF)[z]), "1e-30")
      /\ Small(CSum([j \in 1..3 |-> CMul(W[d[j][1]], CConj(d[j][2]))]))
\* Fully relaxed: no shunts, unit ratios, no shift.
Relaxed == tx = "1" => \A i \in 1..Len(Ps) :
   LET p == Ps[i] IN
   /\ (p.k = "y" /\ p.s = "S" => Small(D(p)[1][2]))
   /\ (p.k \in {"xf", "ct"} => NEq(TrAt(p, tx), "1"))
   /\ (p.k = "xf" => NEq(AngAt(p, tx), "0"))
\* Magnitude bounds really bound.
Bounded == LET f == F(3, Ps, v \o FlattenSeq([i \in 1..Len(Ps) |-> X(Ps[i])]), tx, LF)
               m == RowMags(3, Ps, v \o FlattenSeq([i \in 1..Len(Ps) |-> X(Ps[i])]), tx, LF)
           IN Len(f) = Len(m) /\ \A i \in 1..Len(f) : NLe(NAbs(f[i]), NMul("1.0001", NAdd("1e-40", m[i])))
=============================================================================
