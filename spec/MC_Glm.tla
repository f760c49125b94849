------------------------------- MODULE MC_Glm -------------------------------
(* Sanity of the meaning given to GLM objects: the same equipment written in  *)
(* other units, listed in another order or named through a child is the same  *)
(* equipment; lines are reciprocal and passive; transformers and regulators   *)
(* lose only what their resistances take; a delta does not see what its three *)
(* phases have in common; a constant power load draws its power.              *)
EXTENDS Glm
VARIABLES kind, ph, neutral, un, shift, how
vars == <<kind, ph, neutral, un, shift, how>>
Init ==
  /\ kind \in {"oh", "ug"} /\ ph \in {<<"A", "B", "C">>, <<"C", "A", "B">>, <<"B", "C">>, <<"C">>}
  /\ neutral \in BOOLEAN /\ un \in {"", "m", "km"} /\ shift \in {<<"0", "0">>, <<"100", "-30">>} /\ how \in {"yy", "dd", "dy"}
  /\ \/ how = "yy" /\ shift = <<"0", "0">>           \* the lines
     \/ kind = "oh" /\ un = ""                       \* the rest
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Q(v, u) == [v |-> v, u |-> u]
P(v) == Q(v, "")
\* the value v, in feet, written in another unit
Ft(v) == IF un = "" THEN P(v) ELSE Q(NDiv(v, Feet[un]), un)
PerMi(v) == IF un = "" THEN P(v) ELSE Q(NDiv(v, PerMile(un)), IF un = "m" THEN "Ohm/m" ELSE "Ohm/km")
Inch(v) == IF un = "" THEN P(v) ELSE Q(NDiv(NDiv(v, "12"), Feet[un]), un)
Wire(p, r, g) == [p |-> p, r |-> PerMi(r), gmr |-> Ft(g), dia |-> Inch("0.7"), amp |-> P(""), od |-> Inch("1.2"), nd |-> Inch("0.065"), cd |-> Inch("0.5"),
                  ngmr |-> Ft("0.0025"), nr |-> PerMi("9.1"), k |-> "11", perm |-> "2.1"]
WirePlain(p, r, g) == [p |-> p, r |-> P(r), gmr |-> P(g), dia |-> P("0.7"), amp |-> P(""), od |-> P("1.2"), nd |-> P("0.065"), cd |-> P("0.5"),
                  ngmr |-> P("0.0025"), nr |-> P("9.1"), k |-> "11", perm |-> "2.1"]
Wires(W(_, _, _)) == <<W("A", "0.31", "0.024"), W("B", "0.32", "0.022"), W("C", "0.30", "0.026"), W("N", "0.59", "0.008")>>
D(F(_)) == <<[a |-> "A", b |-> "B", d |-> F("2.5")], [a |-> "B", b |-> "C", d |-> F("4.5")], [a |-> "A", b |-> "C", d |-> F("7")],
             [a |-> "A", b |-> "N", d |-> F("5.6")], [a |-> "B", b |-> "N", d |-> F("4.3")], [a |-> "C", b |-> "N", d |-> F("5")],
             [a |-> "A", b |-> "E", d |-> F("29")], [a |-> "B", b |-> "E", d |-> F("29")], [a |-> "C", b |-> "E", d |-> F("28")], [a |-> "N", b |-> "E", d |-> F("25")]>>
Line == [kind |-> kind, f |-> "p", t |-> "q", phases |-> ph, n |-> neutral, len |-> Ft("2000"), z |-> <<>>, c |-> <<>>, wires |-> Wires(Wire), dist |-> D(Ft), dia |-> P(""), ins |-> P("")]
PlainLine == [Line EXCEPT !.len = P("2000"), !.wires = Wires(WirePlain), !.dist = D(P), !.phases = Sorted(ph)]

Node(nm, par) == [name |-> nm, phases |-> <<"A", "B", "C">>, parent |-> par, vnom |-> P("7200"), swing |-> FALSE, volts |-> <<>>]
Triplex(nm) == [Node(nm, "") EXCEPT !.phases = <<"1", "2">>]
F == [cap |-> TRUE, nodes |-> <<Node("p", ""), Node("child", "p"), Node("grandchild", "child"), Node("q", ""), Triplex("s")>>]
V0 == [t \in Terminals(F) |->
        CASE t = "p_A" -> <<"7100", "60">> [] t = "p_B" -> <<"-3600", "-6200">> [] t = "p_C" -> <<"-3550", "6260">>
          [] t = "q_A" -> <<"7080", "30">> [] t = "q_B" -> <<"-3580", "-6190">> [] t = "q_C" -> <<"-3560", "6240">>
          [] t = "s_1" -> <<"119", "2">> [] t = "s_2" -> <<"-121", "-1">>]
\* p's phases raised together
V1 == [t \in DOMAIN V0 |-> IF t \in {"p_A", "p_B", "p_C"} THEN CAdd(V0[t], shift) ELSE V0[t]]
Same(a, b) == \A t \in DOMAIN V0 : CClose(At(a, t), At(b, t), "1e-25", "1e-30")
\* Real power a component takes in.
Taken(d, V) == NSum([i \in 1..Len(d) |-> CMul(V[d[i][1]], CConj(d[i][2]))[1]])
Balanced(d) == LET s == CSum([i \in 1..Len(d) |-> d[i][2]]) IN NLe(CAbs(s), "1e-25")

Units == Same(LineI(F, Line, V0), LineI(F, PlainLine, V0))
NamedByChild == Same(LineI(F, Line, V0), LineI(F, [Line EXCEPT !.f = "grandchild"], V0))
Reciprocal == LET Z == LineZ(Line) IN \A i, j \in 1..Len(Z) : CClose(Z[i][j], Z[j][i], "0", "1e-40")
\* Without its charging a line takes in power, and what goes in at one end comes out at the other.
Series == LineI([F EXCEPT !.cap = FALSE], Line, V0)
Passive == NLe("-1e-25", Taken(Series, V0)) /\ Balanced(Series)
\* Charging takes no power and leads the voltage.
ChargingLossless ==
  LET full == LineI(F, Line, V0) IN
  /\ NClose(Taken(full, V0), Taken(Series, V0), "1e-25", "1e-30")
  /\ LET q(d) == NSum([i \in 1..Len(d) |-> CMul(V0[d[i][1]], CConj(d[i][2]))[2]]) IN NLt(q(full), q(Series))
\* A line of twice the length carries half the current and charges twice as much.
Twice ==
  LET two == [PlainLine EXCEPT !.len = P("4000")] n == Len(ph)
      I(l) == Through(l, [i \in 1..n |-> CSub(V0["p_" \o ph[i]], V0["q_" \o ph[i]])])
  IN \A i \in 1..n : CClose(I(PlainLine)[i], CScale("2", I(two)[i]), "1e-30", "1e-30")
\* With no current in it, a neutral makes no difference: Kron's reduction is the elimination of the grounded conductor.
Kron == (kind = "oh" /\ neutral) =>
  LET n == Len(ph) Z == OhZ(PlainLine)
      red == [i \in 1..n |-> [j \in 1..n |-> CSub(Z[i][j], CMul(CMul(Z[i][n+1], CInv(Z[n+1][n+1])), Z[n+1][j]))]]
      dV == [i \in 1..n |-> CSub(V0["p_" \o ph[i]], V0["q_" \o ph[i]])]
      I == Solve(red, [i \in 1..n |-> CScale(NDiv("1", Miles(PlainLine)), dV[i])])
      J == Through(PlainLine, dV)
  IN \A i \in 1..n : CClose(I[i], J[i], "1e-25", "1e-30")

Xf == [ct |-> FALSE, f |-> "p", t |-> "q", phases |-> ph, dp |-> how \in {"dd", "dy"}, ds |-> how = "dd", vp |-> P("12470"), vs |-> P("12470"),
       s |-> <<P("500")>>, z |-> [n |-> "j", a |-> "0.01", b |-> "0.06", u |-> ""]]
XfPassive == Len(ph) = 3 => LET d == XfI(F, Xf, V0) IN NLe("-1e-25", Taken(d, V0))
\* The primary delta does not see a common voltage; a wye does.
ZeroSequence == (Len(ph) = 3 /\ shift # <<"0", "0">>) =>
  (Same(XfI(F, Xf, V0), XfI(F, Xf, V1)) <=> how \in {"dd", "dy"})
\* and its line currents have no common part.
DeltaCurrents == (Len(ph) = 3 /\ how \in {"dd", "dy"}) =>
  LET d == XfI(F, Xf, V0) IN NLe(CAbs(CSum(<<At(d, "p_A"), At(d, "p_B"), At(d, "p_C")>>)), "1e-25")
Order == Len(ph) = 3 => Same(XfI(F, Xf, V0), XfI(F, [Xf EXCEPT !.phases = <<"B", "A", "C">>], V0))
Shares == Same(XfI(F, [Xf EXCEPT !.phases = <<"A", "B", "C">>], V0),
               XfI(F, [Xf EXCEPT !.phases = <<"A", "B", "C">>, !.s = <<P("200"), Q("0.2", "MVA"), Q("100000", "VA")>>], V0))

Ct == [Xf EXCEPT !.ct = TRUE, !.t = "s", !.phases = <<"B">>, !.vp = P("7200"), !.vs = P("120"), !.dp = FALSE, !.ds = FALSE]
CtLossless == [Ct EXCEPT !.z.a = "0"]
CtPassive == LET v == [V0 EXCEPT !["s_1"] = <<"-59", "-104">>, !["s_2"] = <<"60", "103">>] IN
  /\ NLe("-1e-25", Taken(CtI(F, Ct, v), v)) /\ NLe(NAbs(Taken(CtI(F, CtLossless, v), v)), "1e-20")

Reg(tap) == [f |-> "p", t |-> "q", tap |-> [A |-> tap, B |-> 0, C |-> -tap], regulation |-> "0.1", type |-> IF neutral THEN "A" ELSE "B", raise |-> 16, lower |-> 16]
Regulators ==
  /\ \A p \in {"A", "B", "C"} : NEq(RegRatioOf(Reg(0), p), "1")
  /\ NLt(RegRatioOf(Reg(5), "A"), "1") /\ NLt("1", RegRatioOf(Reg(5), "C"))
  /\ NEq(RegRatioOf(Reg(20), "A"), RegRatioOf(Reg(16), "A"))
  /\ NLe("-1e-20", Taken(RegI(F, Reg(4), V0), V0))

Load(c, delta, k) == [node |-> "grandchild", c |-> c, delta |-> delta, kind |-> k, v |-> [n |-> "j", a |-> "90", b |-> "30", u |-> IF k = "p" THEN "kVA" ELSE ""]]
Loads == \A c \in {<<"A">>, <<"C">>, <<"B", "C">>} :
  /\ LET d == LoadI(F, Load(c, how # "yy", "p"), V0) IN NClose(Taken(d, V0), "90000", "0", "1e-40")
  /\ (Len(c) = 1) => Same(LoadI(F, Load(c, TRUE, "z"), V0), LoadI(F, Load(<<c[1], Rot(c[1])>>, FALSE, "z"), V0))
Notations ==
  LET r == NSqrt("2") IN
  /\ CClose(CForm([n |-> "d", a |-> r, b |-> "135", u |-> ""]), <<"-1", "1">>, "1e-40", "0")
  /\ CClose(CForm([n |-> "r", a |-> r, b |-> NDiv(NPi, "-4"), u |-> ""]), <<"1", "-1">>, "1e-40", "0")
Capacitor == LET c == [node |-> "child", parts |-> <<[p |-> "A", q |-> Q("0.1", "MVAr"), on |-> TRUE], [p |-> "B", q |-> P("7"), on |-> FALSE]>>, vnom |-> Q("7.2", "kV")]
                 d == CapI(F, c, V0) IN
  Len(d) = 1 /\ NLe(NAbs(Taken(d, V0)), "1e-30") /\ NClose(CAbs(At(CapI(F, c, [V0 EXCEPT !["p_A"] = <<"7200", "0">>]), "p_A")), NDiv("100000", "7200"), "0", "1e-40")
ASSUME Notations
ASSUME Capacitor
=============================================================================
