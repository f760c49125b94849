-------------------------------- MODULE Glm --------------------------------
(***************************************************************************)
(* What the objects of a GridLAB-D (GLM) file mean: the current that every  *)
(* phase of every node sees at given voltages, and the conditions that its  *)
(* sources and closed switches impose.  Everything is computed from the     *)
(* quantities as they are written (number and unit); line impedances from   *)
(* the wires' geometry by Carson's modified equations (Kersting, Distri-    *)
(* bution System Modeling and Analysis, chapters 4 and 5).                  *)
(*                                                                          *)
(* A file is a record of sequences                                          *)
(*   nodes lines xf regs fuses switches loads caps                          *)
(* A quantity is [v, u]; a complex quantity [n, a, b, u] with notation      *)
(*   "re" a   "j","i" a + jb   "d" a at b degrees   "r" a at b radians      *)
(* A terminal is the string <node>_<phase>, of the node's outermost parent. *)
(***************************************************************************)
EXTENDS Lin, FiniteSets

(* ---- quantities ----------------------------------------------------------- *)
\* Lengths in feet, impedances in ohms per mile, capacitances in nF per mile,
\* the others in volts, amperes and volt-amperes.
Feet == [ft |-> "1", in |-> NDiv("1", "12"), yd |-> "3", mile |-> "5280", mm |-> NDiv("1", "304.8"), cm |-> NDiv("1", "30.48"),
         m |-> NDiv("1", "0.3048"), km |-> NDiv("1000", "0.3048")]
PerMile(l) == NDiv("5280", Feet[l])
Unit(u) ==
  CASE u \in DOMAIN Feet -> Feet[u]
    [] u \in {"V", "A", "VA", "W", "VAr", "Ohm"} -> "1"
    [] u \in {"kV", "kA", "kVA", "kW", "kVAr"} -> "1000"
    [] u \in {"MV", "MVA", "MW", "MVAr"} -> "1000000"
    [] u \in {"Ohm/mile", "nF/mile"} -> "1"
    [] u \in {"Ohm/km", "nF/km"} -> PerMile("km")
    [] u \in {"Ohm/m", "nF/m"} -> PerMile("m")
    [] u \in {"Ohm/ft", "nF/ft"} -> PerMile("ft")
\* What a number without a unit is in.
Plain(dim) == CASE dim = "inch" -> Feet["in"] [] dim = "kVA" -> "1000" [] OTHER -> "1"
Factor(u, dim) == IF u = "" THEN Plain(dim) ELSE Unit(u)
Val(q, dim) == NMul(q.v, Factor(q.u, dim))
Has(q) == q.v # ""

CForm(c) == CASE c.n = "re" -> <<c.a, "0">>
              [] c.n \in {"j", "i"} -> <<c.a, c.b>>
              [] c.n = "d" -> CPolar(c.a, NDiv(NMul(c.b, NPi), "180"))
              [] c.n = "r" -> CPolar(c.a, c.b)
CVal(c) == CScale(Factor(c.u, ""), CForm(c))

(* ---- terminals -------------------------------------------------------------- *)
NodeOf(f, name) == f.nodes[CHOOSE k \in 1..Len(f.nodes) : f.nodes[k].name = name]
RECURSIVE Root(_, _)
Root(f, name) == LET p == TLCEval(NodeOf(f, name).parent) IN IF p = "" THEN name ELSE Root(f, p)
T(f, name, p) == Root(f, name) \o "_" \o p
Terminals(f) == UNION {{f.nodes[k].name \o "_" \o f.nodes[k].phases[j] : j \in 1..Len(f.nodes[k].phases)} :
                       k \in {k \in 1..Len(f.nodes) : f.nodes[k].parent = ""}}

Sorted(phases) == SelectSeq(<<"A", "B", "C", "1", "2">>, LAMBDA p : \E k \in 1..Len(phases) : phases[k] = p)
Idx(p) == CASE p \in {"A", "1"} -> 1 [] p \in {"B", "2"} -> 2 [] p = "C" -> 3
Rot(p) == CASE p = "A" -> "B" [] p = "B" -> "C" [] p = "C" -> "A"
SQRT3 == NSqrt("3")

(* ---- lines ------------------------------------------------------------------ *)
\* Carson's modified equations, 60 Hz and 100 ohm-metres: ohms per mile.
Dirt(ug) == IF ug THEN <<"0.09327", "7.95153">> ELSE <<"0.09530", "7.93402">>
Carson(ug, r, d) == <<NAdd(r, Dirt(ug)[1]), NMul("0.12134", NAdd(NNeg(NLn(d)), Dirt(ug)[2]))>>

WireOf(l, p) == l.wires[CHOOSE k \in 1..Len(l.wires) : l.wires[k].p = p]
Dist(l, p, q) ==
  LET k == CHOOSE k \in 1..Len(l.dist) : {l.dist[k].a, l.dist[k].b} = {p, q} IN Val(l.dist[k].d, "")
HasDist(l, p, q) == \E k \in 1..Len(l.dist) : {l.dist[k].a, l.dist[k].b} = {p, q}
LinePhases(l) == Sorted(l.phases)
\* The conductors of a line: its phases, then what is grounded at both ends.
Neutral(l) == IF l.n THEN <<"N">> ELSE <<>>

OhZ(l) ==
  LET w == LinePhases(l) \o Neutral(l) IN
  [i \in 1..Len(w) |-> [j \in 1..Len(w) |->
     IF i = j THEN Carson(FALSE, Val(WireOf(l, w[i]).r, ""), Val(WireOf(l, w[i]).gmr, ""))
     ELSE Carson(FALSE, "0", Dist(l, w[i], w[j]))]]

\* Concentric neutral cables: each phase brings its own neutral, k strands on a
\* circle of radius R around the conductor.
CnR(c) == NDiv(NSub(Val(c.od, "inch"), Val(c.nd, "inch")), "2")
CnGmr(c) == NPow(NMul(NMul(Val(c.ngmr, ""), c.k), NPow(CnR(c), NSub(c.k, "1"))), NDiv("1", c.k))
\* Distance between a conductor and the strands of another cable, D away.
ToStrands(c, D) == NPow(NSub(NPow(D, c.k), NPow(CnR(c), c.k)), NDiv("1", c.k))
UgZ(l) ==
  LET ph == LinePhases(l)
      n == Len(ph)
      C(i) == WireOf(l, ph[i])
      \* <<"c", i>> conductor, <<"s", i>> strands of cable i, <<"n">> neutral wire
      w == [i \in 1..n |-> <<"c", i>>] \o [i \in 1..n |-> <<"s", i>>] \o (IF l.n THEN <<<<"n", 0>>>> ELSE <<>>)
      Name(a) == IF a[1] = "n" THEN "N" ELSE ph[a[2]]
      Self(a) ==
        CASE a[1] = "c" -> Carson(TRUE, Val(C(a[2]).r, ""), Val(C(a[2]).gmr, ""))
          [] a[1] = "s" -> Carson(TRUE, NDiv(Val(C(a[2]).nr, ""), C(a[2]).k), CnGmr(C(a[2])))
          [] a[1] = "n" -> Carson(TRUE, Val(WireOf(l, "N").r, ""), Val(WireOf(l, "N").gmr, ""))
      D(a, b) == Dist(l, Name(a), Name(b))
      Apart(a, b) ==
        IF a[1] = "c" /\ b[1] = "s" THEN IF a[2] = b[2] THEN CnR(C(b[2])) ELSE ToStrands(C(b[2]), D(a, b))
        ELSE IF a[1] = "s" /\ b[1] = "c" THEN IF a[2] = b[2] THEN CnR(C(a[2])) ELSE ToStrands(C(a[2]), D(a, b))
        ELSE D(a, b)
  IN [i \in 1..Len(w) |-> [j \in 1..Len(w) |-> IF i = j THEN Self(w[i]) ELSE Carson(TRUE, "0", Apart(w[i], w[j]))]]

\* Two insulated wires around a bare neutral.
TpxZ(l) ==
  LET w == <<"1", "2", "N">>
      dia == Val(l.dia, "inch")
      ins == Val(l.ins, "inch")
      d12 == NAdd(dia, NMul("2", ins))
      d1n == NAdd(dia, ins)
  IN [i \in 1..3 |-> [j \in 1..3 |->
       IF i = j THEN Carson(FALSE, Val(WireOf(l, w[i]).r, ""), Val(WireOf(l, w[i]).gmr, ""))
       ELSE Carson(FALSE, "0", IF i = 3 \/ j = 3 THEN d1n ELSE d12)]]

Given(s, i, j) == LET k == {k \in 1..Len(s) : s[k].i = i /\ s[k].j = j} IN IF k = {} THEN 0 ELSE CHOOSE x \in k : TRUE
DirectZ(l) ==
  LET ph == LinePhases(l) IN
  [i \in 1..Len(ph) |-> [j \in 1..Len(ph) |->
     LET k == Given(l.z, Idx(ph[i]), Idx(ph[j])) IN IF k = 0 THEN C0 ELSE CVal(l.z[k].z)]]

\* Impedance per mile of all conductors, the line's phases first.
LineZ(l) == IF Len(l.z) > 0 THEN DirectZ(l)
            ELSE CASE l.kind = "oh" -> OhZ(l) [] l.kind = "ug" -> UgZ(l) [] l.kind = "tpx" -> TpxZ(l)
Miles(l) == NDiv(Val(l.len, ""), "5280")

\* Currents through the phases for the voltages dV along them; whatever is
\* grounded at both ends has none.
Through(l, dV) ==
  LET Z == TLCEval(LineZ(l))
      b == [i \in 1..Len(Z) |-> IF i <= Len(dV) THEN CScale(NDiv("1", Miles(l)), dV[i]) ELSE C0]
  IN Solve(Z, b)

(* Charging of a whole line at the voltages v of its phases. *)
Omega == NMul("120", NPi)
OhCharge(l, v) ==
  LET w == LinePhases(l) \o Neutral(l)
      h(i) == Dist(l, w[i], "E")
      \* potential coefficients, miles per microfarad
      P == [i \in 1..Len(w) |-> [j \in 1..Len(w) |->
             <<NMul("11.17689",
                IF i = j THEN NLn(NDiv(NMul("2", h(i)), NDiv(Val(WireOf(l, w[i]).dia, "inch"), "2")))
                ELSE LET D == Dist(l, w[i], w[j]) IN
                     NLn(NDiv(NSqrt(NAdd(NMul(D, D), NMul("4", NMul(h(i), h(j))))), D))), "0">>]]
      q == Solve(P, [i \in 1..Len(w) |-> IF i <= Len(v) THEN v[i] ELSE C0])
  IN [i \in 1..Len(v) |-> CMul(<<"0", NMul(Omega, "0.000001")>>, q[i])]
\* Kersting's constant is for a relative permittivity of 2.3.
UgCharge(l, v) ==
  [i \in 1..Len(v) |->
    LET c == WireOf(l, LinePhases(l)[i])
        R == CnR(c)
        strands == NMul(NDiv("1", c.k), NLn(NDiv(NMul(c.k, NDiv(Val(c.nd, "inch"), "2")), R)))
        d == NSub(NLn(NDiv(R, NDiv(Val(c.cd, "inch"), "2"))), strands)
    IN CMul(<<"0", NDiv(NMul(NDiv("77.3619e-6", "2.3"), c.perm), d)>>, v[i])]
DirectCharge(l, v) ==
  LET ph == LinePhases(l) IN
  [i \in 1..Len(ph) |-> CSum([j \in 1..Len(ph) |->
     LET k == Given(l.c, Idx(ph[i]), Idx(ph[j])) IN
     IF k = 0 THEN C0 ELSE CMul(<<"0", NMul(Omega, NMul("1e-9", Val(l.c[k].c, "")))>>, v[j])])]
\* Per mile; half of it sits at either end.
Charge(l, v) ==
  IF Len(l.c) > 0 THEN DirectCharge(l, v)
  ELSE IF l.kind = "tpx" \/ Len(l.wires) = 0 THEN [i \in 1..Len(v) |-> C0]
  ELSE IF l.kind = "ug" THEN UgCharge(l, v)
  ELSE LET w == LinePhases(l) \o Neutral(l) IN
       IF \A i \in 1..Len(w) : HasDist(l, w[i], "E") THEN OhCharge(l, v) ELSE [i \in 1..Len(v) |-> C0]

LineI(f, l, V) ==
  LET ph == LinePhases(l)
      n == Len(ph)
      a == [i \in 1..n |-> T(f, l.f, ph[i])]
      b == [i \in 1..n |-> T(f, l.t, ph[i])]
      I == TLCEval(Through(l, [i \in 1..n |-> CSub(V[a[i]], V[b[i]])]))
      half == NDiv(Miles(l), "2")
      At(x) == IF f.cap THEN Charge(l, [i \in 1..n |-> V[x[i]]]) ELSE [i \in 1..n |-> C0]
      ca == TLCEval(At(a))
      cb == TLCEval(At(b))
  IN FlattenSeq([i \in 1..n |->
       <<<<a[i], I[i]>>, <<a[i], CScale(half, ca[i])>>, <<b[i], CNeg(I[i])>>, <<b[i], CScale(half, cb[i])>>>>])

(* ---- transformers ------------------------------------------------------------ *)
\* One winding pair between fp-fn and tp-tn ("" is ground): ratio t, admittance y
\* seen on the secondary.
Pair(V, fp, fn, tp, tn, t, y) ==
  LET At0(x) == IF x = "" THEN C0 ELSE V[x]
      s == CMul(y, CSub(CScale(NDiv("1", t), CSub(At0(fp), At0(fn))), CSub(At0(tp), At0(tn))))
      p == CScale(NDiv("1", t), s)
      all == <<<<fp, p>>, <<fn, CNeg(p)>>, <<tp, CNeg(s)>>, <<tn, s>>>>
  IN SelectSeq(all, LAMBDA d : d[1] # "")

Rating(x) == NSum([k \in 1..Len(x.s) |-> Val(x.s[k], "kVA")])
\* Nominal voltages are line to line for three phases; a delta's winding has
\* sqrt 3 times the voltage of a wye's.  The impedance is per unit of a winding.
Winding(d, v) == IF d THEN NMul(SQRT3, v) ELSE v
XfI(f, x, V) ==
  LET ph == Sorted(x.phases)
      v1 == Winding(x.dp, Val(x.vp, ""))
      v2 == Winding(x.ds, Val(x.vs, ""))
      y == CInv(CScale(NDiv(NMul(v2, v2), Rating(x)), CForm(x.z)))
      One(p) == Pair(V, T(f, x.f, p), IF x.dp THEN T(f, x.f, Rot(p)) ELSE "",
                     T(f, x.t, p), IF x.ds THEN T(f, x.t, Rot(p)) ELSE "", NDiv(v1, v2), y)
  IN FlattenSeq([k \in 1..Len(ph) |-> One(ph[k])])

\* Centre tapped: the coils have (r/2, 0.8 x), (r, 0.4 x), (r, 0.4 x) per unit of
\* their own voltages and the whole rating.  a is the voltage behind the primary
\* coil, b1 and b2 = +-a/t those behind the secondary coils.
CtI(f, x, V) ==
  LET vp == Val(x.vp, "")
      vs == Val(x.vs, "")
      t == NDiv(vp, vs)
      z == CForm(x.z)
      Y(v, kr, kx) == CInv(CScale(NDiv(NMul(v, v), Rating(x)), <<NMul(kr, z[1]), NMul(kx, z[2])>>))
      y1 == Y(vp, "0.5", "0.8")
      y2 == Y(vs, "1", "0.4")
      F == T(f, x.f, x.phases[1])
      s1 == T(f, x.t, "1")
      s2 == T(f, x.t, "2")
      k == NDiv("1", t)
      \* the ampere turns balance
      a == CDiv(CAdd(CMul(y1, V[F]), CScale(k, CMul(y2, CSub(V[s1], V[s2])))),
                CAdd(y1, CScale(NMul("2", NMul(k, k)), y2)))
      b == CScale(k, a)
  IN <<<<F, CMul(y1, CSub(V[F], a))>>, <<s1, CMul(y2, CSub(V[s1], b))>>, <<s2, CMul(y2, CAdd(V[s2], b))>>>>

(* ---- regulators, fuses -------------------------------------------------------- *)
RegRatioOf(g, p) ==
  LET tap == NMax(NNeg(NInt(g.lower)), NMin(NInt(g.raise), NInt(g.tap[p])))
      a == NMul(tap, NDiv(NMul("2", g.regulation), NInt(g.lower + g.raise)))
  IN IF g.type = "A" THEN NDiv("1", NAdd("1", a)) ELSE NSub("1", a)
RegI(f, g, V) ==
  FlattenSeq([k \in 1..3 |-> LET p == <<"A", "B", "C">>[k] IN
    Pair(V, T(f, g.f, p), "", T(f, g.t, p), "", RegRatioOf(g, p), <<"10000", "0">>)])

FuseI(f, u, V) ==
  LET ph == SelectSeq(Sorted(u.phases), LAMBDA p : u.good[p]) IN
  FlattenSeq([k \in 1..Len(ph) |-> Pair(V, T(f, u.f, ph[k]), "", T(f, u.t, ph[k]), "", "1", <<"10000", "10000">>)])

(* ---- loads and capacitors ------------------------------------------------------ *)
\* On a delta connected load, phase A means between A and B.
Ends(l) == IF Len(l.c) = 2 THEN l.c ELSE IF l.delta THEN <<l.c[1], Rot(l.c[1])>> ELSE <<l.c[1], "">>
LoadI(f, l, V) ==
  LET e == Ends(l)
      a == T(f, l.node, e[1])
      b == IF e[2] = "" THEN "" ELSE T(f, l.node, e[2])
      v == CSub(V[a], IF b = "" THEN C0 ELSE V[b])
      x == CVal(l.v)
      i == IF CIsZero(x) THEN C0
           ELSE CASE l.kind = "p" -> CConj(CDiv(x, v)) [] l.kind = "z" -> CDiv(v, x) [] l.kind = "i" -> x
  IN <<<<a, i>>>> \o (IF b = "" THEN <<>> ELSE <<<<b, CNeg(i)>>>>)

CapI(f, c, V) ==
  LET s == SelectSeq(c.parts, LAMBDA x : x.on) vn == Val(c.vnom, "") IN
  [k \in 1..Len(s) |-> LET a == T(f, c.node, s[k].p) IN
     <<a, CMul(<<"0", NDiv(Val(s[k].q, ""), NMul(vn, vn))>>, V[a])>>]

(* ---- the whole file -------------------------------------------------------------- *)
Each(s, Op(_)) == FlattenSeq([k \in 1..Len(s) |-> Op(s[k])])
Draws(f, V) ==
  Each(f.lines, LAMBDA l : LineI(f, l, V))
  \o Each(SelectSeq(f.xf, LAMBDA x : ~x.ct), LAMBDA x : XfI(f, x, V))
  \o Each(SelectSeq(f.xf, LAMBDA x : x.ct), LAMBDA x : CtI(f, x, V))
  \o Each(f.regs, LAMBDA g : RegI(f, g, V))
  \o Each(f.fuses, LAMBDA u : FuseI(f, u, V))
  \o Each(f.loads, LAMBDA l : LoadI(f, l, V))
  \o Each(f.caps, LAMBDA c : CapI(f, c, V))

At(d, t) == LET s == SelectSeq(d, LAMBDA c : c[1] = t) IN CSum([k \in 1..Len(s) |-> s[k][2]])
Mag(d, t) == LET s == SelectSeq(d, LAMBDA c : c[1] = t) IN NSum([k \in 1..Len(s) |-> CAbs(s[k][2])])

Angle(p) == CASE p = "A" -> "0" [] p = "B" -> NNeg(NDiv(NMul("2", NPi), "3")) [] p = "C" -> NDiv(NMul("2", NPi), "3")
\* The voltage a swing node holds: the one given, else nominal and balanced.
SwingV(n, p) ==
  LET k == {k \in 1..Len(n.volts) : n.volts[k].p = p} IN
  IF k = {} THEN CPolar(Val(n.vnom, ""), Angle(p)) ELSE CVal(n.volts[CHOOSE x \in k : TRUE].v)
Conditions(f, V) ==
  Each(SelectSeq(f.nodes, LAMBDA n : n.swing), LAMBDA n :
         FlattenSeq([k \in 1..Len(n.phases) |-> CSub(V[T(f, n.name, n.phases[k])], SwingV(n, n.phases[k]))]))
  \o Each(f.switches, LAMBDA s :
         LET ph == SelectSeq(Sorted(s.phases), LAMBDA p : s.closed[p]) IN
         FlattenSeq([k \in 1..Len(ph) |-> CSub(V[T(f, s.f, ph[k])], V[T(f, s.t, ph[k])])]))
=============================================================================
