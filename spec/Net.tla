-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* The physics of a network: what currents each component draws at its      *)
(* terminals, and what equations its own unknowns obey.  Everything the     *)
(* power flow solves is stated here, from the data a user supplies          *)
(* (impedances, set points, tap ratios), independently of how the           *)
(* implementation derives, linearises or stores it.                         *)
(*                                                                          *)
(* A network is a sequence of elements over buses 1..n; bus 0 is ground.    *)
(* Composite elements expand to primitives (Prims).  A primitive draws      *)
(* complex currents from its terminals and may own unknowns X with as many  *)
(* equations E:                                                             *)
(*   y     admittance between two buses                                     *)
(*   pq    constant complex power                                           *)
(*   ic    constant current                                                 *)
(*   ymat  coupled phases: a matrix of series admittances and charging      *)
(*   xf    ideal phase-shifting transformer with series loss on the         *)
(*         secondary: X = <<primary current, internal secondary voltage>>   *)
(*   ct    centre-tapped transformer core: X = <<I1, I2>>                   *)
(*   vs    ideal voltage source between two buses: X = <<current>>          *)
(*   slack voltage source to ground, fixing magnitude and angle             *)
(*   gen   constant real power, fixed magnitude: X = <<reactive power>>     *)
(*                                                                          *)
(* tx \in [0,1] is the homotopy factor: 0 is the network as given; at 1     *)
(* series branches carry (1+LF) times their admittance, shunts vanish and   *)
(* transformers have ratio 1 and no phase shift.                            *)
(***************************************************************************)
EXTENDS Cplx, SequencesExt, FiniteSets

Scale(kind, tx, lf) ==
  IF kind = "S" THEN NSub("1", tx) ELSE NAdd("1", NMul(lf, tx))

Imp(r, x) == CInv(<<r, x>>)

YP(f, t, y, kind) == [k |-> "y", f |-> f, t |-> t, y |-> y, s |-> kind]

\* Regulator: raise/lower taps are counts; the position is clamped into them.
RegTap(e) == LET up == NInt(e.raise) lo == NNeg(NInt(e.lower)) tp == NInt(e.tap)
             IN NMax(lo, NMin(up, tp))
RegRatio(e) == LET a == NMul(e.step, RegTap(e)) IN
  IF e.rtype = "A" THEN NDiv("1", NAdd("1", a)) ELSE NSub("1", a)

Prims(e) ==
  CASE e.t = "line" ->
        <<YP(e.f, e.to, Imp(e.r, e.x), "L"),
          YP(e.f, 0, <<"0", NDiv(e.b, "2")>>, "S"),
          YP(e.to, 0, <<"0", NDiv(e.b, "2")>>, "S")>>
    [] e.t = "shunt" -> <<YP(e.f, 0, <<e.g, e.b>>, "S")>>
    [] e.t = "cap" -> IF e.closed THEN <<YP(e.f, e.to, <<"0", NDiv(e.var, NMul(e.vnom, e.vnom))>>, "S")>> ELSE <<>>
    [] e.t = "load" ->
        (IF NIsZero(e.p) /\ NIsZero(e.q) THEN <<>> ELSE <<[k |-> "pq", f |-> e.f, t |-> e.to, s |-> <<e.p, e.q>>]>>)
        \o (IF NIsZero(e.ip) /\ NIsZero(e.iq) THEN <<>> ELSE <<[k |-> "ic", f |-> e.f, t |-> e.to, i |-> <<e.ip, e.iq>>]>>)
        \o (IF NIsZero(e.zr) /\ NIsZero(e.zx) THEN <<>> ELSE <<YP(e.f, e.to, Imp(e.zr, e.zx), "S")>>)
    [] e.t = "gen" -> <<[k |-> "gen", f |-> e.f, p |-> NNeg(e.p), v |-> e.v]>>
    [] e.t = "slack" -> <<[k |-> "slack", f |-> e.f, v |-> CPolar(e.v, e.ang)]>>
    [] e.t = "vs" -> <<[k |-> "vs", f |-> e.f, t |-> e.to, v |-> <<e.vr, e.vi>>]>>
    [] e.t = "switch" -> IF e.closed THEN <<[k |-> "vs", f |-> e.f, t |-> e.to, v |-> C0]>> ELSE <<>>
    [] e.t = "fuse" -> <<YP(e.f, e.mid, <<"10000", "10000">>, "L"),
                         [k |-> "vs", f |-> e.mid, t |-> e.to, v |-> C0]>>
    [] e.t = "xfmr" ->
        <<[k |-> "xf", fp |-> e.fp, fn |-> e.fn, tp |-> e.tp, tn |-> e.tn, y |-> Imp(e.r, e.x),
           tr |-> e.tr, ang |-> NDiv(NMul(e.ang, NPi), "180")]>>
    [] e.t = "reg" ->
        <<[k |-> "xf", fp |-> e.f, fn |-> 0, tp |-> e.mid, tn |-> 0, y |-> Imp("0.0001", "0"),
           tr |-> RegRatio(e), ang |-> "0"],
          [k |-> "vs", f |-> e.mid, t |-> e.to, v |-> C0]>>
    [] e.t = "ct" ->
        \* coil impedances are per unit on the coil's nominal voltage and the transformer's rating
        LET Z(i) == CScale(NDiv(NMul(e.vn[i], e.vn[i]), e.rating), <<e.cr[i], e.cx[i]>>)
            Y(i) == IF CIsZero(Z(i)) THEN C0 ELSE CInv(Z(i))
        IN <<YP(e.f, e.mid, Y(1), "L"), YP(e.s1, e.to1, Y(2), "L"), YP(e.s2, e.to2, Y(3), "L"),
             [k |-> "ct", f |-> e.mid, s1 |-> e.s1, s2 |-> e.s2, tr |-> e.tr]>>
    [] e.t = "uline" ->
        <<[k |-> "ymat", f |-> e.fs, t |-> e.ts, y |-> e.y, b |-> e.b]>>

AllPrims(els) == FlattenSeq([i \in 1..Len(els) |-> Prims(els[i])])

\* Number of real unknowns a primitive owns.
NX(p) == CASE p.k \in {"slack", "vs"} -> 2 [] p.k \in {"xf", "ct"} -> 4 [] p.k = "gen" -> 1 [] OTHER -> 0

TrAt(p, tx) == NAdd(p.tr, NMul(NSub("1", p.tr), tx))
AngAt(p, tx) == NMul(p.ang, NSub("1", tx))

(* Currents drawn from buses: a sequence of <<bus, current>>. V is a function *)
(* on buses with V[0] = 0, X the primitive's unknowns (numbers).              *)
Draw(p, V, X, tx, lf) ==
  CASE p.k = "y" ->
        LET i == CMul(CScale(Scale(p.s, tx, lf), p.y), CSub(V[p.f], V[p.t])) IN <<<<p.f, i>>, <<p.t, CNeg(i)>>>>
    [] p.k = "pq" ->
        LET i == CConj(CDiv(p.s, CSub(V[p.f], V[p.t]))) IN <<<<p.f, i>>, <<p.t, CNeg(i)>>>>
    [] p.k = "ic" -> <<<<p.f, p.i>>, <<p.t, CNeg(p.i)>>>>
    [] p.k = "gen" -> <<<<p.f, CConj(CDiv(<<p.p, X[1]>>, V[p.f]))>>>>
    [] p.k = "slack" -> <<<<p.f, <<X[1], X[2]>>>>>>
    [] p.k = "vs" -> <<<<p.f, <<X[1], X[2]>>>>, <<p.t, CNeg(<<X[1], X[2]>>)>>>>
    [] p.k = "xf" ->
        LET ip == <<X[1], X[2]>>
            vs == <<X[3], X[4]>>
            il == CMul(CScale(Scale("L", tx, lf), p.y), CSub(V[p.tp], vs))
            is == CMul(CPolar(TrAt(p, tx), NNeg(AngAt(p, tx))), ip)
        IN <<<<p.fp, ip>>, <<p.fn, CNeg(ip)>>, <<p.tp, il>>, <<p.tn, is>>>>
    [] p.k = "ct" ->
        LET k == NDiv("1", TrAt(p, tx))
            i1 == <<X[1], X[2]>>
            i2 == <<X[3], X[4]>>
        IN <<<<p.f, CScale(k, CSub(i2, i1))>>, <<p.s1, i1>>, <<p.s2, i2>>>>
    [] p.k = "ymat" ->
        LET n == Len(p.f)
            Ser(i) == CSum([j \in 1..n |->
                 CMul(CScale(Scale(IF i = j THEN "L" ELSE "S", tx, lf), p.y[i][j]), CSub(V[p.f[j]], V[p.t[j]]))])
            Chg(i, at) == CSum([j \in 1..n |->
                 CMul(<<"0", NMul(Scale("S", tx, lf), NDiv(p.b[i][j], "2"))>>, V[at[j]])])
        IN FlattenSeq([i \in 1..n |-> LET s == Ser(i) IN
             <<<<p.f[i], CAdd(s, Chg(i, p.f))>>, <<p.t[i], CSub(Chg(i, p.t), s)>>>>])

(* The primitive's own equations, as numbers that vanish when they hold. *)
Own(p, V, X, tx, lf) ==
  CASE p.k = "slack" -> CSub(V[p.f], p.v)
    [] p.k = "vs" -> CSub(CSub(V[p.f], V[p.t]), p.v)
    [] p.k = "gen" -> <<NSub(CAbs2(V[p.f]), NMul(p.v, p.v))>>
    [] p.k = "xf" ->
        LET vs == <<X[3], X[4]>>
            a == CSub(CSub(V[p.fp], V[p.fn]), CMul(CPolar(TrAt(p, tx), AngAt(p, tx)), CSub(vs, V[p.tn])))
            is == CMul(CPolar(TrAt(p, tx), NNeg(AngAt(p, tx))), <<X[1], X[2]>>)
            il == CMul(CScale(Scale("L", tx, lf), p.y), CSub(vs, V[p.tp]))
        IN a \o CSub(il, is)
    [] p.k = "ct" ->
        LET k == NDiv("1", TrAt(p, tx)) IN
        CSub(V[p.s1], CScale(k, V[p.f])) \o CAdd(V[p.s2], CScale(k, V[p.f]))
    [] OTHER -> <<>>

(* The whole network as a vector function of its real unknowns x:            *)
(* x = Vr1 Vi1 ... Vrn Vin followed by each primitive's unknowns, and         *)
(* F(x) = KCL at each bus (real, imaginary), then each primitive's equations. *)
Offsets(n, ps) ==
  FoldLeft(LAMBDA off, k : Append(off, off[k] + NX(ps[k])), <<2 * n>>, [k \in 1..Len(ps) |-> k])

VOf(n, x) == [b \in 0..n |-> IF b = 0 THEN C0 ELSE <<x[2*b-1], x[2*b]>>]

Drawn(n, ps, x, tx, lf) ==
  LET off == Offsets(n, ps)
      V == VOf(n, x)
  IN FlattenSeq([k \in 1..Len(ps) |-> Draw(ps[k], V, SubSeq(x, off[k]+1, off[k]+NX(ps[k])), tx, lf)])

AtBus(d, b) == CSum(LET s == SelectSeq(d, LAMBDA c : c[1] = b) IN [i \in 1..Len(s) |-> s[i][2]])

F(n, ps, x, tx, lf) ==
  LET off == Offsets(n, ps)
      V == VOf(n, x)
      d == Drawn(n, ps, x, tx, lf)
  IN FlattenSeq([b \in 1..n |-> AtBus(d, b)])
     \o FlattenSeq([k \in 1..Len(ps) |-> Own(ps[k], V, SubSeq(x, off[k]+1, off[k]+NX(ps[k])), tx, lf)])

\* Column j of the Jacobian, by central difference in 50-digit arithmetic.
Hstep == "1e-12"
DFcol(n, ps, x, tx, lf, j) ==
  LET up == F(n, ps, [x EXCEPT ![j] = NAdd(@, Hstep)], tx, lf)
      dn == F(n, ps, [x EXCEPT ![j] = NSub(@, Hstep)], tx, lf)
  IN [i \in 1..Len(up) |-> NDiv(NSub(up[i], dn[i]), "2e-12")]

(* How large the terms are that a row sums: floating point evaluation of row  *)
(* i may be off by a few units in the last place of RowMag(i).                *)
DrawMag(p, V, X, tx, lf) ==
  CASE p.k = "y" ->
        LET m == NMul(CAbs(CScale(Scale(p.s, tx, lf), p.y)), NAdd(CAbs(V[p.f]), CAbs(V[p.t])))
        IN <<<<p.f, m>>, <<p.t, m>>>>
    [] p.k = "xf" ->
        LET m == NMul(CAbs(CScale(Scale("L", tx, lf), p.y)), NAdd(CAbs(V[p.tp]), CAbs(<<X[3], X[4]>>)))
            i == CAbs(<<X[1], X[2]>>)
            j == NMul(i, TrAt(p, tx))
        IN <<<<p.fp, i>>, <<p.fn, i>>, <<p.tp, m>>, <<p.tn, j>>>>
    [] p.k = "ymat" ->
        LET n == Len(p.f)
            M(i) == NSum([j \in 1..n |->
                NMul(NAdd(CAbs(CScale(Scale("L", tx, lf), p.y[i][j])), NAbs(p.b[i][j])), NAdd(CAbs(V[p.f[j]]), CAbs(V[p.t[j]])))])
        IN FlattenSeq([i \in 1..n |-> LET m == M(i) IN <<<<p.f[i], m>>, <<p.t[i], m>>>>])
    [] OTHER -> LET d == Draw(p, V, X, tx, lf) IN [i \in 1..Len(d) |-> <<d[i][1], CAbs(d[i][2])>>]

OwnMag(p, V, X, tx, lf) ==
  CASE p.k = "slack" -> LET m == NAdd(CAbs(V[p.f]), CAbs(p.v)) IN <<m, m>>
    [] p.k = "vs" -> LET m == NSum(<<CAbs(V[p.f]), CAbs(V[p.t]), CAbs(p.v)>>) IN <<m, m>>
    [] p.k = "gen" -> <<NAdd(CAbs2(V[p.f]), NMul(p.v, p.v))>>
    [] p.k = "xf" ->
        LET a == NSum(<<CAbs(V[p.fp]), CAbs(V[p.fn]), NMul(TrAt(p, tx), NAdd(CAbs(V[p.tn]), CAbs(<<X[3], X[4]>>)))>>)
            b == NAdd(NMul(CAbs(CScale(Scale("L", tx, lf), p.y)), NAdd(CAbs(V[p.tp]), CAbs(<<X[3], X[4]>>))),
                      NMul(TrAt(p, tx), CAbs(<<X[1], X[2]>>)))
        IN <<a, a, b, b>>
    [] p.k = "ct" ->
        LET g == NMul(NDiv("1", TrAt(p, tx)), CAbs(V[p.f]))
            a == NAdd(g, CAbs(V[p.s1]))
            b == NAdd(g, CAbs(V[p.s2]))
        IN <<a, a, b, b>>
    [] OTHER -> <<>>

RowMags(n, ps, x, tx, lf) ==
  LET off == Offsets(n, ps)
      V == VOf(n, x)
      d == FlattenSeq([k \in 1..Len(ps) |-> DrawMag(ps[k], V, SubSeq(x, off[k]+1, off[k]+NX(ps[k])), tx, lf)])
      At(b) == LET s == SelectSeq(d, LAMBDA c : c[1] = b) IN NSum([i \in 1..Len(s) |-> s[i][2]])
  IN FlattenSeq([b \in 1..n |-> LET m == At(b) IN <<m, m>>])
     \o FlattenSeq([k \in 1..Len(ps) |-> OwnMag(ps[k], V, SubSeq(x, off[k]+1, off[k]+NX(ps[k])), tx, lf)])

\* Size of the whole vector of unknowns.
NUnk(n, ps) == Offsets(n, ps)[Len(ps)+1]

\* Witnesses the generator supplies must be right before they are relied on.
\* u = harness witness: z * len times y is the identity.
Witness(c) ==
  \A k \in 1..Len(c.els) :
    c.els[k].t # "uline" \/
      LET e == c.els[k] n == Len(e.fs) IN
      \A i \in 1..n : \A j \in 1..n :
        CClose(CSum([q \in 1..n |-> CMul(CScale(e.len, e.z[i][q]), e.y[q][j])]), IF i = j THEN C1 ELSE C0, "1e-9", "0")
        /\ NClose(e.b[i][j], NMul(e.len, e.bl[i][j]), "1e-12", "1e-12")
=============================================================================
