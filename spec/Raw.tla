-------------------------------- MODULE Raw --------------------------------
(***************************************************************************)
(* What the records of a PSS/E RAW file mean: the current every bus sees at *)
(* given bus voltages, the conditions its regulated buses must meet, and    *)
(* the start of the iteration.  Powers are MW/Mvar on the file's system     *)
(* base, impedances per unit.  A file is a record                           *)
(*   sbase, buses, loads, fsh, gens, brs, x2, x3, ss                        *)
(* of sequences of records with the fields of the RAW documentation.        *)
(* Elements out of service or at an isolated bus (type 4) do not exist.     *)
(***************************************************************************)
EXTENDS Cplx, SequencesExt, FiniteSets

Imp(r, x) == CInv(<<r, x>>)
Rad(deg) == NDiv(NMul(deg, NPi), "180")

BusOf(f, i) == LET k == CHOOSE k \in 1..Len(f.buses) : f.buses[k].i = i IN f.buses[k]
Live(f, i) == BusOf(f, i).ide # 4
Sel(s, T(_)) == SelectSeq(s, T)

(* ---- currents at voltages V : bus number -> complex ---------------------- *)
Shunt(f, i, g, b, V) == <<<<i, CMul(CScale(NDiv("1", f.sbase), <<g, b>>), V[i])>>>>
Const(f, i, p, q, V) == <<<<i, CConj(CDiv(CScale(NDiv("1", f.sbase), <<p, q>>), V[i]))>>>>

\* Constant-current part: power proportional to the voltage's magnitude.  With
\* rigid, the phasor the load would draw at angle zero, whatever the angle.
ConstI(f, l, V, rigid) ==
  IF NIsZero(l.ip) /\ NIsZero(l.iq) THEN <<>>
  ELSE IF rigid THEN <<<<l.i, CConj(CScale(NDiv("1", f.sbase), <<l.ip, l.iq>>))>>>>
  ELSE <<<<l.i, CConj(CDiv(CScale(NDiv(CAbs(V[l.i]), f.sbase), <<l.ip, l.iq>>), V[l.i]))>>>>

LoadI(f, l, V, rigid) == Const(f, l.i, l.pl, l.ql, V) \o ConstI(f, l, V, rigid) \o Shunt(f, l.i, l.yp, l.yq, V)

BranchI(f, b, V) ==
  LET y == Imp(b.r, b.x)
      half == <<"0", NDiv(b.b, "2")>>
      s == CMul(y, CSub(V[b.i], V[b.j]))
  IN <<<<b.i, CSum(<<s, CMul(half, V[b.i]), CMul(<<b.gi, b.bi>>, V[b.i])>>)>>,
       <<b.j, CSum(<<CNeg(s), CMul(half, V[b.j]), CMul(<<b.gj, b.bj>>, V[b.j])>>)>>>>

\* A winding's turns in per unit of its bus's base voltage.
Turns(f, cw, i, w, nomv) ==
  LET kv == BusOf(f, i).kv IN
  IF cw = 1 THEN w
  ELSE IF cw = 2 THEN NDiv(w, kv)
  ELSE IF NIsZero(nomv) THEN w ELSE NDiv(NMul(w, nomv), kv)

\* Impedance of a winding pair on the system base.
PairZ(f, cz, r, x, sb) ==
  IF cz = 1 THEN <<r, x>>
  ELSE IF cz = 2 THEN CScale(NDiv(f.sbase, sb), <<r, x>>)
  ELSE LET rp == NDiv(r, NMul("1000000", sb)) IN
       CScale(NDiv(f.sbase, sb), <<rp, NSqrt(NSub(NMul(x, x), NMul(rp, rp)))>>)

X2I(f, e, V) ==
  LET ti == Turns(f, e.cw, e.i, e.w1, e.n1)
      tj == Turns(f, e.cw, e.j, e.w2, e.n2)
      t == CPolar(NDiv(ti, tj), Rad(e.ang))
      y == CInv(CScale(NMul(tj, tj), PairZ(f, e.cz, e.r, e.x, e.sb)))
      s == CMul(y, CSub(CDiv(V[e.i], t), V[e.j]))
  IN <<<<e.i, CDiv(s, CConj(t))>>, <<e.j, CNeg(s)>>>>

X3Legs(f, e) ==
  {k \in 1..3 : Live(f, e.bus[k]) /\ ~(e.st = 4 /\ k = 1) /\ ~(e.st = 2 /\ k = 2) /\ ~(e.st = 3 /\ k = 3)}

X3I(f, e, V) ==
  LET z == [p \in 1..3 |-> PairZ(f, e.cz, e.r[p], e.x[p], e.sb[p])]        \* 1-2, 2-3, 3-1
      half(a) == CScale("0.5", a)
      leg == <<half(CSub(CAdd(z[1], z[3]), z[2])), half(CSub(CAdd(z[1], z[2]), z[3])), half(CSub(CAdd(z[2], z[3]), z[1]))>>
      on == SetToSortSeq(X3Legs(f, e), <)
      t == [k \in 1..3 |-> CPolar(Turns(f, e.cw, e.bus[k], e.w[k], e.n[k]), Rad(e.ang[k]))]
      y == [k \in 1..3 |-> CInv(leg[k])]
      star == CDiv(CSum([q \in 1..Len(on) |-> CMul(y[on[q]], CDiv(V[e.bus[on[q]]], t[on[q]]))]),
                   CSum([q \in 1..Len(on) |-> y[on[q]]]))
  IN IF Len(on) < 2 THEN <<>>
     ELSE [q \in 1..Len(on) |-> LET k == on[q] IN
            <<e.bus[k], CDiv(CMul(y[k], CSub(CDiv(V[e.bus[k]], t[k]), star)), CConj(t[k]))>>]

(* ---- generation ---------------------------------------------------------- *)
\* Reactive power of a machine whose output is set by its power factor.
WpfQ(g) ==
  LET q == NSqrt(NSub(NMul(NDiv(g.pg, g.wpf), NDiv(g.pg, g.wpf)), NMul(g.pg, g.pg)))
      pos == NLt("0", g.pg) = NLt("0", g.wpf)
  IN IF pos THEN q ELSE NNeg(q)
QHi(g) == IF g.wmod = 3 THEN WpfQ(g) ELSE g.qt
QLo(g) == IF g.wmod = 3 THEN WpfQ(g) ELSE g.qb
Fixed(g) == g.wmod # 2 /\ NLt(NAbs(NSub(QHi(g), QLo(g))), "0.000001")

Machines(f, i) == Sel(f.gens, LAMBDA g : g.i = i /\ g.st = 1)
IsSlack(f, b) == b.ide = 3 /\ Machines(f, b.i) # <<>>
PvMachines(f, b) == IF b.ide # 2 THEN <<>> ELSE Sel(Machines(f, b.i), LAMBDA g : ~Fixed(g))
FixedMachines(f, b) == IF b.ide # 2 THEN <<>> ELSE Sel(Machines(f, b.i), Fixed)
Continuous(f, b) == Sel(f.ss, LAMBDA s : s.i = b.i /\ s.st = 1 /\ s.modsw = 2)
Regulated(f, b) == b.ide # 4 /\ (PvMachines(f, b) # <<>> \/ Continuous(f, b) # <<>>)
Setpoint(f, b) ==
  IF PvMachines(f, b) # <<>> THEN PvMachines(f, b)[1].vs
  ELSE LET s == Continuous(f, b)[1] IN NDiv(NAdd(s.hi, s.lo), "2")

\* The machines' real power, and the reactive power of those that do not regulate.
GenI(f, b, V) ==
  LET pv == PvMachines(f, b)
      fx == FixedMachines(f, b)
  IN Const(f, b.i, NNeg(NAdd(NSum([k \in 1..Len(pv) |-> pv[k].pg]), NSum([k \in 1..Len(fx) |-> fx[k].pg]))),
           NNeg(NSum([k \in 1..Len(fx) |-> QHi(fx[k])])), V)

(* Everything drawn, with the regulating machines' reactive power and the     *)
(* slack current at zero.                                                     *)
Draws(f, V, rigid) ==
  LET Each(s, Op(_)) == FlattenSeq([k \in 1..Len(s) |-> Op(s[k])]) IN
  Each(Sel(f.buses, LAMBDA b : b.ide # 4), LAMBDA b :
         Shunt(f, b.i, b.gl, b.bl, V) \o (IF Machines(f, b.i) = <<>> THEN <<>> ELSE GenI(f, b, V)))
  \o Each(Sel(f.loads, LAMBDA l : l.st = 1 /\ Live(f, l.i)), LAMBDA l : LoadI(f, l, V, rigid))
  \o Each(Sel(f.fsh, LAMBDA s : s.st = 1 /\ Live(f, s.i)), LAMBDA s : Shunt(f, s.i, s.g, s.b, V))
  \o Each(Sel(f.ss, LAMBDA s : s.st = 1 /\ Live(f, s.i) /\ s.modsw # 2), LAMBDA s : Shunt(f, s.i, "0", s.binit, V))
  \o Each(Sel(f.brs, LAMBDA b : b.st = 1 /\ Live(f, b.i) /\ Live(f, b.j)), LAMBDA b : BranchI(f, b, V))
  \o Each(Sel(f.x2, LAMBDA e : e.st = 1 /\ Live(f, e.i) /\ Live(f, e.j)), LAMBDA e : X2I(f, e, V))
  \o Each(Sel(f.x3, LAMBDA e : e.st # 0), LAMBDA e : X3I(f, e, V))

At(d, i) == LET s == Sel(d, LAMBDA c : c[1] = i) IN CSum([k \in 1..Len(s) |-> s[k][2]])
Mag(d, i) == LET s == Sel(d, LAMBDA c : c[1] = i) IN NSum([k \in 1..Len(s) |-> CAbs(s[k][2])])

(* Conditions: numbers that vanish when met. *)
Conditions(f, V) ==
  FlattenSeq([k \in 1..Len(f.buses) |->
    LET b == f.buses[k] IN
    IF IsSlack(f, b) THEN CSub(V[b.i], CPolar(Machines(f, b.i)[1].vs, Rad(b.va)))
    ELSE IF Regulated(f, b) THEN <<NSub(CAbs2(V[b.i]), NMul(Setpoint(f, b), Setpoint(f, b)))>>
    ELSE <<>>])

Start(f, b) == CPolar(b.vm, Rad(b.va))
=============================================================================
