------------------------------- MODULE MC_Raw -------------------------------
(* Sanity of the meaning given to RAW records: the same equipment written in  *)
(* other units, or on another base, is the same equipment; a lossless         *)
(* transformer passes power; a star with a winding open is a pair.            *)
EXTENDS Raw
VARIABLES t1, t2, ang, kv, nom, z, st, k
vars == <<t1, t2, ang, kv, nom, z, st, k>>
Init ==
  /\ t1 \in {"1", "0.95", "1.08"} /\ t2 \in {"1", "1.04"} /\ ang \in {"0", "30", "-12.5"}
  /\ kv \in {<<"138", "13.8">>, <<"69", "345">>} /\ nom \in {"1", "1.1"}
  /\ z \in {<<"0.01", "0.12">>, <<"0", "0.05">>} /\ st \in 0..4 /\ k \in {"0.5", "7"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Bus(i, v) == [i |-> i, kv |-> v, ide |-> 1, vm |-> "1", va |-> "0", gl |-> "0", bl |-> "0"]
File(sb) == [sbase |-> sb, buses |-> <<Bus(1, kv[1]), Bus(2, kv[2]), Bus(3, "13.8")>>, loads |-> <<>>, fsh |-> <<>>, gens |-> <<>>, brs |-> <<>>, x2 |-> <<>>, x3 |-> <<>>, ss |-> <<>>]
V == <<<<"1.02", "0.1">>, <<"0.97", "-0.2">>, <<"0.9", "0.3">>>>
X2(cw, cz, w1, w2, r, x, sb) == [i |-> 1, j |-> 2, st |-> 1, cw |-> cw, cz |-> cz, r |-> r, x |-> x, sb |-> sb, ang |-> ang, w1 |-> w1, w2 |-> w2,
                                 n1 |-> NMul(nom, kv[1]), n2 |-> NMul(nom, kv[2])]
Base == X2I(File("100"), X2(1, 1, t1, t2, z[1], z[2], "100"), V)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ CClose(a[i][2], b[i][2], "1e-30", "1e-30")

UnitsOfTurns ==
  /\ Same(Base, X2I(File("100"), X2(2, 1, NMul(t1, kv[1]), NMul(t2, kv[2]), z[1], z[2], "100"), V))
  /\ Same(Base, X2I(File("100"), X2(3, 1, NDiv(t1, nom), NDiv(t2, nom), z[1], z[2], "100"), V))
UnitsOfImpedance ==
  /\ Same(Base, X2I(File("100"), X2(1, 2, t1, t2, NMul(k, z[1]), NMul(k, z[2]), NMul(k, "100")), V))
  /\ Same(Base, X2I(File("100"), X2(1, 3, t1, t2, NMul(NMul(k, z[1]), NMul("1000000", NMul(k, "100"))), NMul(k, CAbs(z)), NMul(k, "100")), V))
\* What enters at one side leaves at the other, less the loss in the resistance.
PowerPasses == NIsZero(z[1]) =>
  LET s(i) == CMul(V[i], CConj(Base[i][2])) IN NLe(NAbs(NAdd(s(1)[1], s(2)[1])), "1e-30")

X3(s) == [bus |-> <<1, 2, 3>>, st |-> s, cw |-> 1, cz |-> 1, r |-> <<z[1], z[1], z[1]>>, x |-> <<z[2], z[2], z[2]>>, sb |-> <<"100", "100", "100">>,
          w |-> <<t1, t2, "1">>, n |-> <<"0", "0", "0">>, ang |-> <<"0", "0", "0">>]
\* With winding 3 open, windings 1 and 2 form a transformer of their pair's impedance.
OpenWinding == st = 3 =>
  LET a == X3I(File("100"), X3(3), V)
      y == CInv(z)
      s == CMul(y, CSub(CScale(NDiv("1", t1), V[1]), CScale(NDiv("1", t2), V[2])))
  IN Same(a, <<<<1, CScale(NDiv("1", t1), s)>>, <<2, CNeg(CScale(NDiv("1", t2), s))>>>>)
Windings == Cardinality({X3I(File("100"), X3(st), V)[i][1] : i \in DOMAIN X3I(File("100"), X3(st), V)}) = (IF st \in {0, 1} THEN 3 ELSE 2)
=============================================================================
