------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Result files.  Writing a result under a name creates (or replaces          *)
(* entirely) two files that state exactly that result: every reported bus's   *)
(* number, name, phase, voltage magnitude (3 decimals) and angle in degrees   *)
(* (3 decimals); every source's and load's power (2 decimals).  A failed       *)
(* result leaves two files that say FAILURE and nothing else.  Writing under   *)
(* no name writes nothing.  Other files are untouched.                        *)
(*                                                                            *)
(* A result is [ok, marked, bus, srcs, loads]; numbers are exact.              *)
(***************************************************************************)
EXTENDS Cplx, FiniteSets
VARIABLE store   \* name -> last result written under it
RInit == store = [n \in {} |-> 0]
RWrite(name, r) ==
  store' = IF name = "" THEN store
           ELSE [n \in (DOMAIN store) \cup {name} |-> IF n = name THEN r ELSE store[n]]

\* ---- what the two files of a result say (files as sequences of lines, lines as sequences of fields) ----
Half(d) == IF d = 3 THEN "0.0005" ELSE "0.005"
\* text is value rounded to d decimals (text arrives as <<number, number of decimals>>)
Rounded(text, value, d) ==
  /\ text[2] = d
  /\ NLe(NAbs(NSub(text[1], value)), NAdd(Half(d), NMul("1e-9", NAdd("1", NAbs(value)))))
\* an angle is known modulo a turn
RoundedAngle(text, v) ==
  /\ text[2] = 3
  /\ IF NLt(CAbs(v), "1e-8") THEN NIsZero(text[1])
     ELSE /\ NLe(NAbs(text[1]), "180.0005")
          /\ LET deg == NDiv(NMul(NAtan2(v[2], v[1]), "180"), NPi)
                 d == NAbs(NSub(text[1], deg))
             IN NLe(d, "0.00050001") \/ NLe(NAbs(NSub(d, "360")), "0.00050001")
SrcPower(s) == IF s.kind = "PV" THEN <<s.p, s.q>> ELSE CMul(s.v, CConj(s.i))
VoltageFile(f, r) ==
  IF ~r.ok THEN f = <<<<"FAILURE">>>>
  ELSE /\ Len(f) = 1 + Len(r.bus) + (IF r.marked THEN 1 ELSE 0)
       /\ f[1] = <<"bus", "name", "v_magnitude", "v_ang_degrees">>
       /\ \A i \in 1..Len(r.bus) :
            LET l == f[i + 1] b == r.bus[i] IN
            /\ Len(l) = 4 /\ l[1] = b.id /\ l[2] = b.label
            /\ Rounded(l[3], CAbs(b.v), 3) /\ RoundedAngle(l[4], b.v)
       /\ r.marked => f[Len(f)] = <<"VIOLATED EQUIPMENT RATINGS">>
PowerLine(l, who, kind, s) == Len(l) = 4 /\ l[1] = who /\ l[2] = kind /\ Rounded(l[3], s[1], 2) /\ Rounded(l[4], s[2], 2)
PowerFile(f, r) ==
  IF ~r.ok THEN f = <<<<"FAILURE">>>>
  ELSE LET ns == Len(r.srcs) nl == Len(r.loads) IN
       /\ Len(f) = 1 + ns + nl + (IF r.marked THEN 1 ELSE 0)
       /\ f[1] = <<"bus", "name", "P(MW)", "Q(MVar)">>
       /\ \A i \in 1..ns : PowerLine(f[i + 1], r.srcs[i].bus, r.srcs[i].kind, SrcPower(r.srcs[i]))
       /\ \A i \in 1..nl : PowerLine(f[i + 1 + ns], r.loads[i].bus, "PQ", <<r.loads[i].p, r.loads[i].q>>)
       /\ r.marked => f[Len(f)] = <<"VIOLATED EQUIPMENT RATINGS">>
=============================================================================
