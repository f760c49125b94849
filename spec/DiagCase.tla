------------------------------ MODULE DiagCase ------------------------------
(***************************************************************************)
(* What is told about real networks.  A case holds the network (buses with    *)
(* their names, phases and places in the vector, sources, transformers, loads) *)
(* and, of a power flow with dumping on, the lookup table and the last system  *)
(* written, the point returned, the progress lines, the residual details, the   *)
(* overview printed, and the outcome of the same power flow without dumping.    *)
(***************************************************************************)
EXTENDS Num, Judge, Sequences, Integers, FiniteSets, SequencesExt
VARIABLE pos
Rng(s) == {s[k] : k \in 1..Len(s)}
Join(S) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", SetToSeq(S))

\* Names of the places of the vector.
Pair(at, name, a, b) == {<<at[1], name \o ":" \o a>>, <<at[2], name \o ":" \o b>>}
Where(b) == b.name \o ":" \o b.phase
BusNames(c) == UNION {Pair(c.buses[k].at, "bus:" \o Where(c.buses[k]), "Vr", "Vi") : k \in 1..Len(c.buses)}
SlackNames(c) == UNION {Pair(c.slacks[k].at, "slack:" \o Where(c.buses[c.slacks[k].bus]), "Ir", "Ii") : k \in 1..Len(c.slacks)}
XfNames(c) == UNION {LET x == c.xfmrs[k]
                         w == Where(c.buses[x.bus]) IN
                     IF x.ct THEN Pair(SubSeq(x.at, 1, 2), "xfmr-ct:" \o w, "L1_Ir", "L1_Ii") \cup Pair(SubSeq(x.at, 3, 4), "xfmr-ct:" \o w, "L2_Ir", "L2_Ii")
                     ELSE Pair(SubSeq(x.at, 1, 2), "xfmr:" \o w, "Ir_pri", "Ii_pri") \cup Pair(SubSeq(x.at, 3, 4), "xfmr:" \o w, "Vr_sec", "Vi_sec")
                    : k \in 1..Len(c.xfmrs)}
Names(c) == BusNames(c) \cup SlackNames(c) \cup XfNames(c)
Show(S) == Join({ToString(e[1]) \o " " \o e[2] : e \in S})
NamesRight(c, tab) ==
  LET want == Names(c)
      got == Rng(tab)
      at == {e[1] : e \in want}
      names == {e[2] : e \in want}
      wrong == {e \in got : e \notin want /\ (e[1] \in at \/ e[2] \in names)}
  IN <<want \subseteq got /\ wrong = {} /\ Cardinality({e[1] : e \in got}) = Len(tab), "missing " \o Show(want \ got) \o "; wrong " \o Show(wrong)>>

Five == "5.01e-5"
Val(v, i) == v[i + 1]
\* The last system written, applied to the point returned: every row to the digits written.
RowOf(es, i) == SelectSeq(es, LAMBDA e : e[1] = i)
\* Linear solves leave rounding of the size of the largest unknown in every row.
Rounding(c) == NMul("1e-9", FoldLeft(LAMBDA a, e : NMax(a, NAbs(e)), "1", c.x))
RowRight(c, i, abs) ==
  LET r == RowOf(c.Y, i)
      j == SelectSeq(c.J, LAMBDA e : e[1] = i)
      rhs == NSum([k \in 1..Len(j) |-> j[k][2]])
      terms == [k \in 1..Len(r) |-> NMul(r[k][3], Val(c.x, r[k][2]))]
      scale == NAdd(NAbs(rhs), NSum([k \in 1..Len(terms) |-> NAbs(terms[k])]))
  IN NLe(NAbs(NSub(NSum(terms), rhs)), NAdd(abs, NMul(Five, scale)))
BadRows(c) == LET abs == Rounding(c) IN {i \in 0..(c.size - 1) : ~RowRight(c, i, abs)}
PointRight(c) ==
  LET got == [i \in 0..(c.size - 1) |-> LET s == SelectSeq(c.v, LAMBDA e : e[1] = i) IN IF s = <<>> THEN "0" ELSE s[1][2]]
  IN {i \in 0..(c.size - 1) : ~NLe(NAbs(NSub(got[i], Val(c.x, i))), NAdd("1e-12", NMul(Five, NAbs(Val(c.x, i)))))}

\* The residual of a place is what all components contribute there; the largest is told with its place.
Total(c, i) == LET s == SelectSeq(c.parts, LAMBDA e : e[1] = i) IN NSum([k \in 1..Len(s) |-> s[k][2]])
Largest(c) == FoldLeft(LAMBDA a, i : NMax(a, NAbs(c.res[i])), "0", [i \in 1..c.size |-> i])
ResClauses(c) ==
  << <<"residuals add up", Len(c.res) = c.size /\ \A i \in 0..(c.size - 1) : NClose(Val(c.res, i), Total(c, i), "1e-9", "1e-6"),
        Join({ToString(i) : i \in {i \in 0..(c.size - 1) : ~NClose(Val(c.res, i), Total(c, i), "1e-9", "1e-6")}})>>,
     <<"the largest residual is told", NClose(c.maxres, Largest(c), "0", "1e-9") /\ c.at \in 0..(c.size - 1) /\ NEq(NAbs(Val(c.res, c.at)), c.maxres), c.maxres \o " for " \o Largest(c)>> >>
NameAt(c, i) == LET s == {e \in Names(c) : e[1] = i} IN IF s = {} THEN "" ELSE (CHOOSE e \in s : TRUE)[2]
\* Progress lines of the last solve: they end with the accepted iteration.
LineClauses(c) ==
  LET n == Len(c.lines) IN
  << <<"a line per iteration", n = c.iters + 1 /\ \A k \in 1..n : c.lines[k][1] = k - 1, ToString(c.lines)>>,
     <<"the last line tells the residual accepted", n > 0 => NClose(c.lines[n][2], c.maxres, "0", "1e-4"), c.maxres>>,
     <<"and where it is", n > 0 => (NameAt(c, c.at) # "" => c.lines[n][3] = NameAt(c, c.at)), IF n > 0 THEN c.lines[n][3] \o " for " \o NameAt(c, c.at) ELSE "">> >>

NearAll(c) == LET abs == Rounding(c) IN Len(c.x) = Len(c.x0) /\ \A i \in 1..Len(c.x) : NClose(c.x[i], c.x0[i], abs, "1e-9")

\* The overview.
Overview(c) ==
  <<Cardinality({c.buses[k].name : k \in 1..Len(c.buses)}), Len(c.buses), c.nlines, Cardinality(Rng(c.loads)), Len(c.loads)>>
Clauses(c) ==
  << <<"overview", c.overview = Overview(c), ToString(c.overview) \o " for " \o ToString(Overview(c))>>,
     <<"dumping changes nothing", c.exc = c.exc0 /\ c.ok = c.ok0 /\ (c.exc # "" \/ ~c.ok \/ NearAll(c)), c.exc \o " for " \o c.exc0>> >>
  \o (IF c.exc # "" THEN <<>> ELSE
      << <<"places have their names", NamesRight(c, c.table)[1], NamesRight(c, c.table)[2]>>,
         <<"the point written is the one returned", ~c.final \/ PointRight(c) = {}, ToString(PointRight(c))>> >>
      \o (IF c.ok /\ c.final THEN << <<"the last system written is the one solved", BadRows(c) = {}, ToString(BadRows(c))>> >> \o LineClauses(c) ELSE <<>>)
      \o ResClauses(c))
Init == pos = 1
Next ==
  \/ /\ pos <= Len(Cases)
     /\ LET c == Cases[pos] IN
          /\ Report(c.id, Clauses(c))
          /\ Count(IF c.exc # "" THEN "raised" ELSE IF ~c.ok THEN "not solved" ELSE IF ~c.final THEN "solved, continuation allowed" ELSE "solved", 1)
          /\ Count("named places", IF c.exc # "" THEN 0 ELSE Cardinality(Names(c)))
     /\ pos' = pos + 1
  \/ /\ pos = Len(Cases) + 1
     /\ Done(Len(Cases))
     /\ pos' = pos + 1
=============================================================================
