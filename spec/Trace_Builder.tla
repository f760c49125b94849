--------------------------- MODULE Trace_Builder ---------------------------
EXTENDS Builder, Num, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
Ev == Cases[t].events[l]
Vals(s) == NSum([k \in 1..Len(s) |-> s[k][3]])
Dim == Cases[t].dim
SameSums(pairs, s, pos) ==   \* pairs <<index, value>> add up, index by index, to the entries s
  /\ Len(pairs) = Len(s)
  /\ \A k \in 1..Dim : NEq(NSum(LET q == SelectSeq(pairs, LAMBDA e : e[1] = k) IN [i \in 1..Len(q) |-> q[i][2]]),
                           Vals(SelectSeq(s, LAMBDA e : e[pos] = k)))
Step ==
  CASE Ev.e = "stamp" -> Stamp(Ev.r, Ev.c, Ev.v)
    [] Ev.e = "clear" -> Clear(Ev.k)
    [] Ev.e = "usage" -> Ev.n = Usage /\ UNCHANGED held
    [] Ev.e = "matrix" -> (\A i, j \in 1..Dim : NEq(Ev.m[i][j], Vals(At(i, j)))) /\ UNCHANGED held
    [] Ev.e = "row" -> SameSums(Ev.got, InRow(Ev.r), 2) /\ UNCHANGED held
    [] Ev.e = "col" -> SameSums(Ev.got, InCol(Ev.c), 1) /\ UNCHANGED held
    [] OTHER -> FALSE
Init == BInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
