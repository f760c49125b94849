----------------------------- MODULE Trace_Dump -----------------------------
(* Solves of the implementation with scripted systems, and the directory and  *)
(* the lines they left, against Dump.  A written matrix or vector holds a      *)
(* number per place, to five significant digits; places left out are zero.     *)
EXTENDS Dump, Num, TLCExt, IOUtils, Json, FiniteSets
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<dvars, t, l>>
Ev == Cases[t].events[l]

Rng(s) == {s[k] : k \in 1..Len(s)}
\* To the five digits written; what stays after a cancellation is zero.
Same(a, b) == NLe(NAbs(NSub(a, b)), NAdd("1e-12", NMul("5.01e-5", NAbs(b))))
\* A file's entries <<place..., number>> against the stamped ones, which add up.
At(es, p) == NSum(LET s == SelectSeq(es, LAMBDA e : SubSeq(e, 1, Len(e) - 1) = p) IN [k \in 1..Len(s) |-> s[k][Len(s[k])]])
Places(es) == {SubSeq(es[k], 1, Len(es[k]) - 1) : k \in 1..Len(es)}
Entries(got, want) ==
  /\ Cardinality(Places(got)) = Len(got)
  /\ \A p \in Places(got) \cup Places(want) : Same(At(got, p), At(want, p))
Vector(v) == [i \in 1..Len(v) |-> <<i - 1, v[i]>>]
Named(tab, at) == IF \E e \in Rng(tab) : e[1] = at THEN (CHOOSE e \in Rng(tab) : e[1] = at)[2] ELSE "other"

Step ==
  CASE Ev.e = "start" -> Start(Ev.table, Ev.on)
    [] Ev.e = "iterate" -> Iterate(Ev.Y, Ev.J, Ev.r, Named(table, Ev.at))
    [] Ev.e = "return" -> Return(Ev.v)
    [] Ev.e = "line" -> \* a line printed while solving
         /\ Ev.k < Len(lines) /\ lines[Ev.k + 1][1] = Ev.it /\ NClose(lines[Ev.k + 1][2], Ev.r, "0", "1e-4") /\ lines[Ev.k + 1][3] = Ev.place
         /\ UNCHANGED dvars
    [] Ev.e = "lines" -> Ev.n = Len(lines) /\ UNCHANGED dvars
    [] Ev.e = "listing" -> \* the files there are; none is written when dumping is off
         /\ DOMAIN files \subseteq Rng(Ev.names)
         /\ on \/ Ev.untouched
         /\ UNCHANGED dvars
    [] Ev.e = "file" ->
         /\ UNCHANGED dvars
         /\ LET n == Ev.name IN
            IF n \notin DOMAIN files THEN FALSE
            ELSE IF n = "lookup" THEN Rng(Ev.content) = Rng(files[n]) /\ Len(Ev.content) = Len(files[n])
            ELSE IF n = "v" THEN Entries(Ev.content, Vector(files[n]))
            ELSE Entries(Ev.content, files[n])
    [] OTHER -> FALSE

Init == DInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
