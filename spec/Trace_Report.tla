---------------------------- MODULE Trace_Report ----------------------------
(* Recorded output: write(name, result, files afterwards), show(result, screen). *)
EXTENDS Report, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l
Ev == Cases[t].events[l]
\* The directory holds exactly the files of what was written.
Directory(fs, st) ==
  /\ {fs[i].name : i \in 1..Len(fs)} = DOMAIN st
  /\ Len(fs) = Cardinality(DOMAIN st)
  /\ \A i \in 1..Len(fs) : VoltageFile(fs[i].voltage, st[fs[i].name]) /\ PowerFile(fs[i].power, st[fs[i].name])
\* The screen: success, iterations, and (verbose) the same lines in words.
Screen(s, r, verbose) ==
  /\ s.ok = (IF r.ok THEN "True" ELSE "False") /\ s.iters = r.iters
  /\ IF ~verbose THEN s.bus = <<>> /\ s.srcs = <<>> /\ s.loads = <<>>
     ELSE /\ Len(s.bus) = Len(r.bus) /\ Len(s.srcs) = Len(r.srcs) /\ Len(s.loads) = Len(r.loads)
          /\ \A i \in 1..Len(r.bus) : LET x == s.bus[i] b == r.bus[i] IN
                x[1] = b.id /\ x[2] = b.label /\ Rounded(x[3], CAbs(b.v), 3) /\ RoundedAngle(x[4], b.v)
          /\ \A i \in 1..Len(r.srcs) : LET x == s.srcs[i] p == SrcPower(r.srcs[i]) IN
                x[1] = r.srcs[i].kind /\ x[2] = r.srcs[i].bus /\ Rounded(x[3], p[1], 2) /\ Rounded(x[4], p[2], 2)
          /\ \A i \in 1..Len(r.loads) : LET x == s.loads[i] IN
                Rounded(x[1], r.loads[i].p, 2) /\ Rounded(x[2], r.loads[i].q, 2)
Step ==
  CASE Ev.e = "write" -> RWrite(Ev.name, Ev.result) /\ Directory(Ev.files, store')
    [] Ev.e = "part" -> RWrite(Ev.name, Ev.result)     \* one hour of several written together
    [] Ev.e = "show" -> Screen(Ev.screen, Ev.result, Ev.verbose) /\ UNCHANGED store
    [] OTHER -> FALSE
Init == RInit /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
