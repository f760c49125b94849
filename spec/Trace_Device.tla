---------------------------- MODULE Trace_Device ----------------------------
(* Histories of one real fuse or tap changer.                                 *)
EXTENDS Devices, Num, TLC, TLCExt, IOUtils, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, l, dev
Ev == Cases[t].events[l]
NGreater(a, b) == NLt(b, a)
Mag(z) == NSqrt(NAdd(NMul(z[1], z[1]), NMul(z[2], z[2])))
\* ratio of a tap changer at a position: type A regulates the source side, B the load side
Ratio(d) == LET a == NMul(d.step, NInt(d.tap)) IN IF d.rtype = "A" THEN NDiv("1", NAdd("1", a)) ELSE NSub("1", a)
Step ==
  CASE Ev.e = "fuse" -> dev' = [t |-> "fuse", limit |-> Ev.limit, blown |-> Ev.blown]
    [] Ev.e = "see" -> dev' = FuseRespond(dev, Mag(Ev.i)) /\ Ev.blown = dev'.blown /\ Ev.changed = (dev' # dev)
    [] Ev.e = "wired" -> \* a blown fuse connects nothing and cannot be used as if intact
         Ev.connects = ~dev.blown /\ (dev.blown => ~Ev.carries) /\ dev' = dev
    [] Ev.e = "reg" -> dev' = [t |-> "reg", tap |-> TapAfter(Ev.tap, 0, Ev.raise, Ev.lower), raise |-> Ev.raise, lower |-> Ev.lower,
                               step |-> Ev.step, rtype |-> Ev.rtype]
    [] Ev.e = "move" -> dev' = [dev EXCEPT !.tap = TapAfter(dev.tap, Ev.inc, dev.raise, dev.lower)] /\ Ev.changed = (dev'.tap # dev.tap)
    [] Ev.e = "at" -> Ev.tap = dev.tap /\ NClose(Ev.ratio, Ratio(dev), "0", "1e-12") /\ NClose(Ev.used, Ratio(dev), "0", "1e-9") /\ dev' = dev
    [] OTHER -> FALSE
Init == dev = [t |-> "none"] /\ t \in 1..Len(Cases) /\ l = 1
Next == l <= Len(Cases[t].events) /\ l' = l + 1 /\ t' = t /\ Step
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Verdict == \A i \in 1..Len(Cases) :
  PrintT("TRACE|" \o Cases[i].id \o "|" \o ToString(TLCGet(i) - 1) \o "|" \o ToString(Len(Cases[i].events)))
=============================================================================
