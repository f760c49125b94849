------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The cache of derived equations, shared on disk by any number of          *)
(* processes.  A process that needs the derivation of a segment looks for   *)
(* an entry, reads it if there is one, and derives the segment itself when   *)
(* there is none or it cannot be read; what it derived it tries to leave in  *)
(* the cache, piece by piece, and may be stopped between any two pieces.     *)
(* Entries may be damaged or removed, and the place be unusable, at any time.*)
(*                                                                          *)
(* What must hold: the derivation used is always that of the segment asked   *)
(* for, and asking never fails (Right, NeverStuck).                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Procs, Segs, Pieces,
          KeyOf(_)      \* name of a segment's entry

VARIABLES place,      \* "usable" "gone" "blocked"
          disk,       \* key -> [of |-> segment, has |-> pieces present], or None or Junk
          pc, want, got, wrote

cvars == <<place, disk, pc, want, got, wrote>>
Keys == {KeyOf(s) : s \in Segs}
Entry(s, ps) == [of |-> s, has |-> ps]
None == Entry("none", {})
Junk == Entry("junk", {})

CInit == /\ place \in {"usable", "gone", "blocked"} /\ disk = [k \in Keys |-> None]
         /\ pc = [p \in Procs |-> "idle"] /\ want = [p \in Procs |-> "none"]
         /\ got = [p \in Procs |-> "none"] /\ wrote = [p \in Procs |-> 0]

Ask(p, s) == /\ pc[p] = "idle" /\ want' = [want EXCEPT ![p] = s] /\ got' = [got EXCEPT ![p] = "none"]
             /\ pc' = [pc EXCEPT ![p] = "look"] /\ UNCHANGED <<place, disk, wrote>>

Whole(e) == e.has = 1..Pieces

Look(p) == /\ pc[p] = "look"
           /\ pc' = [pc EXCEPT ![p] = IF place = "usable" /\ disk[KeyOf(want[p])] # None THEN "read" ELSE "derive"]
           /\ UNCHANGED <<place, disk, want, got, wrote>>

\* Reading yields a derivation only from a whole entry; anything else is noticed.
Read(p) == /\ pc[p] = "read"
           /\ LET e == disk[KeyOf(want[p])] IN
              IF place = "usable" /\ Whole(e)
              THEN got' = [got EXCEPT ![p] = e.of] /\ pc' = [pc EXCEPT ![p] = "done"]
              ELSE pc' = [pc EXCEPT ![p] = "derive"] /\ UNCHANGED got
           /\ UNCHANGED <<place, disk, want, wrote>>

Derive(p) == /\ pc[p] = "derive" /\ got' = [got EXCEPT ![p] = want[p]] /\ pc' = [pc EXCEPT ![p] = "store"]
             /\ wrote' = [wrote EXCEPT ![p] = 0] /\ UNCHANGED <<place, disk, want>>

\* Storing: opening empties the entry, then piece after piece, each where it belongs, whatever another
\* writer of the entry does meanwhile; a place that cannot be used is put up with.
Store(p) == /\ pc[p] = "store"
            /\ IF place # "usable" THEN pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<disk, wrote>>
               ELSE /\ disk' = [disk EXCEPT ![KeyOf(want[p])] =
                         IF wrote[p] = 0 THEN Entry(want[p], {}) ELSE Entry(want[p], @.has \cup {wrote[p]})]
                    /\ wrote' = [wrote EXCEPT ![p] = @ + 1]
                    /\ pc' = [pc EXCEPT ![p] = IF wrote[p] = Pieces THEN "done" ELSE "store"]
            /\ UNCHANGED <<place, want, got>>

Use(p) == pc[p] = "done" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<place, disk, want, got, wrote>>

\* The process is stopped and another takes its number.
Crash(p) == /\ pc[p] # "idle" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ got' = [got EXCEPT ![p] = "none"]
            /\ want' = [want EXCEPT ![p] = "none"] /\ wrote' = [wrote EXCEPT ![p] = 0] /\ UNCHANGED <<place, disk>>

Environment == /\ \/ \E k \in Keys : disk' = [disk EXCEPT ![k] = None] /\ UNCHANGED place
                  \/ \E k \in Keys : disk' = [disk EXCEPT ![k] = Junk] /\ UNCHANGED place
                  \/ \E pl \in {"usable", "gone", "blocked"} : place' = pl /\ disk' = [k \in Keys |-> None]
               /\ UNCHANGED <<pc, want, got, wrote>>

CNext == \/ \E p \in Procs : (\E s \in Segs : Ask(p, s)) \/ Look(p) \/ Read(p) \/ Derive(p) \/ Store(p) \/ Use(p) \/ Crash(p)
         \/ Environment
CSpec == CInit /\ [][CNext]_cvars

\* Distinct segments have distinct entries.
KeysApart == \A s, t \in Segs : KeyOf(s) = KeyOf(t) => s = t
Right == \A p \in Procs : pc[p] \in {"store", "done"} => got[p] = want[p]
NeverStuck == \A p \in Procs : pc[p] # "idle" => ENABLED (Look(p) \/ Read(p) \/ Derive(p) \/ Store(p) \/ Use(p))
=============================================================================
