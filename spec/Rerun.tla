------------------------------- MODULE Rerun -------------------------------
(***************************************************************************)
(* One network, solved again and again while its data change.  Elements 1..N *)
(* own W[e] unknowns now (an open switch or a load of nothing owns none).     *)
(* Before a solve every element is given places for its unknowns; a solve     *)
(* reads and writes unknowns only through these places.  What the places were *)
(* before, and what other networks did, must not matter.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, MaxW
VARIABLES W,      \* widths now: a sequence over elements
          opt,    \* multipliers too: every unknown has a second place
          place,  \* element -> set of places, as last assigned
          size, fresh
rvars == <<W, opt, place, size, fresh>>
\* Places a newly built network gives to elements of widths w: consecutive, in order of the elements.
Width(w, o, e) == IF o THEN 2 * w[e] ELSE w[e]
First(w, o, e) == FoldLeft(LAMBDA a, k : a + Width(w, o, k), 0, [k \in 1..(e - 1) |-> k])
Places(w, o) == [e \in 1..Len(w) |-> First(w, o, e)..(First(w, o, e) + Width(w, o, e) - 1)]
Total(w, o) == First(w, o, Len(w) + 1)
RInit == W \in [1..N -> 0..MaxW] /\ opt = FALSE /\ place = <<>> /\ size = 0 /\ fresh = FALSE
Change(e, k) == W' = [W EXCEPT ![e] = k] /\ fresh' = FALSE /\ UNCHANGED <<opt, place, size>>
Toggle == opt' = ~opt /\ fresh' = FALSE /\ UNCHANGED <<W, place, size>>
Drop == Len(W) > 1 /\ W' = SubSeq(W, 1, Len(W) - 1) /\ fresh' = FALSE /\ UNCHANGED <<opt, place, size>>
\* The implementation counts through the elements.
Assign ==
  LET step[e \in 0..Len(W)] == IF e = 0 THEN <<0, <<>>>> ELSE
        LET s == step[e-1] IN <<s[1] + Width(W, opt, e), Append(s[2], s[1]..(s[1] + Width(W, opt, e) - 1))>>
  IN /\ place' = step[Len(W)][2] /\ size' = step[Len(W)][1] /\ fresh' = TRUE /\ UNCHANGED <<W, opt>>
Next == (\E e \in 1..Len(W), k \in 0..MaxW : Change(e, k)) \/ Toggle \/ Drop \/ Assign
Spec == RInit /\ [][Next]_rvars
\* When a solve may run (fresh): every place belongs to exactly one element, and all are as in a new network.
Partition == fresh =>
  /\ UNION {place[e] : e \in 1..Len(place)} = 0..(size - 1)
  /\ \A a, b \in 1..Len(place) : a # b => place[a] \cap place[b] = {}
AsNew == fresh => place = Places(W, opt) /\ size = Total(W, opt)
=============================================================================
