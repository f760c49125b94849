------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* A sparse matrix under construction: entries are added one by one; clear  *)
(* forgets all but the first k entries.  What is read from it is the sum of *)
(* the entries currently held per position, whatever was held before.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT IsZero(_)
VARIABLE held        \* <<row, col, value>> in order of insertion
BInit == held = <<>>
Stamp(r, c, v) == held' = IF IsZero(v) THEN held ELSE Append(held, <<r, c, v>>)
Clear(k) == k <= Len(held) /\ held' = SubSeq(held, 1, k)
Usage == Len(held)
InRow(r) == SelectSeq(held, LAMBDA e : e[1] = r)
InCol(c) == SelectSeq(held, LAMBDA e : e[2] = c)
At(r, c) == SelectSeq(held, LAMBDA e : e[1] = r /\ e[2] = c)
=============================================================================
