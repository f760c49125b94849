-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* What a Newton solve leaves behind for whoever looks into it: with dumping  *)
(* on, a directory with the lookup table of the network, the matrix and the   *)
(* right-hand side of each iteration, and the point returned; and, always, a  *)
(* line per iteration that tells the largest residual and where it is.        *)
(*                                                                            *)
(* The directory outlives the solve.  Each solve replaces the files it writes *)
(* and leaves alone the ones it does not, so that files of iterations this    *)
(* solve did not make may be an earlier solve's.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES files,     \* function: name -> content
          lines,     \* lines of this solve, <<iteration, residual, place>>
          made,      \* <<matrix, right-hand side, residual, place>> of this solve's iterations
          table,     \* lookup table of the network being solved
          result,    \* <<>> or <<point>>
          on         \* is dumping on?
dvars == <<files, lines, made, table, result, on>>

Put(f, n, c) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN c ELSE f[x]]
DInit == files = <<>> /\ lines = <<>> /\ made = <<>> /\ table = <<>> /\ result = <<>> /\ on = FALSE

Start(t, d) ==
  /\ files' = IF d THEN Put(files, "lookup", t) ELSE files
  /\ table' = t /\ on' = d /\ lines' = <<>> /\ made' = <<>> /\ result' = <<>>

\* place: the name the table gives the unknown with the largest residual, or "other"
Iterate(Y, J, r, place) ==
  LET k == ToString(Len(made) + 1) IN
  /\ result = <<>>
  /\ files' = IF on THEN Put(Put(files, "Y" \o k, Y), "J" \o k, J) ELSE files
  /\ lines' = Append(lines, <<Len(made), r, place>>)
  /\ made' = Append(made, <<Y, J, r, place>>)
  /\ UNCHANGED <<table, result, on>>

Return(v) ==
  /\ made # <<>> /\ result = <<>>
  /\ result' = <<v>>
  /\ files' = IF on THEN Put(files, "v", v) ELSE files
  /\ UNCHANGED <<lines, made, table, on>>

----------------------------------------------------------------------------
\* What is found after a solve with dumping on is that solve.
Faithful ==
  on /\ result # <<>> =>
    /\ files["lookup"] = table
    /\ files["v"] = result[1]
    /\ \A k \in 1..Len(made) : files["Y" \o ToString(k)] = made[k][1] /\ files["J" \o ToString(k)] = made[k][2]
Told == Len(lines) = Len(made) /\ \A k \in 1..Len(made) : lines[k] = <<k - 1, made[k][3], made[k][4]>>
=============================================================================
