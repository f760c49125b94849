------------------------------- MODULE Judge -------------------------------
(* Reporting of verdicts on recorded cases: one line per failed clause.     *)
EXTENDS Naturals, Sequences, TLC, TLCExt, IOUtils, Json

Cases == JsonDeserialize(IOEnv.CASES)

\* A clause is <<name, holds, detail>>; printed when it does not hold.
Report(id, clauses) ==
  \A k \in 1..Len(clauses) :
    IF clauses[k][2] THEN TRUE ELSE PrintT("FAIL|" \o id \o "|" \o clauses[k][1] \o "|" \o clauses[k][3])

Count(key, n) == PrintT("COV|" \o key \o "|" \o ToString(n))
Done(n) == PrintT("DONE|" \o ToString(n))
=============================================================================
