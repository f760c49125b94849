----------------------------- MODULE IslandCase -----------------------------
(* What the implementation left of a network when one island was selected.    *)
EXTENDS Island, Judge
VARIABLE pos
Rng(s) == {s[i] : i \in 1..Len(s)}
Clauses(c) ==
  LET comp == IF c.select THEN Chosen(c, c.node) ELSE Names(c)
      inside == Inside(c, comp)
      live == {i \in 1..Len(c.els) : Live(c.els[i])}
      kept == Rng(c.keptels)
      want == IF c.select THEN KeptBuses(c, comp) ELSE 1..Len(c.name)
      got == Rng(c.keptbuses)
  IN IF c.exc # "" THEN <<<<"an island can be selected", FALSE, c.exc>>>> ELSE
     << <<"exactly the places of the island are kept", {b \in got : ~c.virt[b]} = {b \in want : ~c.virt[b]}, ToString(comp)>>,
        <<"exactly the internal buses of kept elements are kept",
            LET inert == UNION {{b \in Terms(c.els[i]) : c.virt[b]} : i \in inside \ live} IN
            {b \in got : c.virt[b]} \ inert = {b \in want : c.virt[b]} \ inert, ToString(got) \o " not " \o ToString(want)>>,
        <<"nothing is kept twice", Len(c.keptels) = Cardinality(kept) /\ Len(c.keptbuses) = Cardinality(got), "">>,
        <<"every element of the island is kept", (inside \cap live) \subseteq kept, ToString((inside \cap live) \ kept)>>,
        <<"no live element from outside is kept", (kept \cap live) \subseteq inside, ToString((kept \cap live) \ inside)>>,
        <<"nothing foreign appears", c.foreign = 0, ToString(c.foreign)>> >>
Init == pos = 1
Next ==
  \/ pos <= Len(Cases) /\ Report(Cases[pos].id, Clauses(Cases[pos])) /\ pos' = pos + 1
  \/ pos = Len(Cases) + 1 /\ Done(Len(Cases)) /\ pos' = pos + 1
=============================================================================
