------------------------------- MODULE Island -------------------------------
(* Selecting one island of a network: the places reached from the chosen node, *)
(* the elements all of whose places are among them, and nothing else.          *)
EXTENDS Graph
Terms(e) ==
  (CASE e.t \in {"uline"} -> {e.fs[i] : i \in 1..Len(e.fs)} \cup {e.ts[i] : i \in 1..Len(e.ts)}
     [] e.t = "xfmr" -> {e.fp, e.fn, e.tp, e.tn}
     [] e.t = "ct" -> {e.f, e.mid, e.s1, e.s2, e.to1, e.to2}
     [] e.t \in {"reg", "fuse"} -> {e.f, e.mid, e.to}
     [] e.t \in {"slack", "gen", "shunt"} -> {e.f}
     [] OTHER -> {e.f, e.to}) \ {0}
Places(c, e) == {c.name[b] : b \in {i \in Terms(e) : ~c.virt[i]}}
\* An element that can carry current at all.
Live(e) == CASE e.t = "switch" -> e.closed [] e.t = "fuse" -> ~e.blown [] OTHER -> TRUE
Chosen(c, node) == Component(node, NamePairs(c, Els(c)), Names(c))
Inside(c, comp) == {i \in 1..Len(c.els) : Places(c, c.els[i]) \subseteq comp}
\* Buses kept: those at a kept place, and the internal ones of the kept live elements.
KeptBuses(c, comp) ==
  {b \in 1..Len(c.name) : ~c.virt[b] /\ c.name[b] \in comp}
  \cup UNION {{b \in Terms(c.els[i]) : c.virt[b]} : i \in {j \in Inside(c, comp) : Live(c.els[j])}}
Select(c, node) ==
  LET comp == Chosen(c, node) IN [c EXCEPT !.els = SelectSeq(c.els, LAMBDA e : Places(c, e) \subseteq comp)]
=============================================================================
