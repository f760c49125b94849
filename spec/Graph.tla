------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What is connected to what.  Nodes are the named, non-virtual places of a   *)
(* network (all phases of a node are one node).  An element joins nodes when   *)
(* current can flow through it from one to the other; ground joins nothing,    *)
(* and a load between two nodes is not a connection.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Pair(a, b) == IF a = 0 \/ b = 0 THEN {} ELSE {{a, b}}
\* Pairs of buses joined by an element.
Joins(e) ==
  CASE e.t = "line" -> Pair(e.f, e.to)
    [] e.t = "uline" -> UNION {Pair(e.fs[i], e.ts[i]) : i \in 1..Len(e.fs)}
    [] e.t = "switch" -> IF e.closed THEN Pair(e.f, e.to) ELSE {}
    [] e.t = "fuse" -> IF e.blown THEN {} ELSE Pair(e.f, e.to)
    [] e.t = "reg" -> Pair(e.f, e.to)
    [] e.t = "xfmr" -> Pair(e.fp, e.tp) \cup Pair(e.fp, e.fn) \cup Pair(e.tp, e.tn)
    [] e.t = "ct" -> Pair(e.f, e.to1) \cup Pair(e.f, e.to2)
    [] e.t \in {"vs", "cap"} -> Pair(e.f, e.to)
    [] OTHER -> {}
\* Elements across which the nominal voltage changes.
Converts(e) == e.t \in {"xfmr", "ct", "reg"}

Names(c) == {c.name[i] : i \in {j \in 1..Len(c.name) : ~c.virt[j]}}
NamePairs(c, es) == {{c.name[b] : b \in p} : p \in UNION {Joins(e) : e \in es}}

RECURSIVE Grow(_, _, _)
Grow(s, ps, ns) ==
  LET next == s \cup UNION {p \cap ns : p \in {q \in ps : q \cap s # {}}} IN
  IF next = s THEN s ELSE Grow(next, ps, ns)
Component(n, ps, ns) == Grow({n}, ps, ns)
Components(ps, ns) == {Component(n, ps, ns) : n \in ns}

Els(c) == {c.els[i] : i \in 1..Len(c.els)}
Islands(c) == Components(NamePairs(c, Els(c)), Names(c))
Regions(c) == Components(NamePairs(c, {e \in Els(c) : ~Converts(e)}), Names(c))
=============================================================================
