------------------------------ MODULE MC_Graph ------------------------------
(* Every network of up to 4 nodes built element by element, closed and opened: *)
(* the partition into islands is right by an independent definition.           *)
EXTENDS Island
VARIABLES els
vars == <<els>>
N == 4
C == [name |-> <<"a", "b", "c", "d", "v">>, virt |-> <<FALSE, FALSE, FALSE, FALSE, TRUE>>, els |-> els]
Kinds == {"switch", "xfmr", "load", "ct"}
El(k, f, to, cl) ==
  CASE k = "switch" -> [t |-> k, f |-> f, to |-> to, closed |-> cl]
    [] k = "xfmr" -> [t |-> k, fp |-> f, fn |-> 0, tp |-> to, tn |-> 0]
    [] k = "load" -> [t |-> k, f |-> f, to |-> to]
    [] k = "ct" -> [t |-> k, f |-> f, to1 |-> to, to2 |-> to, mid |-> 5, s1 |-> 5, s2 |-> 5]
Init == els = <<>>
Next == \/ /\ Len(els) < 3
           /\ \E k \in Kinds, f \in 1..N, to \in 0..N, cl \in BOOLEAN :
                /\ (f < to \/ to = 0)
                /\ els' = Append(els, El(k, f, to, cl))
        \/ \E i \in 1..Len(els) : els[i].t = "switch" /\ els' = [els EXCEPT ![i].closed = ~@]
Spec == Init /\ [][Next]_vars
\* Islands partition the nodes, no element crosses islands, and each island is connected.
Partition == /\ UNION Islands(C) = Names(C)
             /\ \A a, b \in Islands(C) : a = b \/ a \cap b = {}
NoneCross == \A p \in NamePairs(C, Els(C)) : \E i \in Islands(C) : p \subseteq i
Connected == \A i \in Islands(C) : \A s \in SUBSET i :
   (s # {} /\ s # i) => \E p \in NamePairs(C, Els(C)) : p \cap s # {} /\ p \cap (i \ s) # {}
\* Regions refine islands.
Refine == \A r \in Regions(C) : \E i \in Islands(C) : r \subseteq i
\* Selecting an island leaves one island among its places, loses none of its elements and can be repeated.
SelectLeavesOne == \A n \in Names(C) :
  LET s == Select(C, n) comp == Chosen(C, n) IN
  /\ {i \in Islands(s) : i \cap comp # {}} = {comp}
  /\ \A p \in NamePairs(s, Els(s)) : p \subseteq comp
  /\ Select(s, n) = s
=============================================================================
