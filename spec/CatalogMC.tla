------------------------------ MODULE CatalogMC ------------------------------
(* Reading trees one after the other gives every node its tree, and filters can  *)
(* be applied in any order, in any number of passes.                              *)
EXTENDS Catalog
CONSTANTS MaxTrees, MaxSize, Masses
VARIABLES trees, order, k, nodes, left, sel, q

Filters == {"sub", "tree", "virial", "range", "aperture"}
Pass(f, i) == CASE f = "sub" -> IsSub(nodes, i)
                [] f = "tree" -> InTree(trees, i, q.tree)
                [] f = "virial" -> Virialized(trees, nodes, i)
                [] f = "range" -> InRange(nodes[i+1], q)
                [] OTHER -> InAperture(nodes[i+1], q)
P == {[x |-> 30, y |-> 0, z |-> -40], [x |-> 0, y |-> 0, z |-> 70]} \cup (IF MaxTrees > 2 THEN {} ELSE {[x |-> 0, y |-> 0, z |-> 0]})
vars == <<trees, order, k, nodes, left, sel, q>>
Seqs(n, S) == UNION {[1..m -> S] : m \in 1..n}
NodeOf(t, i, p, m) ==
    \* the last node of a tree is its host
    LET tr == TreeOf(t, i) IN
    [iso |-> i = Start(t, tr + 1) - 1, x |-> p.x, y |-> p.y, z |-> p.z, rv |-> IF tr = 1 THEN 101 ELSE 161, mb |-> m, mi |-> 8]
Init ==
    /\ trees \in {t \in Seqs(MaxTrees, [index : IF MaxTrees > 2 THEN {3, 7, 9} ELSE {3, 7}, size : 1..MaxSize]) : \A a, b \in DOMAIN t : a # b => t[a].index # t[b].index}
    /\ k = 1 /\ order = [i \in 0..(Total(trees) - 1) |-> 0]
    /\ nodes \in {[j \in 1..Total(trees) |-> NodeOf(trees, j - 1, f[j].p, f[j].m)] : f \in [1..Total(trees) -> [p : P, m : Masses]]}
    /\ left = Filters /\ sel = 0..(Total(trees) - 1)
    /\ q \in [tree : {7}, lo : {3}, hi : {9}, bound : BOOLEAN, filter : {"none"}, r2 : {81}, th : {[c |-> 1, s |-> 0, k |-> 1], [c |-> 3, s |-> 4, k |-> 5]}, ph : {[c |-> 3, s |-> 4, k |-> 5]}]
\* the reader: one tree at a time
Read == /\ k <= Len(trees)
        /\ order' = [i \in DOMAIN order |-> IF i >= Start(trees, k) /\ i < Start(trees, k + 1) THEN k ELSE order[i]]
        /\ k' = k + 1 /\ UNCHANGED <<trees, nodes, left, sel, q>>
\* a filter, at any moment after that, in any order
Apply == /\ k > Len(trees)
         /\ \E f \in left : /\ sel' = {i \in sel : Pass(f, i)} /\ left' = left \ {f}
         /\ UNCHANGED <<trees, order, k, nodes, q>>
Next == Read \/ Apply
Spec == Init /\ [][Next]_vars

\* every node has been given to one tree, whatever the number of trees
ReaderRight == k > Len(trees) => \A i \in DOMAIN order : order[i] = TreeOf(trees, i)
\* what is left never loses a node that qualifies, and in the end is what qualifies
NeverLoses == Chosen(trees, nodes, q) \subseteq sel
Confluent == left = {} => sel = Chosen(trees, nodes, q)
\* no host is ever chosen, and what is chosen lies inside the host of its own tree
NoHosts == left = {} => \A i \in sel : ~nodes[i+1].iso /\ HostOf(trees, nodes, i) # i
\* the projection: never longer than the place itself, and nothing along the normal
Shorter == \A j \in DOMAIN nodes : LET n == Normal(q.th, q.ph) IN
              /\ InPlane(n, nodes[j], nodes[j]) >= 0
              /\ InPlane(n, nodes[j], nodes[j]) <= (n.k * n.k) * R2(nodes[j])
              /\ InPlane(n, n, n) = (n.k * n.k) * (R2(n) - (n.k * n.k)) /\ R2(n) = n.k * n.k
==============================================================================
