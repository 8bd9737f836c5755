------------------------------- MODULE Catalog -------------------------------
(* Catalogs of simulated subhalos.                                               *)
(*                                                                                *)
(* A file of the Galacticus model holds outputs; an output holds merger trees one *)
(* after the other; a tree holds nodes: one host and its subhalos.  Reading a     *)
(* file, choosing nodes, and projecting them on a plane are described here on     *)
(* integers: places in kpc relative to the host, radii in half kpc (odd, so that  *)
(* nothing lies on a border), masses as ranks.                                    *)
EXTENDS Integers, Sequences, FiniteSets

\* -- files ---------------------------------------------------------------------
\* trees: a sequence of [index, size]; nodes are numbered from 0
RECURSIVE Start(_, _)
Start(trees, k) == IF k = 1 THEN 0 ELSE Start(trees, k - 1) + trees[k-1].size
Total(trees) == Start(trees, Len(trees) + 1)
TreeOf(trees, i) == CHOOSE k \in DOMAIN trees : Start(trees, k) <= i /\ i < Start(trees, k + 1)
IsNode(trees, i) == i >= 0 /\ i < Total(trees)

\* the output that is read: the one asked for (-1: the last one)
Latest(ns) == CHOOSE n \in ns : \A m \in ns : m <= n
Which(ns, asked) == IF asked = -1 THEN Latest(ns) ELSE asked
\* data sets: a set of [name, pernode]; everything when nothing is asked for by name
Own == {"custom_treeIndex", "custom_treeOutputOrder", "id"}
KeysRead(sets, all, names, nodesonly) ==
    {d.name : d \in {e \in sets : (all \/ e.name \in names) /\ (e.pernode \/ ~nodesonly)}} \cup Own

\* -- places -----------------------------------------------------------------------
\* an angle is a Pythagorean triple: cosine c/k, sine s/k
Normal(th, ph) == [x |-> th.s * ph.c, y |-> th.s * ph.s, z |-> th.c * ph.k, k |-> th.k * ph.k]
Dot(a, b) == (a.x * b.x) + (a.y * b.y) + (a.z * b.z)
R2(a) == Dot(a, a)
\* k^2 times the product of two places in the plane that the normal n stands on
InPlane(n, a, b) == ((n.k * n.k) * Dot(a, b)) - (Dot(n, a) * Dot(n, b))

\* -- choosing ----------------------------------------------------------------------
\* nodes: a sequence; node i is nodes[i + 1]
HostOf(trees, nodes, i) ==
    LET k == TreeOf(trees, i)
    IN CHOOSE j \in Start(trees, k)..(Start(trees, k + 1) - 1) : nodes[j+1].iso
IsSub(nodes, i) == ~nodes[i+1].iso
InTree(trees, i, t) == trees[TreeOf(trees, i)].index = t
Virialized(trees, nodes, i) == LET h == HostOf(trees, nodes, i) IN 4 * R2(nodes[i+1]) < nodes[h+1].rv * nodes[h+1].rv
Mass(node, bound) == IF bound THEN node.mb ELSE node.mi
\* ranks are even, limits odd
InRange(node, q) == LET m == Mass(node, q.bound) IN m > q.lo /\ m < q.hi
InAperture(node, q) == LET n == Normal(q.th, q.ph) IN 4 * InPlane(n, node, node) < (q.r2 * q.r2) * (n.k * n.k)
Qualifies(trees, nodes, i, q) ==
    CASE q.filter = "mine" -> nodes[i+1].mb > q.lo       \* a filter of the user replaces all others
      [] OTHER -> /\ IsSub(nodes, i) /\ InTree(trees, i, q.tree) /\ Virialized(trees, nodes, i)
                  /\ InRange(nodes[i+1], q) /\ InAperture(nodes[i+1], q)
Chosen(trees, nodes, q) == {i \in 0..(Total(trees) - 1) : Qualifies(trees, nodes, i, q)}

\* -- what may be met ------------------------------------------------------------------
Angles == {[c |-> 1, s |-> 0, k |-> 1], [c |-> 0, s |-> 1, k |-> 1], [c |-> 3, s |-> 4, k |-> 5], [c |-> -4, s |-> 3, k |-> 5], [c |-> 5, s |-> 12, k |-> 13]}
Turns == {[c |-> 1, s |-> 0, k |-> 1], [c |-> 0, s |-> -1, k |-> 1], [c |-> 3, s |-> 4, k |-> 5], [c |-> -4, s |-> -3, k |-> 5], [c |-> 4, s |-> -3, k |-> 5]}
Places == {-91, -40, -13, 0, 7, 31, 80}
Ranks == {2, 4, 6, 8}
Limits == {1, 3, 5, 7, 9}
Indices == {1, 2, 3, 7, 11}
==============================================================================
