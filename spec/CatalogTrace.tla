----------------------------- MODULE CatalogTrace -----------------------------
(* What was read from files, chosen from them and made of them, against the       *)
(* specification.                                                                 *)
EXTENDS Catalog, TraceLib

E == Trace[l]
Ns == {E.outputs[i].n : i \in DOMAIN E.outputs}
TreesOf(n) == (CHOOSE i \in DOMAIN E.outputs : E.outputs[i].n = n)
TRead ==
    LET n == Which(Ns, E.asked)
        t == E.outputs[TreesOf(n)].trees
        N == Total(t)
    IN /\ E.op = "read"
       /\ Consume([
            C22_outputs |-> RangeOf(E.listed) = Ns /\ Len(E.listed) = Cardinality(Ns) /\ E.count = Total(E.outputs[TreesOf(E.counted)].trees),
            C22_keys |-> RangeOf(E.keys) = KeysRead(RangeOf(E.sets), E.all, RangeOf(E.names), E.nodesonly),
            C22_trees |-> /\ Len(E.order) = N /\ Len(E.index) = N /\ Len(E.id) = N
                          /\ \A i \in 0..(N - 1) : LET k == TreeOf(t, i) IN E.order[i+1] = k - 1 /\ E.index[i+1] = t[k].index /\ E.id[i+1] = i,
            C22_values |-> "mark" \in RangeOf(E.keys) =>
                             /\ Len(E.mark) = N
                             /\ (n = E.main => \A i \in 1..N : E.mark[i] = 7 * (i - 1))
                             /\ (n # E.main => \A i \in 1..N : E.mark[i] >= 100)])

All == 0..(Total(E.trees) - 1)
Is(ids, P(_)) == RangeOf(ids) = {i \in All : P(i)}
TFilters ==
    /\ E.op = "filters"
    /\ LET sub(i) == IsSub(E.nodes, i)
           host(i) == ~IsSub(E.nodes, i)
           tree(i) == InTree(E.trees, i, E.q.tree)
           virial(i) == Virialized(E.trees, E.nodes, i)
           rng(i) == InRange(E.nodes[i+1], E.q)
           near(i) == InAperture(E.nodes[i+1], E.q)
           both(i) == sub(i) /\ tree(i)
       IN Consume([
            C22_subhalos |-> Is(E.subs, sub) /\ Is(E.halos, host),
            C22_tree |-> Is(E.tree, tree),
            C22_virialized |-> Is(E.virial, virial),
            C22_range |-> Is(E.range, rng),
            C22_aperture |-> Is(E.near, near),
            C22_apply |-> Is(E.kept, both) /\ E.same /\ (\A i, j \in DOMAIN E.kept : i < j => E.kept[i] < E.kept[j]),
            C22_pick |-> E.picked = E.pick])

\* places in hundredths of a kpc; the scale of the sky is known to a few parts in a thousand
Near2(a, b, i, j) == LET n == Normal(E.q.th, E.q.ph)
                         want == InPlane(n, i, j) \div (n.k * n.k)
                         got == ((a.x * b.x) + (a.y * b.y)) \div 10000
                     IN Near(got, want, 3 + (Max2(R2(i), R2(j)) \div 100))
At(h) == E.nodes[h.id + 1]
Pair(p, tol) == Near(p[1], p[2], tol)
\* four times, and per cubic kpc instead of Mpc
LnRho == 1386294 - 20723266
TMake ==
    /\ E.op = "make"
    /\ Consume([
         C25_chosen |-> /\ {h.id : h \in RangeOf(E.halos)} = Chosen(E.trees, E.nodes, E.q)
                        /\ \A i, j \in DOMAIN E.halos : i # j => E.halos[i].id # E.halos[j].id,
         C25_places |-> \A i, j \in DOMAIN E.halos : Near2(E.halos[i], E.halos[j], At(E.halos[i]), At(E.halos[j])),
         C25_unturned |-> E.identity => \A i \in DOMAIN E.halos : LET h == E.halos[i] IN
                             Near(h.x, 100 * At(h).x, 60) /\ Near(h.y, 100 * At(h).y, 60),
         C25_depth |-> \A i \in DOMAIN E.halos : LET h == E.halos[i] IN Near((h.r3d * h.r3d) \div 100, R2(At(h)), 25),
         C25_masses |-> \A i \in DOMAIN E.halos : Near(E.halos[i].lm, E.ranks[At(E.halos[i]).mi], 5),
         C25_profiles |-> \A i \in DOMAIN E.halos : LET h == E.halos[i] IN
                             /\ Near(h.lr[1], h.lr[2] + LnRho, 30) /\ Pair(h.ls, 10) /\ Pair(h.lt, 10) /\ Pair(h.lc, 20) /\ Pair(h.zi, 2),
         C25_lensed |-> \A i \in DOMAIN E.halos : LET h == E.halos[i] IN Near(h.la[1], h.ls[2], 6000) /\ Near(h.la[2], h.lt[2], 6000),
         C25_subhalos |-> \A i \in DOMAIN E.halos : E.halos[i].sub /\ E.halos[i].z = E.zl,
         C25_line_of_sight |-> E.subslos = 0 /\ (~E.los => TRUE) /\ Pair(E.zs, 1)])

Row(h, r) == /\ Near(h.lm, r.lm, 5) /\ Near(h.x, r.x, 60) /\ Near(h.y, r.y, 60)
TEmulated ==
    /\ E.op = "emulated"
    /\ Consume([
         C25_rows |-> /\ Len(E.halos) = Len(E.rows) /\ E.calls = 1
                      /\ \A k \in DOMAIN E.rows : Cardinality({i \in DOMAIN E.halos : Row(E.halos[i], E.rows[k])}) >= 1
                      /\ \A i \in DOMAIN E.halos : \E k \in DOMAIN E.rows : Row(E.halos[i], E.rows[k]),
         C25_emulated |-> \A i \in DOMAIN E.halos : LET h == E.halos[i] IN \E k \in DOMAIN E.rows : LET r == E.rows[k] IN
                             /\ Row(h, r) /\ Near(h.lc, r.lc, 20) /\ Near(h.zi, r.zi, 2) /\ Near(h.lt, r.lt, 20)
                             /\ Near(h.ls, r.ls, 4000) /\ Near(h.lr, r.lr, 6000)
                             /\ Near(h.lens[1], r.ls, 9000) /\ Near(h.lens[2], r.lt, 6000),
         C25_plane |-> (\A i \in DOMAIN E.halos : E.halos[i].sub /\ E.halos[i].z = E.zl[2]) /\ Pair(E.zl, 1) /\ Pair(E.zs, 1) /\ Pair(E.cone, 1),
         C25_joined |-> IF E.joint THEN E.nlos > 0 /\ E.subslos = 0 ELSE E.nlos = 0,
         \* the halos in front of the lens fill the angle that the subhalos were made for
         C25_angle |-> E.front > 0 => /\ 2 * E.farthest <= E.cone[2] + 10
                                      /\ E.front > 60 => 2 * E.farthest >= E.cone[2] - (E.cone[2] \div 8)])
TraceInit == LibInit
TraceNext == (l <= Len(Trace) /\ (TRead \/ TFilters \/ TMake \/ TEmulated)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, cov>>
==============================================================================
