------------------------------ MODULE CatalogGen ------------------------------
(* Files and requests for the replay driver, built node by node.                  *)
EXTENDS Catalog, TLC, Json
CONSTANT MaxTrees
VARIABLES trees, nodes, at, phase, old, q
vars == <<trees, nodes, at, phase, old, q>>
\* at: the node being built in the current tree, the place of its host
Init == trees = <<>> /\ nodes = <<>> /\ at = [i |-> 0, n |-> 0, host |-> 0, p |-> [x |-> 0, y |-> 0, z |-> 0]] /\ phase = "tree" /\ q = [x |-> 0]
        /\ old \in 0..2
NewTree == /\ phase = "tree" /\ Len(trees) < MaxTrees
           /\ \E t \in Indices \ {trees[j].index : j \in DOMAIN trees}, n \in 1..7, h \in 1..7 :
                /\ h <= n
                /\ trees' = Append(trees, [index |-> t, size |-> n])
                /\ at' = [i |-> 1, n |-> n, host |-> h, p |-> at.p]
           /\ phase' = "place" /\ UNCHANGED <<nodes, old, q>>
Place == /\ phase = "place"
         /\ IF at.i = at.host THEN at' = [at EXCEPT !.p = [x |-> 0, y |-> 0, z |-> 0]]
            ELSE \E x, y, z \in Places : at' = [at EXCEPT !.p = [x |-> x, y |-> y, z |-> z]]
         /\ phase' = "mass" /\ UNCHANGED <<trees, nodes, old, q>>
MassIt == /\ phase = "mass"
          /\ \E mb, mi \in Ranks, rv \in (IF at.i = at.host THEN {81, 121, 201} ELSE {3, 25}) :
               nodes' = Append(nodes, [iso |-> at.i = at.host, x |-> at.p.x, y |-> at.p.y, z |-> at.p.z, rv |-> rv, mb |-> mb, mi |-> mi])
          /\ at' = [at EXCEPT !.i = at.i + 1]
          /\ phase' = IF at.i < at.n THEN "place" ELSE IF Len(trees) >= MaxTrees THEN "ask" ELSE "more"
          /\ UNCHANGED <<trees, old, q>>
More == /\ phase = "more" /\ \E stop \in 1..4 : phase' = IF stop = 1 THEN "ask" ELSE "tree"
        /\ UNCHANGED <<trees, nodes, at, old, q>>
Ask == /\ phase = "ask"
       /\ \E t \in {trees[j].index : j \in DOMAIN trees}, lo \in {1, 3, 5}, hi \in {7, 9}, b \in BOOLEAN :
            q' = [tree |-> t, lo |-> lo, hi |-> hi, bound |-> b]
       /\ phase' = "turn" /\ UNCHANGED <<trees, nodes, at, old>>
Turn == /\ phase = "turn"
        /\ \E th \in Angles, ph \in Turns, r \in {61, 121, 301} :
             q' = [tree |-> q.tree, lo |-> q.lo, hi |-> q.hi, bound |-> q.bound, th |-> th, ph |-> ph, r2 |-> r]
        /\ phase' = "how" /\ UNCHANGED <<trees, nodes, at, old>>
How == /\ phase = "how"
       /\ \E f \in {"none", "none2", "none3", "mine"}, u \in BOOLEAN, tab \in BOOLEAN, src \in {"path", "file", "dict"} :
            q' = [tree |-> q.tree, lo |-> q.lo, hi |-> q.hi, bound |-> q.bound, th |-> q.th, ph |-> q.ph, r2 |-> q.r2,
                  filter |-> f, util |-> u, table |-> tab, source |-> src]
       /\ phase' = "end" /\ UNCHANGED <<trees, nodes, at, old>>
Done == phase = "end" /\ phase' = "done" /\ UNCHANGED <<trees, nodes, at, old, q>>
Next == NewTree \/ Place \/ MassIt \/ More \/ Ask \/ Turn \/ How \/ Done
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT(<<"BEH", ToJson([trees |-> trees, nodes |-> nodes, old |-> old, q |-> q])>>)
==============================================================================
