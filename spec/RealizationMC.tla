--------------------------- MODULE RealizationMC ---------------------------
(* Exhaustive configuration: four halos on two planes, every operation.  Joined *)
(* realizations are both aligned with the source or both not: join puts halos in *)
(* one list and cannot align the other half.                                      *)
EXTENDS Realization
CONSTANTS MaxReals
Tagged(t, m, x, z, sub, fixed, bm) == [tag |-> t, m |-> m, x |-> x, y |-> 0, z |-> z, sub |-> sub, fixed |-> fixed, bm |-> bm]
Init ==
    /\ heap = <<Tagged(1, 600, 0, 20, FALSE, FALSE, 600), Tagged(2, 700, 3, 20, FALSE, TRUE, 700),
                Tagged(3, 800, 5, 50, TRUE, FALSE, 650), Tagged(4, 700, 9, 50, TRUE, FALSE, 500)>>
    /\ moved = <<0, 0, 0, 0>>
    /\ reals = <<[hs |-> <<1, 2, 3, 4>>, shifted |-> FALSE, center |-> 0, rcs |-> <<1, 2>>, geom |-> 1, sheets |-> TRUE]>>
    /\ live = {1}
Ray == [z \in {"20", "50"} |-> [x |-> 2, y |-> 1]]
Next == /\ Len(reals) < MaxReals
        /\ \E s \in live :
             \/ \E t \in {650, 700, 701} : Filter(s, t)
             \/ \E t \in {600, 700} : FilterSub(s, 3, t, <<[x |-> 5, y |-> 0]>>)
             \/ \E t \in {600, 650} : FilterBound(s, t)
             \/ \E z \in {20, 30} : Split(s, z)
             \/ \E z \in {20, 50} : AtZ(s, z)
             \/ \E z \in {0, 30} : Shift(s, Ray, z, 1)
             \/ \E b \in live, jc \in BOOLEAN : reals[s].shifted = reals[b].shifted /\ Join(s, b, jc)
Spec == Init /\ [][Next]_vars
=============================================================================
