------------------------------ MODULE PresetGen ------------------------------
(* Requests for the replay driver: a preset, and for each of its options whether   *)
(* it is given and which of two values it has.                                      *)
EXTENDS Preset, TLC, Json
VARIABLES p, todo, g, coin, done
Init == /\ p \in Presets /\ todo = Takes(p) /\ g = [o \in {} |-> 0] /\ coin \in 0..1 /\ done = FALSE
Next == \/ /\ todo # {} /\ LET o == CHOOSE x \in todo : TRUE IN
                \E v \in (IF coin = 0 THEN {0} ELSE {1, 2}) : /\ g' = IF v = 0 THEN g ELSE [x \in DOMAIN g \cup {o} |-> IF x = o THEN v ELSE g[x]]
                                  /\ todo' = todo \ {o}
           /\ coin' \in 0..1 /\ UNCHANGED <<p, done>>
        \/ todo = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<p, todo, g, coin>>
Spec == Init /\ [][Next]_<<p, todo, g, coin, done>>
Emit == done => PrintT(<<"BEH", ToJson([preset |-> p, given |-> g])>>)
==============================================================================
