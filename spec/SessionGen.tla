----------------------------- MODULE SessionGen ------------------------------
(* Sessions for the replay driver: every function is called once, in any order,   *)
(* with the user's dictionaries or with the defaults; earlier realizations are      *)
(* looked at, and earlier calls repeated, in between; at the end the rest is         *)
(* looked at.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Entries, Looks, Repeats
VARIABLES hist, left, looks, again, turn, done
vars == <<hist, left, looks, again, turn, done>>
Init == hist = <<>> /\ left = 1..Entries /\ looks = 0 /\ again = 0 /\ turn \in 1..4 /\ done = FALSE
Add(o) == hist' = Append(hist, o)
Call == \E e \in left, d \in BOOLEAN, s \in 1..2 :
            /\ Add([op |-> "call", e |-> e, own |-> d, seed |-> s, back |-> 0])
            /\ left' = left \ {e} /\ UNCHANGED <<looks, again>>
\* look at what was made some calls ago; the same call once more
Look == \E b \in 0..5 : /\ Add([op |-> "look", e |-> 0, own |-> FALSE, seed |-> 0, back |-> b])
                        /\ looks' = looks + 1 /\ UNCHANGED <<left, again>>
Again == \E b \in 0..5 : /\ Add([op |-> "again", e |-> 0, own |-> FALSE, seed |-> 0, back |-> b])
                         /\ again' = again + 1 /\ UNCHANGED <<left, looks>>
Act == /\ left # {} /\ turn' \in 1..4 /\ UNCHANGED done
       /\ CASE turn = 1 /\ looks < Looks /\ hist # <<>> -> Look
            [] turn = 2 /\ again < Repeats /\ hist # <<>> -> Again
            [] OTHER -> Call
Stop == left = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<left, looks, again, turn>>
        /\ hist' = hist \o [b \in 1..(Entries + again) |-> [op |-> "look", e |-> 0, own |-> FALSE, seed |-> 0, back |-> b - 1]]
Spec == Init /\ [][Act \/ Stop]_vars
Emit == done => PrintT(<<"BEH", ToJson(hist)>>)
==============================================================================
