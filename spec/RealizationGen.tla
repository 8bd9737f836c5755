--------------------------- MODULE RealizationGen ---------------------------
(* Operation sequences for the replay driver: TLC chooses them (simulation), the *)
(* driver steps the real objects through them and RealizationTrace judges each.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES n, shifted, hist, done
Op(o, s, a, b, u, g) == [op |-> o, s |-> s, a |-> a, b |-> b, u |-> u, g |-> g]
Init == n = 2 /\ shifted = {} /\ hist = <<>> /\ done = FALSE
Ext(o) == hist' = Append(hist, o)
Pick == LET a == IF n > 5 THEN n - 4 ELSE 1 IN a..n
Act ==
  /\ Len(hist) < Steps /\ UNCHANGED done
  /\ \E s \in Pick : \E g \in BOOLEAN :
     \/ \E a \in 6..9, u \in {"ANGLES", "KPC"} : Ext(Op("filter", s, a, 0, u, g)) /\ n' = n + 1 /\ UNCHANGED shifted
     \/ \E a \in 6..9 : Ext(Op("sub", s, a, 0, "", g)) /\ n' = n + 1 /\ UNCHANGED shifted
     \/ \E a \in 6..8 : Ext(Op("bound", s, a, 0, "", g)) /\ n' = n + 1 /\ UNCHANGED shifted
     \/ \E z \in {200, 350, 351, 500, 899, 900} : Ext(Op("split", s, z, 0, "", g)) /\ n' = n + 2 /\ UNCHANGED shifted
     \/ \E z \in {200, 500, 700} : Ext(Op("atz", s, z, 0, "", g)) /\ n' = n + 1 /\ UNCHANGED shifted
     \/ \E b \in Pick : Ext(Op("join", s, 0, b, "", g)) /\ n' = n + 1 /\ UNCHANGED shifted
     \/ \E b \in Pick : Ext(Op("eq", s, 0, b, "", g)) /\ UNCHANGED <<n, shifted>>
     \/ \E z \in {0, 350, 500, 501} : Ext(Op("shift", s, z, 0, "", g)) /\ n' = n + 1 /\ shifted' = shifted \cup {n + 1}
     \/ Ext(Op("lens", s, 0, 0, "", g)) /\ UNCHANGED <<n, shifted>>
Stop == Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, shifted, hist>>
Next == Act \/ Stop
Spec == Init /\ [][Next]_<<n, shifted, hist, done>>
Emit == done => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
