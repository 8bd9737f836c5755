------------------------------- MODULE ExtGen -------------------------------
(* Sequences of conversions for the replay driver (TLC simulation).  Sources are *)
(* earlier realizations; an operation a realization does not allow is skipped by *)
(* the driver, which then counts as an operation without result.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES hist, done
Init == hist = <<>> /\ done = FALSE
O(op, how, s, m, a, b, p, look) == [op |-> op, how |-> how, s |-> s, m |-> m, a |-> a, b |-> b, p |-> p, look |-> look]
Back == 0..3                             \* how many realizations ago
Looks == {"before", "old", "new"}        \* what is read first: before the operation, or the old or the new objects after it
NoP == [ev |-> FALSE, gbh |-> FALSE, mode |-> "none", tc |-> 0, cut |-> 150, thr |-> 1000, prob |-> "one", lam |-> 1000]
Ps(modes) == {[ev |-> e, gbh |-> g, mode |-> m, tc |-> t, cut |-> c, thr |-> h, prob |-> q, lam |-> x] :
       e \in BOOLEAN, g \in {FALSE, TRUE}, m \in modes, t \in {700, 4000, 8000, 14000, 60000}, c \in {150, 600}, h \in {500, 1000},
       q \in {"zero", "one", "one", "mid"}, x \in {500, 1000, 2500}}
Add(o) == hist' = Append(hist, o) /\ UNCHANGED done
\* the kind of operation is chosen first, so that none crowds out the others
Turn == Len(hist) % 6
Act == /\ Len(hist) < Steps
       /\ \E s \in Back, k \in Looks :
          \/ /\ Turn \in {0, 5}
             /\ \E how \in {"list", "timescale", "cross"}, prof \in {"TNFWC", "CC_COMPOSITE"}, p \in Ps({"tc"}) : Add(O("sidm", how, s, prof, 0, 0, p, k))
          \/ /\ Turn = 1
             /\ \/ \E prof \in {"GNFW", "SPL_CORE", "TNFWC", "CC_COMPOSITE"}, a \in {9, 170, 819}, b \in 0..4 : Add(O("collapse", "listed", s, prof, a, b, NoP, k))
                \/ \E prof \in {"CNFW", "TNFWC"}, a \in {3, 10, 165, 4095}, b \in {30, 100, 500} : Add(O("cored", "listed", s, prof, a, b, NoP, k))
          \/ /\ Turn = 2
             /\ \/ \E th \in {8500, 9000, 9300}, m \in {"SIS", "GNFW"} : Add(O("galaxy", "mass", s, m, th, 0, NoP, k))
                \/ \E a \in 0..5 : \E b \in {a, (a + 2) % 6} : Add(O("bymass", "mass", s, "", a, b, NoP, k))
          \/ /\ Turn = 4
             /\ \E p \in Ps({"ratio"}) : Add(O("sidm", "list", s, "TNFWC", 0, 0, p, k))
          \/ /\ Turn = 3
             /\ \E prof \in {"TNFWC", "CC_COMPOSITE"}, g \in BOOLEAN : Add(O("sidm", "list", s, prof, 0, 0, [NoP EXCEPT !.gbh = g], k))
Stop == Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED hist
Next == Act \/ Stop
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
