------------------------------- MODULE HaloMC -------------------------------
(* Every interleaving of reads, rescalings and moves of two halos: draws happen *)
(* at most once, and the normalization is the product of the accepted factors.  *)
EXTENDS Halo, TLC
CONSTANTS N, Steps, MCKinds
Factors == {2, -5}
VARIABLES hs, count, hist
vars == <<hs, count, hist>>
Init == /\ \E k \in [1..N -> MCKinds] : \E s \in [1..N -> BOOLEAN] : \E f \in [1..N -> {0, -3}] :
             hs = [i \in 1..N |-> New(k[i], s[i], 5 * i, 5 * i, f[i])]
        /\ count = [i \in 1..N |-> [q \in AllDraws |-> 0]]
        /\ hist = [i \in 1..N |-> <<>>]
Steps0 == LET F[i \in 0..N] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(hist[i]) IN F[N]
Fact(i, f, force, log) == [f |-> f, force |-> force, log |-> log]
Read(i) == \E w \in Readable(hs[i].kind, hs[i].sub) :
             LET g == ReadIt(hs[i], w)
                 new == g.drawn \ hs[i].drawn
             IN /\ hs' = [hs EXCEPT ![i] = g]
                /\ count' = [count EXCEPT ![i] = [q \in AllDraws |-> @[q] + (IF q \in new THEN 1 ELSE 0)]]
                /\ hist' = [hist EXCEPT ![i] = Append(@, Fact(i, IF "trunc" \in new THEN hs[i].ft ELSE 0, FALSE,
                                                             "trunc" \in new /\ hs[i].ft # 0))]
Rescale(i) == /\ hs[i].kind \in Rescalable
              /\ \E f \in Factors, force, log \in BOOLEAN :
                   /\ hs' = [hs EXCEPT ![i] = RescaleIt(@, f, force, log)]
                   /\ hist' = [hist EXCEPT ![i] = Append(@, Fact(i, f, force, log))]
              /\ UNCHANGED count
Move(i) == hs' = [hs EXCEPT ![i] = MoveIt(@, 1, -1)] /\ hist' = [hist EXCEPT ![i] = Append(@, Fact(i, 0, TRUE, FALSE))]
           /\ UNCHANGED count
Next == Steps0 < Steps /\ \E i \in 1..N : Read(i) \/ Rescale(i) \/ Move(i)
Spec == Init /\ [][Next]_vars

Once == \A i \in 1..N : \A q \in AllDraws : count[i][q] <= 1 /\ (count[i][q] = 1 <=> q \in hs[i].drawn)
\* the accepted factors, said without the machine's flag
Accepted(s, k) == s[k].force \/ ~\E j \in 1..(k - 1) : s[j].log /\ (s[j].force \/ ~\E m \in 1..(j - 1) : s[m].log)
Product == \A i \in 1..N :
             hs[i].norm = LET F[k \in 0..Len(hist[i])] ==
                                 IF k = 0 THEN 0 ELSE F[k - 1] + (IF Accepted(hist[i], k) THEN hist[i][k].f ELSE 0)
                          IN F[Len(hist[i])]
\* a subhalo knows its infall redshift before its concentration
Order == \A i \in 1..N : hs[i].sub /\ "c" \in hs[i].drawn => "zinf" \in hs[i].drawn
Alone == \A i \in 1..N : hist[i] = <<>> => hs[i].drawn = {} /\ hs[i].norm = 0
=============================================================================
