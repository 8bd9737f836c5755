------------------------------- MODULE ModelsMC -------------------------------
(* Laws of the models over grids of masses, redshifts and parameters, and every *)
(* history of requests for models by name with dictionaries that are shared.     *)
EXTENDS Models
CONSTANTS Masses, Slopes, Zs, Bounds, Hosts, MaxReq, KeySets
VARIABLES what, pt, dicts, answers, n
vars == <<what, pt, dicts, answers, n>>

\* -- grid points
Grid == [m : Masses, m2 : Masses, d : Slopes, z : Zs, b : Bounds, h : Hosts]
L10(x) == x * 230259               \* tenths of a decade to millionths of ln
Hm == L10(76)
Q(m, z) == [lm |-> L10(m), lcol |-> LnFloor + 2300000 - MulE3(L10(m) - L10(60), 60), lz1 |-> LnE6(1000000 + MinOf(1000 * z, 3999000)), z3 |-> z]
Cfg(turn, d) == [base |-> "TABLE", par |-> Nothing, sigma |-> 200, turn |-> turn,
                 sup |-> CASE turn = "NONE" -> Nothing
                           [] turn = "POLY" -> [lscale |-> 4094345, inner |-> 1000, power |-> -170, zevol |-> FALSE, lmhm |-> Hm]
                           [] turn = "HYPER" -> PresetSup("FROM_FORMATION_HISTORY",
                                                 [lmhm |-> Hm, ld |-> LnE6(1000 * d), lld |-> LnE6(LnE6(MaxOf(1000 * d, 1200000) + 600000))])
                           [] turn = "LWDM" -> [slope |-> -d, mhm3 |-> 7600, lmhm |-> Hm]]
Turns == {"POLY", "HYPER", "LWDM"}

\* -- requests
D0 == {"a", "b"}
Names == {<<"massfunction", "SHMF_LOVELL2020">>, <<"massfunction", "STUCKER">>, <<"massfunction", "POWER_LAW">>,
          <<"concentration", "FROM_FORMATION_HISTORY">>, <<"concentration", "BOSE2016">>, <<"truncation", "TRUNCATION_R50">>,
          <<"massfunction", "BOSE2016">>}
Init == /\ \/ what = "grid" /\ pt \in Grid /\ dicts = Nothing
           \/ what = "names" /\ pt = Nothing /\ \E ks \in [D0 -> KeySets] : dicts = [i \in D0 |-> [k \in ks[i] |-> 7]]
        /\ answers = <<>> /\ n = 0
Ask == /\ what = "names" /\ n < MaxReq
       /\ \E r \in Names, i \in D0 :
            answers' = Append(answers, [r |-> r, i |-> i, given |-> dicts[i], got |-> Resolve(r[1], r[2], dicts[i])])
       /\ n' = n + 1 /\ UNCHANGED <<what, pt, dicts>>
\* what a caller does to an answer stays in that answer
Scribble == /\ what = "names"
            /\ \E j \in DOMAIN answers : answers[j].got.ok /\ answers[j].got.par # Nothing
                 /\ answers' = [answers EXCEPT ![j].got.par = Nothing]
            /\ UNCHANGED <<what, pt, dicts, n>>
Next == Ask \/ Scribble
Spec == Init /\ [][Next]_vars

OnGrid(P(_)) == what = "grid" => P(pt)
\* the relation of a suppressed model lies below the one it suppresses, above the floor, and closes in on it with mass
Suppressed == OnGrid(LAMBDA p : \A t \in Turns :
                /\ Median(Cfg(t, p.d), Q(p.m, p.z)) <= Median(Cfg("NONE", p.d), Q(p.m, p.z)) + 40
                /\ Median(Cfg(t, p.d), Q(p.m, p.z)) >= LnFloor
                /\ TurnLaw(Cfg(t, p.d), Q(p.m, p.z)) <= 0
                /\ (p.m <= p.m2 => TurnLaw(Cfg(t, p.d), Q(p.m, p.z)) <= TurnLaw(Cfg(t, p.d), Q(p.m2, p.z)) + 60))
\* at the half-mode mass of the hyperbolic forms the suppression is one half where log10(m/mhm) = a
Halved == OnGrid(LAMBDA p : AbsL(HyperLaw(0, 500000, Hm, Hm) + Ln2) <= 40)
\* scatter keeps the median
Scatter == OnGrid(LAMBDA p : \A t \in Turns :
             LET c == Median(Cfg(t, p.d), Q(p.m, p.z)) IN BelowConc(Cfg(t, p.d), Q(p.m, p.z), c) = 500000)
\* the calibrated table of Ludlow's suppression is hit at its nodes and stays between its neighbours
TableNodes == what = "grid" => \A i \in 1..5 : \A j \in 1..3 : \A k \in 1..5 :
                AbsL(Trilinear(LudlowA, -LudlowT[i], 5000 + 1000 * j, 1000 * (k - 1)) - 1000 * LudlowA[i][j][k]) <= 3
TableInside == OnGrid(LAMBDA p : Trilinear(LudlowA, -p.d, 100 * p.m, p.z) \in (-48000)..554000)
\* smaller bound masses, smaller normalizations; never above one
TrackMonotone == OnGrid(LAMBDA p : \A b2 \in Bounds :
                   LET q(b) == [m |-> L10(p.m), lmb |-> L10(p.m) - b, lmu |-> 700000 + 100 * p.z]
                   IN TrackNorm(q(p.b)) <= 0 /\ (p.b <= b2 => TrackNorm(q(b2)) <= TrackNorm(q(p.b)) + 40))
\* truncation radii grow with mass to the third, shrink with the overdensity and with redshift
Radii == OnGrid(LAMBDA p : \A n1, n2 \in {50, 200} :
           LET r(m, k) == RnKpc(L10(m), 25500000, IF k = 50 THEN 3912023 ELSE Ln(200)) IN
             /\ (p.m <= p.m2 => r(p.m, n1) <= r(p.m2, n1))
             /\ (n1 <= n2 => r(p.m, n2) <= r(p.m, n1))
             /\ AbsL(3 * (r(p.m2, n1) - r(p.m, n1)) - (L10(p.m2) - L10(p.m))) <= 4)
Folded == OnGrid(LAMBDA p : LET s == 50 + p.z \div 10 IN
            \A t1, t2 \in {0, 300, 900, 1000, 1400} :
               /\ FoldedBelow(t1, s) \in 0..1000000
               /\ (t1 <= t2 => FoldedBelow(t1, s) <= FoldedBelow(t2, s)) /\ FoldedBelow(0, s) \in -60..60)
\* infall: nothing before the lens, everything within 15, heavier subhalos later; flat outside the calibrated mass ratios
Falling == OnGrid(LAMBDA p : \A k \in {"HYBRID", "DIRECT", "CLUSTER"} :
             LET x(m) == LogRatio(L10(m), L10(p.h)) IN
               /\ x(p.m) >= 500000 /\ x(p.m) <= 5000000
               /\ (p.m <= p.m2 => InfallMean(k, LnE6(x(p.m2))) <= InfallMean(k, LnE6(x(p.m))) + 60)
               /\ InfallBelow(k, x(p.m), -1) = 0 /\ AbsL(InfallBelow(k, x(p.m), 15000000) - 100000) <= 60
               /\ (p.m <= p.h - 50 => x(p.m) >= 4999900))
Steps2024 == what = "grid" => /\ Cdf2024(FirstZ) = 0 /\ Cdf2024(FirstZ + 19 * StepZ + 1) = 100000
             /\ \A i \in 1..18 : Cdf2024(FirstZ + i * StepZ) <= Cdf2024(FirstZ + (i + 1) * StepZ)
Approx == OnGrid(LAMBDA p : ApproxAt(ApproxScale, p.z) \in 600000..2500000 /\ ApproxAt(ApproxLoc, p.z) \in -4000000..-1000000)
\* Stucker's masses come in the order of the suppression they stand for
Ordered == OnGrid(LAMBDA p : StuckerMass(1, LnE6(1000 * p.d)) < StuckerMass(2, LnE6(1000 * p.d))
                             /\ StuckerMass(2, LnE6(1000 * p.d)) < StuckerMass(3, LnE6(1000 * p.d)))
\* requests: unknown names refused, settled values win, replaced ones vanish, others pass through untouched
Answered == what = "names" =>
  \A j \in DOMAIN answers : LET a == answers[j] IN
    /\ a.given = dicts[a.i]
    /\ a.got.ok => /\ Replaces(a.r[1], a.r[2]) \cap a.got.keys = {}
                   /\ DOMAIN Settled(a.r[1], a.r[2]) \subseteq a.got.keys
                   /\ (DOMAIN a.given \ Replaces(a.r[1], a.r[2])) \subseteq a.got.keys
    /\ (a.r = <<"massfunction", "BOSE2016">>) => ~a.got.ok
    /\ \A i \in DOMAIN answers : answers[i].r = a.r /\ answers[i].i = a.i /\ answers[i].got.ok => answers[i].got.keys = a.got.keys
=============================================================================
