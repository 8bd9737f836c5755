--------------------------------- MODULE Ext ---------------------------------
(* Operations that convert objects of a realization or add objects to it.        *)
(* The state is the list of objects of the current realization.  An object is     *)
(*   [id, kind, lm (1000 log10 mass), sub, t1, t2]                                 *)
(* t1/t2: milli-Gyr from formation (z=10) to infall, and from infall to the         *)
(* redshift of the lens (field halos: t2 = 0).                                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES objs

First(S) == CHOOSE i \in S : \A j \in S : i <= j
\* half-open bins in 1000 log10 m; 0 when no bin holds the mass
Bin(bins, lm) == LET S == {i \in DOMAIN bins : bins[i][1] <= lm /\ lm < bins[i][2]}
                 IN IF S = {} THEN 0 ELSE First(S)

\* -- self-interacting dark matter ---------------------------------------------------
\* p: [profile, evolving, gbh (gamma_inner = -1), mode, tc (milli-Gyr), ratio (1000 t/tc),
\*     cut, thr (thousandths), prob ("zero", "one", "mid"), lam (thousandths)]
Collapsed(p) == IF p.profile = "CC_COMPOSITE" THEN (IF p.gbh THEN "CCBH" ELSE "CC")
                ELSE IF p.evolving /\ p.mode # "none" THEN "EVOLVING" ELSE "TNFWC"
EffAge(o, lam) == IF o.sub THEN o.t1 + (o.t2 * lam) \div 1000 ELSE o.t1 + o.t2
Cut(p) == IF p.profile = "TNFWC" /\ p.evolving THEN p.cut ELSE p.thr
\* has the halo aged past the cut?  a margin of two percent is left open
Past(age, tc, cut) == LET a == (age * 1000) \div 50  b == (cut * tc) \div 50 IN
    IF a > b + b \div 50 + 1 THEN "yes" ELSE IF a < b - b \div 50 - 1 THEN "no" ELSE "either"
Aged(o, p) == CASE p.mode = "none" -> "yes"
                [] p.mode = "tc" -> Past(EffAge(o, p.lam), p.tc, Cut(p))
                [] p.mode = "ratio" -> Past(p.ratio, 1000, Cut(p))
\* the kinds a halo may have afterwards
Sidm(o, p) ==
    IF o.kind # "TNFW" THEN {o.kind}
    ELSE IF p.mode = "none" THEN {Collapsed(p)}
    ELSE CASE Aged(o, p) = "no" -> {"TNFW"}
           [] p.prob = "zero" -> {"TNFW"}
           [] Aged(o, p) = "yes" /\ p.prob = "one" -> {Collapsed(p)}
           [] OTHER -> {"TNFW", Collapsed(p)}

\* -- the other conversions ----------------------------------------------------------
Galaxy(o, th, model) == IF o.lm >= th THEN {model} ELSE {o.kind}
Listed(o, i, idx, new) == IF i \in idx THEN {new} ELSE {o.kind}
\* which halos a collapse by mass may and must select
ByMass(o, sr, fr, sp, fp) ==
    IF o.kind # "TNFW" THEN "out"
    ELSE LET r == IF o.sub THEN sr ELSE fr
             q == IF o.sub THEN sp ELSE fp
             b == Bin(r, o.lm)
         IN IF b = 0 THEN "out" ELSE CASE q[b] = 0 -> "out" [] q[b] = 1000 -> "in" [] OTHER -> "either"

\* -- black holes: [lm] of the seeds of hosts resolved in the realization ---------------
Seeds(os, ratio, max) == [i \in DOMAIN os |-> IF os[i].lm + ratio > max THEN max ELSE os[i].lm + ratio]

\* A realization `new` made from `old` by converting object by object with the rule K
Converts(old, new, K(_, _)) ==
    /\ Len(new) = Len(old)
    /\ \A i \in DOMAIN new :
         /\ new[i].kind \in K(old[i], i)
         /\ (new[i].kind = old[i].kind => new[i] = old[i])
         /\ new[i].lm = old[i].lm /\ new[i].sub = old[i].sub /\ new[i].t1 = old[i].t1 /\ new[i].t2 = old[i].t2
Extends(old, new) == Len(new) >= Len(old) /\ \A i \in DOMAIN old : new[i] = old[i]
==============================================================================
