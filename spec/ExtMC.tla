-------------------------------- MODULE ExtMC --------------------------------
(* Every sequence of conversions and additions on a small realization.           *)
EXTENDS Ext, TLC
CONSTANTS Steps
VARIABLES start, n, last, free
vars == <<objs, start, n, last, free>>
O(i, k, lm, s, t1, t2) == [id |-> i, kind |-> k, lm |-> lm, sub |-> s, t1 |-> t1, t2 |-> t2]
Init == /\ objs = <<O(1, "TNFW", 7000, FALSE, 8000, 0), O(2, "TNFW", 7999, TRUE, 3000, 4000),
                    O(3, "TNFW", 8000, TRUE, 0, 8000), O(4, "BH", 5000, FALSE, 8000, 0)>>
        /\ start = objs /\ n = 0 /\ last = "none" /\ free = 5
P(prof, ev, bh, m, tc, pr, lam) == [profile |-> prof, evolving |-> ev, gbh |-> bh, mode |-> m, tc |-> tc, ratio |-> tc,
                                    cut |-> 150, thr |-> 1000, prob |-> pr, lam |-> lam]
Params == {P(prof, ev, bh, m, tc, pr, lam) : prof \in {"TNFWC", "CC_COMPOSITE"}, ev \in BOOLEAN, bh \in BOOLEAN,
           m \in {"tc", "none"}, tc \in {100, 4000, 9000, 100000}, pr \in {"zero", "one", "mid"}, lam \in {500, 2000}}
\* one conversion: choose a kind for every object out of what the rule allows
Map(K(_, _), name) ==
    \E f \in [DOMAIN objs -> UNION {K(objs[i], i) : i \in DOMAIN objs}] :
        /\ \A i \in DOMAIN objs : f[i] \in K(objs[i], i)
        /\ objs' = [i \in DOMAIN objs |-> IF f[i] = objs[i].kind THEN objs[i]
                                          ELSE [objs[i] EXCEPT !.kind = f[i], !.id = free + i]]
        /\ free' = free + Len(objs) + 1 /\ last' = name /\ UNCHANGED start /\ n' = n + 1
ToSidm(p) == Map(LAMBDA o, i : Sidm(o, p), IF p.prob = "zero" /\ p.mode = "tc" THEN "sidm0" ELSE "sidm")
ToGalaxy(th, m) == /\ \A i \in DOMAIN objs : objs[i].lm >= th => objs[i].kind \in {"TNFW", "EVOLVING", "TNFWC"}
                   /\ Map(LAMBDA o, i : Galaxy(o, th, m), "galaxy")
ToListed(idx, k) == /\ \A i \in idx : objs[i].kind = "TNFW"
                    /\ Map(LAMBDA o, i : Listed(o, i, idx, k), "listed")
Add(k, lm) == /\ Len(objs) < 6
              /\ objs' = Append(objs, O(free, k, lm, FALSE, 8000, 0)) /\ free' = free + 1
              /\ last' = "add" /\ n' = n + 1 /\ UNCHANGED start
Next == /\ n < Steps
        /\ \/ \E p \in Params : ToSidm(p)
           \/ \E th \in {7000, 8000, 8001}, m \in {"SIS", "GALAXY"} : ToGalaxy(th, m)
           \/ \E idx \in SUBSET {1, 2, 3}, k \in {"GNFW", "CNFW", "TNFWC"} : ToListed(idx, k)
           \/ \E k \in {"GC"} : Add(k, 5300)
Spec == Init /\ [][Next]_vars
\* converted or not, an object is still itself, and stays where it was in the list
Same == \A i \in DOMAIN start : /\ objs[i].lm = start[i].lm /\ objs[i].sub = start[i].sub
                                /\ objs[i].t1 = start[i].t1 /\ objs[i].t2 = start[i].t2
\* what is not a plain truncated NFW halo is never taken for one
Points == objs[4].kind = "BH" /\ objs[4].id = 4
Ids == \A i, j \in DOMAIN objs : i # j => objs[i].id # objs[j].id
\* nothing returns to being dark matter only
OneWay == [][\A i \in DOMAIN objs : objs[i].kind # "TNFW" => objs'[i].kind # "TNFW"]_vars
\* without a collapse probability nothing happens
Nothing == [][last' = "sidm0" => objs' = objs]_vars
\* older halos, shorter timescales and faster subhalos collapse first
Monotone == \A p \in Params : p.mode = "tc" /\ p.prob = "one" =>
    \A i \in DOMAIN start : Sidm(start[i], p) = {Collapsed(p)} =>
       /\ \A q \in Params : (q = [p EXCEPT !.tc = q.tc] /\ q.tc <= p.tc) => Sidm(start[i], q) = {Collapsed(q)}
       /\ \A q \in Params : (q = [p EXCEPT !.lam = q.lam] /\ q.lam >= p.lam) => Sidm(start[i], q) = {Collapsed(q)}
       /\ Sidm([start[i] EXCEPT !.t1 = @ + 100], p) = {Collapsed(p)}
MonotoneOnce == n = 0 => Monotone
==============================================================================
