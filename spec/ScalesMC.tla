------------------------------- MODULE ScalesMC -------------------------------
(* Whatever the order in which units are changed, the factor is that of the forms  *)
(* alone; ages add up; a ray can be followed from plane to plane.                  *)
EXTENDS Scales
CONSTANTS MaxSteps, MaxZ, MaxPlanes
VARIABLES dim, form, acc, n, zs, ray
vars == <<dim, form, acc, n, zs, ray>>
Change(m, from, to) == Plus(to, Times(-1, from))
\* the age of the universe falls with redshift
T == [z \in 0..MaxZ |-> 100 \div (z + 1)]
Planes(k) == IF k = 0 THEN {<<>>} ELSE UNION {[1..j -> {[d |-> d, al |-> al] : d \in {2, 5}, al \in {-3, 1}}] : j \in 0..k}
NoDim == [m |-> 0, l |-> 0]
NoZs == [z |-> 0, i |-> 0, f |-> 0, lam |-> 0]
NoRay == [ps |-> <<>>, at |-> 99, x |-> 0, al |-> 0, th |-> 0]
\* the three topics are independent: one at a time
Init == /\ form = [m |-> "Msun", l |-> "Mpc"] /\ acc = One
        /\ \/ /\ dim \in [m : {-1, 0, 1}, l : -3..1] /\ n = 0 /\ zs = NoZs /\ ray = NoRay
           \/ /\ dim = NoDim /\ n = 99 /\ zs \in [z : 0..MaxZ, i : 0..MaxZ, f : 0..MaxZ, lam : {0, 5, 10, 20}] /\ ray = NoRay
           \/ /\ dim = NoDim /\ n = 99 /\ zs = NoZs
              /\ ray \in {[ps |-> ps, at |-> 0, x |-> 0, al |-> th, th |-> th] : ps \in Planes(MaxPlanes), th \in {-2, 3}}
ChangeLength == /\ n < MaxSteps /\ \E f \in Lengths :
                     /\ acc' = Plus(acc, Times(dim.l, Change(1, LengthFactor(form.l), LengthFactor(f))))
                     /\ form' = [form EXCEPT !.l = f]
                /\ n' = n + 1 /\ UNCHANGED <<dim, zs, ray>>
ChangeMass == /\ n < MaxSteps /\ \E f \in Masses :
                   /\ acc' = Plus(acc, Times(dim.m, Change(1, MassFactor(form.m), MassFactor(f))))
                   /\ form' = [form EXCEPT !.m = f]
              /\ n' = n + 1 /\ UNCHANGED <<dim, zs, ray>>
\* the tracer: go to the next distance, straight, then be turned by the planes that are there
RECURSIVE Kick(_, _, _)
Kick(ps, d, k) == IF k = 0 THEN 0 ELSE Kick(ps, d, k - 1) + (IF ps[k].d = d THEN ps[k].al ELSE 0)
Step == /\ ray.at < 8
        /\ \E d \in {1, 2, 3} :
             LET to == ray.at + d IN
             /\ \A i \in DOMAIN ray.ps : ~(ray.at < ray.ps[i].d /\ ray.ps[i].d < to)      \* never past a plane
             /\ ray' = [ray EXCEPT !.at = to, !.x = ray.x + (ray.al * d), !.al = ray.al - Kick(ray.ps, to, Len(ray.ps))]
        /\ UNCHANGED <<dim, form, acc, n, zs>>
Next == ChangeLength \/ ChangeMass \/ Step
Spec == Init /\ [][Next]_vars

PathFree == acc = Factor(dim.m, form.m, dim.l, form.l)
Products == \A f \in Lengths, g \in Masses :       \* a surface density times an area is a mass, in the same forms
              Plus(Factor(1, g, -2, f), Factor(0, g, 2, f)) = Factor(1, g, 0, f)
AgesAdd == LET e == Effective(T, zs.z, zs.i, zs.f, zs.lam) IN
           /\ e >= 0
           /\ (zs.lam = 10 /\ zs.z <= zs.i) => e = 10 * Since(T, zs.z, zs.f)      \* an unchanged clock gives the age
           /\ (zs.lam >= 10 /\ zs.z <= zs.i) => e >= 10 * Since(T, zs.z, zs.f)
           /\ (zs.lam <= 10 /\ zs.z <= zs.i) => e <= 10 * Since(T, zs.z, zs.f)
Followed == ray.at < 99 => ray.x = Ray(ray.th, ray.ps, ray.at)
===============================================================================
