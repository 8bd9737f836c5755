---------------------------- MODULE Realization ----------------------------
(* A realization is a list of halos plus the context it was rendered in: the  *)
(* rendering centre, the rendering classes that own the mass sheets, the      *)
(* geometry, the sheet toggle, and whether it was already aligned with the    *)
(* source.  Every public operation returns new realizations; halos are shared *)
(* objects.                                                                    *)
(*                                                                             *)
(* Units: redshift in 1/1000; positions in 1/64 arcsec; masses in half-units of *)
(* 1e5 solar masses (any integer scale works); comoving distances (chi) in     *)
(* Mpc; weights in 1/10000.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
SetOf(s) == {s[i] : i \in DOMAIN s}

\* integer square root (floor), Newton from above
RECURSIVE NewtonDown(_, _)
NewtonDown(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE NewtonDown(n, h)
ISqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE NewtonDown(n, IF n < 1000000 THEN 1001 ELSE 46340)

------------------------------------------------------------------------------
(* Selection rules, on one halo h = [tag, m, x, y, z, sub, fixed, bm] where x,y *)
(* are its current coordinates                                                  *)

\* 4 chi (chi_s - chi) / chi_s^2 in 1/10000, never below wmin nor above 1
Weight(chi, chis, gw, wmin) ==
    IF ~gw THEN 10000
    ELSE LET w == (4 * chi * (chis - chi)) \div ((chis * chis) \div 10000)
         IN MaxI(wmin, MinI(10000, w))

\* distance between a halo and a ray in 1/640 arcsec
Dist10(h, ray) == ISqrt(100 * ((h.x - ray.x) * (h.x - ray.x) + (h.y - ray.y) * (h.y - ray.y)))

\* "in", "out", or "edge" when rounding in this arithmetic could decide either way
\* (exactly representable ties -- no weighting, angular aperture -- are decided)
InAperture(h, ray, r, units, chi, chis, gw, wmin) ==
    IF units = "ANGLES"
    THEN IF ~gw
         THEN IF (h.x - ray.x) * (h.x - ray.x) + (h.y - ray.y) * (h.y - ray.y) <= r * r THEN "in" ELSE "out"
         ELSE LET cut == (r * Weight(chi, chis, gw, wmin)) \div 1000     \* 1/640 arcsec
                  d == Dist10(h, ray)
                  tol == 3 + cut \div 500
              IN IF d < cut - tol THEN "in" ELSE IF d > cut + tol THEN "out" ELSE "edge"
    ELSE \* KPC: r in 1/100 kpc, transverse comoving separation
         LET d == (Dist10(h, ray) * chi) \div 1320                        \* 1/100 kpc
             cut == ((r \div 10) * Weight(chi, chis, gw, wmin)) \div 1000
             tol == 3 + cut \div 300 + d \div 300
         IN IF d < cut - tol THEN "in" ELSE IF d > cut + tol THEN "out" ELSE "edge"

\* rays: sequence (one per image) of functions plane -> [x, y]
FilterVerdict(h, thr, r, rays, units, chiOf, chis, gw, wmin) ==
    IF h.m >= thr THEN "in"
    ELSE LET v == {InAperture(h, rays[i][ToString(h.z)], r, units, chiOf[ToString(h.z)], chis, gw, wmin)
                     : i \in DOMAIN rays}
         IN IF "in" \in v THEN "in" ELSE IF "edge" \in v THEN "edge" ELSE "out"

SubhaloFilterKeeps(h, r, thr, pts) ==
    \/ ~h.sub
    \/ h.m > thr
    \/ \E i \in DOMAIN pts : (h.x - pts[i].x) * (h.x - pts[i].x) + (h.y - pts[i].y) * (h.y - pts[i].y) < r * r

BoundMassKeeps(h, thr) == ~h.sub \/ h.bm >= thr

AtRedshiftKeeps(h, z, ranged, r, p) ==
    h.z = z /\ (ranged => (h.x - p.x) * (h.x - p.x) + (h.y - p.y) * (h.y - p.y) < r * r)

\* lens models per kind of object, in the order lenstronomy receives them
NamesOf(kind) ==
    CASE kind = "NFW" -> <<"NFW">>
      [] kind = "TNFW" -> <<"TNFW">>
      [] kind = "TNFWC" -> <<"TNFWC">>
      [] kind = "PT_MASS" -> <<"POINT_MASS">>
      [] kind = "GAUSSIAN_KAPPA" -> <<"GAUSSIAN">>
      [] kind = "GNFW" -> <<"PSEUDO_DPL">>
      [] kind = "SPL_CORE" -> <<"SPL_CORE">>
      [] kind = "PJAFFE" -> <<"PJAFFE">>
      [] kind = "SIS" -> <<"SIS">>
      [] kind = "HYBRID" -> <<"TNFW", "TNFWC">>
      [] kind = "GC" -> <<"SPL_CORE">>
      [] kind = "ULDM" -> <<"CNFW", "ULDM">>
      [] OTHER -> <<>>

\* what the lens model list must look like: one entry per profile of each halo, in order
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

CountIf(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})

------------------------------------------------------------------------------
(* The machine.  heap: the halo objects; reals: every realization made so far. *)
VARIABLES heap,      \* Seq of halo records; x,y change only by shifting
          moved,     \* Seq of Nat: how many times each halo was displaced
          reals,     \* Seq of [hs: Seq of heap indices, shifted, center, rcs, geom, sheets]
          live       \* indices of realizations the user still works with

vars == <<heap, moved, reals, live>>

H(i) == heap[i]
TagsOf(hs) == {heap[i].tag : i \in SetOf(hs)}
Derived(src, hs) == [reals[src] EXCEPT !.hs = hs]
Sel(hs, P(_)) == SelectSeq(hs, P)

\* union by tag; when both hold a tag one object represents it
JoinOf(a, b) ==
    LET ta == TagsOf(reals[a].hs)
        notInA(i) == heap[i].tag \notin ta
    IN reals[a].hs \o SelectSeq(reals[b].hs, notInA)

Push(rs) == /\ reals' = reals \o rs
            /\ live' = live \cup (Len(reals) + 1)..(Len(reals) + Len(rs))
            /\ UNCHANGED <<heap, moved>>

Filter(src, thr) ==
    LET keep(i) == heap[i].m >= thr IN Push(<<Derived(src, Sel(reals[src].hs, keep))>>)
FilterSub(src, r, thr, pts) ==
    LET keep(i) == SubhaloFilterKeeps(heap[i], r, thr, pts) IN Push(<<Derived(src, Sel(reals[src].hs, keep))>>)
FilterBound(src, thr) ==
    LET keep(i) == BoundMassKeeps(heap[i], thr) IN Push(<<Derived(src, Sel(reals[src].hs, keep))>>)
Split(src, z) ==
    LET lo(i) == heap[i].z <= z
        hi(i) == heap[i].z > z
    IN Push(<<Derived(src, Sel(reals[src].hs, lo)), Derived(src, Sel(reals[src].hs, hi))>>)
AtZ(src, z) ==
    LET keep(i) == heap[i].z = z IN Push(<<Derived(src, Sel(reals[src].hs, keep))>>)
Join(a, b, joinClasses) ==
    Push(<<[reals[a] EXCEPT !.hs = JoinOf(a, b),
                            !.rcs = IF joinClasses THEN reals[a].rcs \o reals[b].rcs ELSE reals[a].rcs]>>)

\* ray: plane -> [x, y]; zmin: halos in front of it are left out.  A realization that
\* was already aligned is returned unchanged.
Shift(src, ray, zmin, c) ==
    IF reals[src].shifted
    THEN UNCHANGED vars
    ELSE LET kept(i) == heap[i].fixed \/ heap[i].z >= zmin
             hs == Sel(reals[src].hs, kept)
             mv == {i \in SetOf(hs) : ~heap[i].fixed}
         IN /\ heap' = [i \in DOMAIN heap |-> IF i \in mv
                          THEN [heap[i] EXCEPT !.x = @ + ray[ToString(heap[i].z)].x,
                                               !.y = @ + ray[ToString(heap[i].z)].y]
                          ELSE heap[i]]
            /\ moved' = [i \in DOMAIN moved |-> IF i \in mv THEN moved[i] + 1 ELSE moved[i]]
            /\ reals' = Append(reals, [reals[src] EXCEPT !.hs = hs, !.shifted = TRUE, !.center = c])
            \* halos are moved in place: what shared them is superseded
            /\ live' = {r \in live : SetOf(reals[r].hs) \cap mv = {}} \cup {Len(reals) + 1}

------------------------------------------------------------------------------
(* Properties of the design, checked exhaustively on a small world             *)
\* C01
KeptFromSource == \A r \in DOMAIN reals : SetOf(reals[r].hs) \subseteq DOMAIN heap
NoDuplicates == \A r \in DOMAIN reals : Cardinality(TagsOf(reals[r].hs)) = Len(reals[r].hs)
SplitPartitions ==
    \A r \in DOMAIN reals : \A z \in {heap[i].z : i \in DOMAIN heap} :
        LET lo(i) == heap[i].z <= z
            hi(i) == heap[i].z > z
            a == Sel(reals[r].hs, lo)  b == Sel(reals[r].hs, hi)
        IN Len(a) + Len(b) = Len(reals[r].hs) /\ SetOf(a) \cap SetOf(b) = {}
FiltersCommute ==
    \A r \in DOMAIN reals : \A t1, t2 \in {heap[i].m : i \in DOMAIN heap} :
        LET f(i) == heap[i].m >= t1
            g(i) == BoundMassKeeps(heap[i], t2)
        IN Sel(Sel(reals[r].hs, f), g) = Sel(Sel(reals[r].hs, g), f)
           /\ Sel(Sel(reals[r].hs, f), f) = Sel(reals[r].hs, f)
\* C02
JoinIsUnion ==
    \A a, b \in live : TagsOf(JoinOf(a, b)) = TagsOf(reals[a].hs) \cup TagsOf(reals[b].hs)
                       /\ Cardinality(TagsOf(JoinOf(a, b))) = Len(JoinOf(a, b))
                       /\ TagsOf(JoinOf(a, b)) = TagsOf(JoinOf(b, a))
JoinAbsorbs == \A a \in live : JoinOf(a, a) = reals[a].hs
\* C03
ShiftedAtMostOnce == \A i \in DOMAIN heap : moved[i] <= 1 /\ (heap[i].fixed => moved[i] = 0)
LiveAgree == \A r \in live : \A i \in SetOf(reals[r].hs) :
                ~heap[i].fixed => (moved[i] = 1 => reals[r].shifted)
=============================================================================
