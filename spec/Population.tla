----------------------------- MODULE Population -----------------------------
(* How a line of sight is populated: lens planes, the rendering geometry, the  *)
(* classes of halos (subhalos, line of sight, two-halo term) with their mass   *)
(* functions and spatial distributions, and the sheets of negative convergence *)
(* that balance their mass.  Redshifts in 1e-6, logarithms in micro-nepers.    *)
EXTENDS LogArith, FiniteSets, TLC

SumS(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
MaxP(a, b) == IF a >= b THEN a ELSE b
MinP(a, b) == IF a <= b THEN a ELSE b

------------------------------------------------------------------------------
(* Lens planes: start, start+step, ... in front of the deflector; then the      *)
(* deflector, deflector+step, ... in front of the source.  zl = 0: no deflector *)
Above(n, d) == (n + d - 1) \div d          \* ceiling
FrontPlanes(start, zl, step) == [k \in 1..(IF zl > start THEN Above(zl - start, step) ELSE 0) |-> start + (k-1)*step]
BackPlanes(zl, zs, step) == [k \in 1..(IF zs > zl THEN Above(zs - zl, step) ELSE 0) |-> zl + (k-1)*step]
Planes(start, zl, zs, step) ==
    IF zl = 0 THEN FrontPlanes(start, zs, step) ELSE FrontPlanes(start, zl, step) \o BackPlanes(zl, zs, step)
Thickness(p, zs) == [i \in DOMAIN p |-> IF i = Len(p) THEN zs - p[i] ELSE p[i + 1] - p[i]]

PlanesSound(start, zl, zs, step) ==
    LET p == Planes(start, zl, zs, step)
        d == Thickness(p, zs)
    IN /\ \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
       /\ \A i \in DOMAIN p : p[i] < zs /\ d[i] > 0 /\ d[i] <= step
       /\ zl > 0 => Cardinality({i \in DOMAIN p : p[i] = zl}) = 1
       /\ SumS(d) = zs - p[1]

------------------------------------------------------------------------------
(* Geometry: angular size of the rendering area at z relative to the deflector, *)
(* in 1e-4; distances in 1/10 Mpc (angular diameter: dz, dlz, ds, dls;          *)
(* comoving: cl, cz), pad in 1/100                                              *)
Ratio(a, b) == (a * 10000) \div b
RenderingScale(type, zl, z, pad, D) ==
    CASE type = "CONE" -> 10000
      [] type = "CYLINDER" -> Ratio(D.cl, D.cz)
      [] type = "DOUBLE_CONE" ->
           IF z <= zl THEN 10000
           ELSE 10000 - (((Ratio(D.ds, D.dls) * Ratio(D.dlz, D.dz)) \div 10000) * pad) \div 100
\* comoving volume of a thin slice: area at the plane times depth (all logarithms)
SliceVolume(lcone, lscale, ldc, ldepth) == LnPi + 2 * (lcone - Ln2 + lscale + ldc) + ldepth
\* whole volume, closed forms (lcone: full opening angle in radians)
TotalVolume(type, lcone, ldl, lds) ==
    CASE type = "CONE" -> LnPi - Ln(3) + 2 * (lcone - Ln2) + 3 * lds
      [] type = "CYLINDER" -> LnPi + 2 * (lcone - Ln2 + ldl) + lds
      [] type = "DOUBLE_CONE" -> LnPi - Ln(3) + 2 * (lcone - Ln2 + ldl) + lds     \* closing at the source

------------------------------------------------------------------------------
(* Mass functions *)
\* amplitude of the subhalo mass function at one solar mass, per solar mass
\* (ra: log of the rendering radius in kpc; k1, k2 and the index in 1/1000)
SubhaloAmplitude(h) ==
    LET area == LnPi + 2 * h.lr
        \* pivot^-(index + 1)
        pivot == -PowM(h.lpivot, h.index + 1000)
    IN IF h.lsigma # ZERO
       THEN area + h.lsigma + PowM(h.lhost - 29933606, h.k1) + PowM(h.lz, h.k2) + pivot
       ELSE area + h.ldnda + pivot

------------------------------------------------------------------------------
(* Theory mass of a class on a plane: amplitude x integral of the mass function  *)
(* at unit amplitude (li: over the range asked for, lic: over the class' own     *)
(* range; ZERO where the range is empty), and the same for numbers.             *)
Times(x, y) == IF x = ZERO \/ y = ZERO THEN ZERO ELSE x + y
AmplitudeAt(c, p) ==
    CASE c.kind = "SUBHALOS" -> SubhaloAmplitude(c.h)
      [] OTHER -> p.la + c.lnorm + p.lv          \* per volume x normalization x volume

\* Sheets: minus scale x mass / critical mass of the plane (ls)
SheetAt(lm, p, lscale) == IF lm = ZERO THEN <<>> ELSE <<[z |-> p.z, lk |-> lscale + lm - p.ls]>>
SheetsOfClass(c, a) ==
    LET lm(p) == Times(IF a.own THEN p.lic ELSE p.li, AmplitudeAt(c, p))
    IN CASE c.kind = "SUBHALOS" -> SheetAt(lm(c.planes[1]), c.planes[1], a.lscale_sub)
         [] c.kind = "LINE_OF_SIGHT" ->
              Flat([i \in DOMAIN c.planes |->
                      IF c.planes[i].z < a.zmin \/ c.planes[i].z > a.zmax THEN <<>>
                      ELSE SheetAt(lm(c.planes[i]), c.planes[i], a.lscale)])
         [] OTHER -> <<>>
Sheets(classes, a) == Flat([i \in DOMAIN classes |-> SheetsOfClass(classes[i], a)])
\* the mass actually rendered (lm), plane by plane, instead of the theory
ExactSheets(planes) == Flat([i \in DOMAIN planes |-> SheetAt(planes[i].lm, planes[i], 0)])
SameSheets(want, got, tol) ==
    /\ Len(want) = Len(got)
    /\ \A i \in DOMAIN want : \E j \in DOMAIN got : got[j].z = want[i].z /\ NearL(got[j].lk, want[i].lk, tol)
    /\ \A j \in DOMAIN got : \E i \in DOMAIN want : got[j].z = want[i].z /\ NearL(got[j].lk, want[i].lk, tol)
=============================================================================
