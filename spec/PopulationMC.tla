---------------------------- MODULE PopulationMC ----------------------------
(* The plane grid, geometry and sheet rules on every small instance.           *)
EXTENDS Population
CONSTANTS MaxZ, MaxStep
VARIABLES start, zl, zs, step, zmin, zmax, own, mass

vars == <<start, zl, zs, step, zmin, zmax, own, mass>>
Masses == {ZERO, 700000, 1400000}
Init == /\ start \in 1..2 /\ step \in 1..MaxStep
        /\ zs \in 3..MaxZ /\ zl \in {0} \cup (2..MaxZ) /\ zl < zs
        /\ zmin \in {0, 3, 5} /\ zmax \in {4, 6, MaxZ}
        /\ own \in BOOLEAN /\ mass \in Masses
\* the user moves the window of planes, or switches to the ranges of the classes
Next == \/ /\ zmin' \in {0, 3, 5} /\ UNCHANGED <<start, zl, zs, step, zmax, own, mass>>
        \/ /\ zmax' \in {4, 6, MaxZ} /\ UNCHANGED <<start, zl, zs, step, zmin, own, mass>>
        \/ /\ own' = ~own /\ UNCHANGED <<start, zl, zs, step, zmin, zmax, mass>>
Spec == Init /\ [][Next]_vars

P == Planes(start, zl, zs, step)
Los == [kind |-> "LINE_OF_SIGHT", lnorm |-> 0,
        planes |-> [i \in DOMAIN P |-> [z |-> P[i], la |-> 0, lv |-> 100 * i, li |-> mass, lic |-> 900000, ls |-> 5000000]]]
Two == [Los EXCEPT !.kind = "TWO_HALO"]
Sub == [kind |-> "SUBHALOS", h |-> [lr |-> 3000000, index |-> -1900, lpivot |-> 18420681, lsigma |-> -3000000,
        lhost |-> 29933606, k1 |-> 550, k2 |-> 370, lz |-> 0, ldnda |-> ZERO],
        planes |-> <<[z |-> zl, li |-> mass, lic |-> 900000, ls |-> 5000000]>>]
A == [lscale |-> 0, lscale_sub |-> 0, zmin |-> zmin, zmax |-> zmax, own |-> own]
S(cs, a) == Sheets(cs, a)
ZsOf(s) == {s[i].z : i \in DOMAIN s}

PlanesGood == (zl = 0 \/ start < zl) /\ start < zs => PlanesSound(start, zl, zs, step)
\* two windows that cover everything give each sheet once
WindowSplits ==
    LET lo == S(<<Los>>, [A EXCEPT !.zmin = 0, !.zmax = zmin])
        hi == S(<<Los>>, [A EXCEPT !.zmin = zmin + 1, !.zmax = zs])
        all == S(<<Los>>, [A EXCEPT !.zmin = 0, !.zmax = zs])
    IN lo \o hi = all
WindowHolds == \A z \in ZsOf(S(<<Los>>, A)) : zmin <= z /\ z <= zmax
OneSheetPerPlane == Len(S(<<Los>>, A)) = Cardinality(ZsOf(S(<<Los>>, A)))
NoSheetForNothing == mass = ZERO /\ ~own => S(<<Los, Sub>>, A) = <<>>
TwoHaloHasNoSheet == S(<<Two>>, A) = <<>>
\* subhalos are not subject to the window; scales multiply
SubhaloSheet == zl > 0 => Len(S(<<Sub>>, A)) = IF mass = ZERO /\ ~own THEN 0 ELSE 1
ScaleMultiplies == LET one == S(<<Los>>, A)  two == S(<<Los>>, [A EXCEPT !.lscale = Ln2])
                   IN Len(one) = Len(two) /\ \A i \in DOMAIN one : two[i].lk = one[i].lk + Ln2 /\ two[i].z = one[i].z
ClassesAdd == S(<<Los, Sub>>, A) = S(<<Los>>, A) \o S(<<Sub>>, A)
\* the double cone narrows behind the deflector and never exceeds its opening
Distances == [ds |-> 17000, dls |-> 11000, dlz |-> 4000 + 100 * zmin, dz |-> 15000, cl |-> 19000, cz |-> 20000 + zmin]
Narrowing == RenderingScale("DOUBLE_CONE", 1, 2, 95, Distances) <= 10000
=============================================================================
