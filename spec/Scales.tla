-------------------------------- MODULE Scales --------------------------------
(* Scales: redshifts, distances, units, ages, and the small laws of physics that  *)
(* everything else is built from.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, LogArith

\* -- units ----------------------------------------------------------------------
\* A form says in which unit a length or a mass is written.  Its factor, against Mpc
\* and solar masses, is a product of powers of four numbers: a thousand, h, the kpc in
\* an arcsec, and 1 + z.
Lengths == {"Mpc", "kpc", "Mpc/h", "comoving", "arcsec"}
Masses == {"Msun", "Msun/h"}
One == [k |-> 0, h |-> 0, s |-> 0, a |-> 0]
LengthFactor(f) == CASE f = "Mpc" -> One
                     [] f = "kpc" -> [One EXCEPT !.k = 1]
                     [] f = "Mpc/h" -> [One EXCEPT !.h = 1]
                     [] f = "comoving" -> [One EXCEPT !.a = 1]
                     [] OTHER -> [One EXCEPT !.k = 1, !.s = -1]
MassFactor(f) == IF f = "Msun" THEN One ELSE [One EXCEPT !.h = 1]
Plus(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Times(n, u) == [i \in DOMAIN u |-> n * u[i]]
\* a quantity of dimension mass^m length^n
Factor(m, fm, n, fl) == Plus(Times(m, MassFactor(fm)), Times(n, LengthFactor(fl)))
\* its logarithm, given those of the four numbers
LnOf(u, g) == (u.k * g.k) + (u.h * g.h) + (u.s * g.s) + (u.a * g.a)

\* -- ages -------------------------------------------------------------------------
\* age(z, zf): the time from zf to z, none when z comes first; t: age of the universe
Since(t, z, zf) == IF z > zf THEN 0 ELSE t[z] - t[zf]
\* the age of a subhalo whose clock runs lam tenths as fast after infall; nothing
\* falls in before it has formed
Effective(t, z, zi, zf, lam) == LET i == IF zi > zf THEN zf ELSE zi
                                IN (10 * Since(t, i, zf)) + (lam * Since(t, z, i))

\* -- rays --------------------------------------------------------------------------
\* a ray that arrives at an angle th is turned by p.al at every plane it meets; this is
\* its distance from the axis at the distance d: straight between the planes
RECURSIVE Turned(_, _, _)
Turned(ps, d, k) == IF k = 0 THEN 0 ELSE Turned(ps, d, k - 1) + (IF ps[k].d < d THEN ps[k].al * (d - ps[k].d) ELSE 0)
Ray(th, ps, d) == (th * d) - Turned(ps, d, Len(ps))

\* -- what may be met ------------------------------------------------------------------
\* redshifts in thousandths: below, at and beyond the ends of any table
Redshifts == {1, 5, 13, 20, 21, 50, 137, 200, 337, 500, 503, 731, 1000, 1002, 1510, 1700, 2500, 3300, 3990, 4000, 4001, 4010, 4020, 4021, 4500, 6000}
ScalarCalls == {"DA", "DC", "kpc", "age", "DA2"}
Shapes == {"float", "numpy", "list", "array"}
===============================================================================
