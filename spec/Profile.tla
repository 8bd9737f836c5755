------------------------------- MODULE Profile -------------------------------
(* One mass distribution, many views.  A halo is a spherical density with a       *)
(* normalization.  Its density, the mass in a sphere, the mass in a cylinder, the  *)
(* convergence, the deflection angle and the logarithmic slope are all read off    *)
(* that one distribution: rescaling the halo multiplies every one of them except   *)
(* the slope, and each follows from the others by the laws below.  Quantities in    *)
(* traces are micro-nepers; radii kpc, masses Msun, angles arcsec.                   *)
EXTENDS LogArith, FiniteSets

Views == {"rho", "rholens", "m3", "m2", "angle", "kappa", "surface", "slope"}
\* powers of (mass, length, angle) a view is measured in, and of the normalization
Dim(v) == CASE v \in {"rho", "rholens"} -> <<1, -3, 0>>
            [] v \in {"m3", "m2"} -> <<1, 0, 0>>
            [] v = "surface" -> <<1, -2, 0>>
            [] v = "angle" -> <<0, 0, 1>>
            [] OTHER -> <<0, 0, 0>>
NormPower(v) == IF v = "slope" THEN 0 ELSE 1
\* the two conversions: length per angle, and the critical density (mass per angle^2)
PerAngle == <<0, 1, -1>>
Critical == <<1, 0, -2>>
Length == <<0, 1, 0>>
Mul(d, e) == [i \in 1..3 |-> d[i] + e[i]]
PowD(d, n) == [i \in 1..3 |-> n * d[i]]
Div(d, e) == Mul(d, PowD(e, -1))
\* the laws as products of dimensions: what they are equal to
AngleDim == Div(Div(Dim("m2"), Div(Length, PerAngle)), Critical)                 \* m2 / (pi theta Sigma)
KappaDim == Div(Dim("surface"), Div(Critical, PowD(PerAngle, 2)))                \* surface density over the critical one
LensDim == Div(Div(Critical, <<0, 0, 1>>), PowD(PerAngle, 3))     \* a density in Sigma per arcsec, in Msun / kpc^3
\* and as sums of logarithms: r radius, a length per angle, sig critical density [mass per angle^2]
AngleLaw(m2, r, q) == (((m2 - LnPi) - (r - q.a)) - q.sig)
KappaLaw(surf, q) == surf - (q.sig - 2 * q.a)

\* the law of a truncated NFW profile: rho_s / (x (1 + x)^2) t^2 / (t^2 + x^2)
Shape(rhos, x, x1, t, tx) == ((rhos - x) - 2 * x1) + (2 * t - tx)

\* -- the same on a lattice, where all of it is counting ------------------------------
\* a distribution: mass at every lattice point, by squared distance from the centre
Sq(p) == (p[1] * p[1]) + ((p[2] * p[2]) + (p[3] * p[3]))
Ball(n) == {p \in ((-n)..n) \X ((-n)..n) \X ((-n)..n) : Sq(p) <= n * n}
Shells(n) == {Sq(p) : p \in Ball(n)}
\* lattice points of the shell s that lie inside the cylinder of squared radius R2
InCylinder(n, s, R2) == Cardinality({p \in Ball(n) : Sq(p) = s /\ (p[1] * p[1]) + (p[2] * p[2]) <= R2})
InSphere(n, s, R2) == IF s <= R2 THEN Cardinality({p \in Ball(n) : Sq(p) = s}) ELSE 0
InColumn(n, s, x, y) == Cardinality({p \in Ball(n) : Sq(p) = s /\ p[1] = x /\ p[2] = y})
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN f[s] + Total(S \ {s}, f)
==============================================================================
