------------------------------- MODULE HaloLaw -------------------------------
(* What the lens model of a halo has to weigh and how large it has to be, given *)
(* its mass, concentration, truncation and redshift.  All quantities are        *)
(* micro-nepers; masses in Msun, lengths in Mpc unless a law says kpc.           *)
EXTENDS Halo

\* 3 m = 4 pi 200 rho_c r200^3
R200Of(m, rhoc) == (m + Ln(3) - Ln(4) - LnPi - Ln(200) - rhoc) \div 3
\* scale radius on the sky: r200 / (c D_A), in arcsec
Angle(len, kpcarc) == len + 3 * Ln(10) - kpcarc
\* 4 G / c^2 in Mpc per Msun:  ln(4 * 4.30091e-9 / 299792.458^2)
LnFourGc2 == -43099836
\* one arcsec in radian: ln(pi / 648000)
LnArcsec == -12236916
\* velocity dispersion of the galaxy in an NFW halo: 0.646 * 1.64 sqrt(G rho_s rs^2); kpc and km/s
LnSis == -436956 + 494696
LnGkpc == -12356896
LnC == 12610846
LawWant(law, q) ==
  CASE law = "mass200"   -> q.m + q.norm + q.frac          \* inside c r_s (truncated: that fraction of it)
    [] law = "given"     -> q.m + q.norm                   \* a mass the caller asked for, inside a radius it named
    [] law = "matched"   -> q.m + q.fmatch - q.fc          \* the NFW mass inside x_match scale radii
    [] law = "rs"        -> Angle(R200Of(q.m, q.rhoc) - q.c, q.kpa)
    [] law = "angle"     -> q.kpc - q.kpa                  \* a physical length [kpc] on the sky
    [] law = "ptmass"    -> (LnFourGc2 + q.m + q.dds - q.dd - q.ds) \div 2 - LnArcsec
    [] law = "sis"       -> Ln(4) + LnPi + 2 * (LnSis - LnC) + LnGkpc + q.rhos + 2 * q.rsk + q.norm
                              + q.dds - q.ds - LnArcsec
    \* solitonic core [kpc]: 1.6 / m22 a^(1/2) (zeta(z)/zeta(0))^(-1/6) M9^(-plaw)
    [] law = "soliton"   -> 470004 - q.m22 - q.lz1 \div 2 - q.zeta \div 6 - PowM(q.m9, q.plaw) - q.kpa
    [] law = "same"      -> q.m
    \* counts that agree within 6 sigma of their difference are decided elsewhere
SameSample6(n, both) == 6 * Root(both) + 6
=============================================================================
