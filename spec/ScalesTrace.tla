----------------------------- MODULE ScalesTrace -----------------------------
(* What the code answered, against the laws of the specification.                 *)
EXTENDS Scales, TraceLib

E == Trace[l]
\* constants of nature, as logarithms: c^2/4 pi G in Msun/Mpc; an arcsec; 4 pi; 4 pi/3; km/s in c
LnCG == 41955106
LnArcsec == -12236916
Ln4Pi == 2531024
Ln4Pi3 == 1432412
Pair(p, tol) == NearL(p[1], p[2], tol)
PairI(p, tol) == Near(p[1], p[2], tol)
\* tables are a few parts in a thousand off, and worse close to the observer
Slack(z) == IF z < 30 THEN 24000 ELSE IF z < 60 THEN 6000 ELSE 3500
\* logarithm of the factor of mass^m length^n
U(m, fm, n, fl, g) == LnOf(Factor(m, fm, n, fl), g)

TMade == /\ E.op = "made"
         /\ Consume([
              C23_cosmology |-> PairI(E.h, 1) /\ PairI(E.om, 1),
              C23_colossus |-> \A i \in 1..5 : PairI(E.col[i], 2),
              C23_densities |-> (\A i \in 1..3 : Pair(E.dens[i], 500)) /\ Pair(E.dm, 500),
              C23_expansion |-> Pair(E.ez, 20) /\ Pair(E.sf, 2) /\ Pair(E.ct, 20)])
TCall == /\ E.op = "call"
         /\ Consume([
              C23_values |-> /\ Len(E.got) = Len(E.want)
                             /\ \A i \in DOMAIN E.got :
                                  CASE E.f \in {"DA", "DC", "kpc"} -> NearL(E.got[i], E.want[i], Slack(E.zs[i]))
                                    [] E.f = "age" -> Near(E.got[i], E.want[i], 40)
                                    [] OTHER -> Near(E.got[i], E.want[i], 50),
              C23_shapes |-> E.scalar = (E.shape \in {"float", "numpy"}),
              C23_repeatable |-> E.again = 0])
TRefused == /\ E.op = "refused" /\ Consume([C23_answered |-> FALSE])
\* lensing distances: source over deflector and between
Dist(d) == (d[2] - d[1]) - d[3]
TLens == /\ E.op = "lens"
         /\ LET t == Slack(E.zl) + 3500 IN
            Consume([
              C23_distances |-> (\A i \in {1, 2} : NearL(E.d[i], E.want[i], IF i = 1 THEN Slack(E.zl) ELSE 3500)) /\ NearL(E.d[3], E.want[3], 50) /\ PairI(E.h, 1),
              C23_critical |-> NearL(E.sig[1], LnCG + Dist(E.want), t),
              C23_units |-> /\ NearL(E.sig[2], E.sig[1] + (U(1, "Msun", -2, "kpc", E.g) - U(1, "Msun", -2, "Mpc", E.g)), 5)
                            /\ NearL(E.sig[3], E.sig[1] + U(1, "Msun", -2, "arcsec", E.g), 2 * Slack(E.zl))])
TDeflector == /\ E.op = "deflector"
              /\ LET t == 16000 IN
                 Consume([
                   C23_critical |-> NearL(E.sig, LnCG + Dist(E.d), t) /\ NearL(E.mass, E.sig + E.area, 5),
                   \* theta^2 = 4 G M D_ds / c^2 D_d D_s
                   C23_point_mass |-> NearL(2 * E.pm, (((- LnCG) - LnPi) + ((E.d[3] - E.d[1]) - E.d[2])) - (2 * LnArcsec), t),
                   C23_isothermal |-> NearL(E.sis, ((Ln4Pi + (2 * (E.v - 12610846))) + (E.d[3] - E.d[2])) - LnArcsec, 200),
                   C23_interpolated |-> E.seen => NearL(E.inter, E.sig + U(1, "Msun", -2, "arcsec", E.g), 30000)])
LnK(pseudo) == IF pseudo THEN -591850 ELSE -1181386
Whole(rho, rs, mu) == ((Ln4Pi + rho) + (3 * rs)) + mu
THalo == /\ E.op = "halo"
         /\ Consume([
              \* r200 holds the mass, at 200 times the critical density; the profile holds the mass within it
              C23_r200 |-> NearL(E.m, ((Ln4Pi3 + Ln(200)) + E.rc) + (3 * E.r200), 600) /\ NearL(E.rs, E.r200 - E.c, 5),
              C23_profile_mass |-> NearL(E.m, Whole(E.rho, E.rs, E.mu), 600),
              C23_units |-> /\ NearL(E.kpc[1], E.rho + U(0, "Msun", -3, "kpc", E.g), 5)
                            /\ NearL(E.kpc[2], E.rs + U(0, "Msun", 1, "kpc", E.g), 5) /\ NearL(E.kpc[3], E.r200 + U(0, "Msun", 1, "kpc", E.g), 5)
                            /\ NearL(E.th, E.rs + U(0, "Msun", 1, "arcsec", E.g), 12000),
              C23_deflection |-> /\ NearL(E.al, ((((Ln(4) + E.rho) + (2 * E.rs)) + LnK(E.pseudo)) - (LnCG + Dist(E.d))) - (E.d[1] + LnArcsec), 16000)
                                 /\ NearL(E.again[1], E.th, 5) /\ NearL(E.again[2], E.al, 5),
              C23_overdensity |-> NearL(E.m, ((Ln4Pi3 + E.n) + E.rc) + (3 * E.rn), 600),
              C23_median |-> /\ NearL(E.cz, E.med + E.scale, 3000) /\ NearL(E.mz[3], E.kpc[3], 5)
                             /\ NearL(E.m, Whole(E.mz[1], E.mz[2], E.muz), 600)])
TDm == /\ E.op = "dm"
       /\ Consume([
            C23_thermal |-> NearL(E.mth, ((841567 + Pow(E.om, 40)) + Pow(E.h, 80)) - Pow(E.mhm - 20723266, 30), 300) /\ NearL(E.back, E.mhm, 100),
            C23_free_streaming |-> NearL(E.mhm, (Ln4Pi3 + E.rc) + (3 * (E.fsl + 1940898)), 600)])
TSidm == /\ E.op = "sidm"
         /\ Consume([
              C23_collapse_time |-> NearL(E.tc, ((32478132 - E.x) - E.rho) - ((E.rho \div 2) + E.rs), 3000),
              C23_vmax |-> NearL(E.vmax, ((-5678780) + (E.rho \div 2)) + E.rs, 8000),
              C23_mean_free_path |-> NearL(E.mfp, (22289443 - E.rho) - E.x, 3000),
              \* the documentation has a factor of two that the code has not
              C23_dynamical_time |-> LET v == ((-5678780) + (E.k[1] \div 2)) + E.k[2] IN
                                     \E two \in {0, Ln2} : NearL(E.tdyn, (((-22458) + E.k[3]) - v) + two, 12000)])
TAge == /\ E.op = "age"
        /\ LET t == [z \in RangeOf(E.zs) |-> E.t[CHOOSE i \in 1..3 : E.zs[i] = z]] IN
           Consume([C23_effective_age |-> Near(E.got, Effective(t, E.zs[1], E.zs[2], E.zs[3], E.lam), 600 + (40 * E.lam))])
TBoost == /\ E.op = "boost" /\ Consume([C23_two_halo |-> Pair(E.term, 10000) /\ Pair(E.boost, 10000)])
TInfall == /\ E.op = "infall" /\ Consume([C23_no_infall_model |-> E.refused])

\* -- rays, samples, waves, masks ---------------------------------------------------
\* angles in thousandths of the unit, distances in Mpc; a ray at d Mpc has x in thousandths times Mpc
RECURSIVE SumRays(_, _, _, _)
SumRays(x0, ps, d, k) == IF k = 0 THEN 0 ELSE SumRays(x0, ps, d, k - 1) + Ray(x0[k], ps, d)
\* the angle seen at the distance d, as a mean over rays
Angle(x0, ps, d) == IF d = 0 THEN SumRays(x0, <<>>, 1, Len(x0)) \div Len(x0) ELSE SumRays(x0, ps, d, Len(x0)) \div (Len(x0) * d)
\* between two samples of a path the angle is interpolated, which is a little off next to a plane
Slope == IF E.mean THEN 150 ELSE 100
Follows(x0, ps, got, src, tol) ==
    \A i \in DOMAIN E.ds :
       LET d == E.ds[i] IN
       IF E.stop /\ d >= E.last - 1 THEN Near(got[i], src, 5)
       ELSE (~E.stop \/ 50 * d < 46 * E.last) => Near(got[i], Angle(x0, ps, d), tol)
TRays == /\ E.op = "rays"
         /\ Consume([
              C29_rays |-> /\ E.n[1] = E.n[2] /\ E.n[1] = (IF E.mean THEN 1 ELSE E.n[3]) /\ E.kw
                           /\ \A i \in DOMAIN E.ax : Follows(IF E.mean THEN E.x0 ELSE <<E.x0[i]>>, E.px, E.ax[i], E.src[1], Slope)
                           /\ \A i \in DOMAIN E.ay : Follows(IF E.mean THEN E.y0 ELSE <<E.y0[i]>>, E.py, E.ay[i], E.src[2], Slope),
              C29_ray_ends |-> \A i \in DOMAIN E.ends : E.ends[i][1] = 0 /\ Near(E.ends[i][2], E.last, 1),
              C29_comoving |-> \A k \in DOMAIN E.path : LET p == E.path[k] IN
                                 /\ \A i \in 1..(Len(p.d) - 1) : p.d[i] <= p.d[i+1]
                                 /\ p.d[1] = 0 /\ p.x[1] = 0 /\ p.y[1] = 0 /\ Near(p.d[Len(p.d)], E.last, 1)
                                 /\ \A i \in 1..(Len(p.d) - 1) :
                                      /\ Near(1000 * p.x[i], Ray(E.x0[k], E.px, p.d[i]), 6000) /\ Near(1000 * p.y[i], Ray(E.y0[k], E.py, p.d[i]), 6000)])
TSamples == /\ E.op = "samples"
            /\ Consume([
                 C29_samples |-> /\ E.inside /\ E.one
                                 /\ \A s \in DOMAIN E.counts : LET b == E.counts[s] IN
                                      /\ SumSeq(b) = E.n
                                      /\ \A i \in DOMAIN b : Near(b[i], E.n \div 8, Binomial6(E.n, 1, 8) + (E.n \div 1000)),
                 C29_resampled |-> \A i \in DOMAIN E.cum : Near(E.cum[i], (E.n * i) \div 8, E.slack[i] + Binomial6(E.n, i, 8))])
TWaves == /\ E.op = "waves"
          /\ Consume([
               \* 1.2 kpc at 1e-22 eV and 100 km/s; 4.4e7 solar masses at 1e-22 eV today
               C29_wavelength |-> NearL(E.lam, (182322 - E.m) - E.v, 20),
               C29_minimum_mass |-> /\ NearL(E.mmin, (17599700 - ((3 * E.m) \div 2)) + (((3 * E.a) \div 4) + (E.ratio \div 4)), 300)
                                    /\ Near(E.floor[1], Max2(E.floor[2], E.floor[3]), 2),
               C29_squared_density |-> Pair(E.sq, 3000),
               C29_dispersion |-> Pair(E.jeans, 6000)])
TFluctuation == /\ E.op = "fluctuation"
                /\ Consume([C29_fluctuation |-> /\ NearL(2 * E.ds, ((LnPi \div 2) + E.i2) + E.lam, 12000)
                                                /\ NearL(E.dk, E.ds - E.sig, 4000)])
Ring(i) == LET r2 == ((E.x[i] - E.c[1]) * (E.x[i] - E.c[1])) + ((E.y[i] - E.c[2]) * (E.y[i] - E.c[2]))
           IN r2 > E.lo * E.lo /\ (E.hi >= 0 => r2 < E.hi * E.hi)
TMask == /\ E.op = "mask"
         /\ Consume([C29_mask |-> E.values /\ \A i \in DOMAIN E.got : E.got[i] = (IF Ring(i) THEN 1 ELSE 0)])
TKappa == /\ E.op = "kappa"
          /\ Consume([C29_convergence |-> /\ E.shape = <<E.npix, E.npix>> /\ Near(E.off, 0, 2 + (E.scale \div 100000))
                                          /\ \A i, j \in DOMAIN E.lists : E.lists[i] = E.lists[j]
                                          /\ E.macro /\ E.halos /\ E.multi /\ E.source = 150000 /\ \A i \in DOMAIN E.planes : E.planes[i] = 50000])

TraceInit == LibInit
TraceNext == (l <= Len(Trace) /\ (TMade \/ TCall \/ TRefused \/ TLens \/ TDeflector \/ THalo \/ TDm \/ TSidm \/ TAge \/ TBoost \/ TInfall
                                        \/ TRays \/ TSamples \/ TWaves \/ TFluctuation \/ TMask \/ TKappa)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, cov>>
==============================================================================
